// order, octet and string buffers, and the pool
#pragma once

namespace
{
   namespace kinds
   {
      // -------------------------------------------------------------- order

      namespace order
      {
         enum Kind { Bool, Char, Short, Long, Float, Double, String, Binary};
         constexpr const char* names[] = { "bool", "char", "short", "long", "float", "double", "string", "binary"};

         struct Item
         {
            Kind kind{};
            std::string value; // host representation
         };

         long stored( const Item& item)
         {
            switch( item.kind)
            {
               case Bool: case Char: return 1;
               case String: return item.value.size() + 1;
               case Binary: return item.value.size() + 8;
               default: return item.value.size();
            }
         }

         Item item( Source& source)
         {
            auto kind = Kind( source.draw( 8));
            switch( kind)
            {
               case Bool: return { kind, raw( source.boolean())};
               case Char: return { kind, raw( char( source.draw( 256)))};
               case Short: return { kind, raw( number< short>( source))};
               case Long: return { kind, raw( number< long>( source))};
               case Float: return { kind, raw( number< float>( source))};
               case Double: return { kind, raw( number< double>( source))};
               case String:
               {
                  auto value = source.chance( 7) ? source.blob( source.integer( 100, 10000)) : source.bytes( source.integer( 0, 40));
                  std::erase( value, '\0');
                  return { kind, value};
               }
               default: return { kind, source.chance( 7) ? source.blob( source.integer( 100, 10000)) : source.bytes( source.integer( 0, 40))};
            }
         }

         int add( char** buffer, const Item& item)
         {
            switch( item.kind)
            {
               case Bool: return casual_order_add_bool( buffer, cook< bool>( item.value));
               case Char: return casual_order_add_char( buffer, cook< char>( item.value));
               case Short: return casual_order_add_short( buffer, cook< short>( item.value));
               case Long: return casual_order_add_long( buffer, cook< long>( item.value));
               case Float: return casual_order_add_float( buffer, cook< float>( item.value));
               case Double: return casual_order_add_double( buffer, cook< double>( item.value));
               case String: return casual_order_add_string( buffer, item.value.c_str());
               default: return casual_order_add_binary( buffer, item.value.data(), item.value.size());
            }
         }

         int get( const char* buffer, Kind kind, std::string& value)
         {
            int code = 0;
            switch( kind)
            {
               case Bool: { bool v{}; code = casual_order_get_bool( buffer, &v); value = raw( v); break;}
               case Char: { char v{}; code = casual_order_get_char( buffer, &v); value = raw( v); break;}
               case Short: { short v{}; code = casual_order_get_short( buffer, &v); value = raw( v); break;}
               case Long: { long v{}; code = casual_order_get_long( buffer, &v); value = raw( v); break;}
               case Float: { float v{}; code = casual_order_get_float( buffer, &v); value = raw( v); break;}
               case Double: { double v{}; code = casual_order_get_double( buffer, &v); value = raw( v); break;}
               case String: { const char* v{}; code = casual_order_get_string( buffer, &v); if( ! code) value = v; break;}
               default: { const char* v{}; long size{}; code = casual_order_get_binary( buffer, &v, &size); if( ! code) value.assign( v, size);}
            }
            return code;
         }

         void property( Source& source)
         {
            char* buffer = tpalloc( CASUAL_ORDER, nullptr, source.integer( 0, 200));
            require( buffer, "tpalloc gave null");

            std::vector< Item> items;
            std::size_t cursor = 0;
            long used = 0, consumed = 0, written = 0, read = 0;

            // bytes ahead of the cursor, when the reader is out of step
            source.repeat( 1, 60, 25, [ &]( auto step)
            {
               switch( source.weighted( { 40, 30, 5, 3, 6, 8, 3, 4}))
               {
                  case 0:
                  {
                     auto item = order::item( source);
                     source.log( "add ", names[ item.kind], " ", show( item.value, 30));
                     auto code = add( &buffer, item);
                     require( code == CASUAL_ORDER_SUCCESS, "add gives ", casual_order_description( code));
                     used += stored( item);
                     items.push_back( std::move( item));
                     ++written;
                     break;
                  }
                  case 1:
                  {
                     if( cursor == items.size())
                     {
                        // nothing left, whatever is asked for
                        auto kind = Kind( source.draw( 8));
                        source.log( "get ", names[ kind], " beyond the end");
                        source.label( "beyond");
                        std::string value;
                        auto code = get( buffer, kind, value);
                        require( code == CASUAL_ORDER_OUT_OF_BOUNDS, "get ", names[ kind], " from a consumed buffer gives ", casual_order_description( code));
                        break;
                     }
                     auto& item = items[ cursor];
                     source.log( "get ", names[ item.kind]);
                     std::string value;
                     auto code = get( buffer, item.kind, value);
                     require( code == CASUAL_ORDER_SUCCESS, "get ", names[ item.kind], " gives ", casual_order_description( code));
                     require( value == item.value, "get ", names[ item.kind], " gives ", show( value), ", expected ", show( item.value));
                     consumed += stored( item);
                     ++cursor;
                     ++read;
                     break;
                  }
                  case 2:
                  {
                     source.log( "get prepare");
                     require( casual_order_get_prepare( buffer) == CASUAL_ORDER_SUCCESS, "get prepare");
                     cursor = 0;
                     consumed = 0;
                     break;
                  }
                  case 3:
                  {
                     // to recycle a buffer both cursors are reset
                     source.log( "recycle");
                     require( casual_order_add_prepare( buffer) == CASUAL_ORDER_SUCCESS, "add prepare");
                     require( casual_order_get_prepare( buffer) == CASUAL_ORDER_SUCCESS, "get prepare");
                     items.clear();
                     cursor = used = consumed = 0;
                     break;
                  }
                  case 4:
                  {
                     auto size = source.integer( 0, 2000);
                     source.log( "reallocate ", size);
                     buffer = tprealloc( buffer, size);
                     require( buffer, "tprealloc gave null");
                     long reserved{};
                     require( casual_order_explore_buffer( buffer, &reserved, nullptr, nullptr) == CASUAL_ORDER_SUCCESS, "explore");
                     require( reserved >= size || size == 0, "reallocate to ", size, " gives ", reserved);
                     break;
                  }
                  case 5:
                  {
                     const bool network = source.boolean();
                     const bool inbound = source.boolean();
                     source.log( "transport ", network, inbound);
                     source.label( "transported");
                     auto payload = transported( buffer, source.integer( 0, 200), network);
                     require( payload.type == std::string( CASUAL_ORDER "/"), "type is ", payload.type);
                     require( long( payload.data.size()) == used, payload.data.size(), " bytes transported, expected ", used);
                     auto copy = inbound ? holder().adopt( std::move( payload)).raw() : std::get< 0>( holder().insert( std::move( payload))).raw();
                     // over there it's read from the beginning
                     for( auto& item : items)
                     {
                        std::string value;
                        auto code = get( copy, item.kind, value);
                        require( code == CASUAL_ORDER_SUCCESS, "get ", names[ item.kind], " of transported gives ", casual_order_description( code));
                        require( value == item.value, "get ", names[ item.kind], " of transported gives ", show( value), ", expected ", show( item.value));
                        ++read;
                     }
                     std::string value;
                     require( get( copy, Char, value) == CASUAL_ORDER_OUT_OF_BOUNDS, "more than expected was transported");
                     if( inbound)
                        holder().clear();
                     else
                        tpfree( copy);
                     break;
                  }
                  case 6:
                  {
                     source.log( "add with negative size");
                     require( casual_order_add_binary( &buffer, "x", -source.uniform( 1, 1000)) == CASUAL_ORDER_INVALID_ARGUMENT, "negative size is accepted");
                     break;
                  }
                  case 7:
                  {
                     // a reader out of step: something bigger than what is left
                     if( cursor == items.size())
                        break;
                     const auto left = used - consumed;
                     if( left >= 8)
                        break;
                     auto kind = source.pick( { Long, Double, Binary});
                     source.log( "get ", names[ kind], " with ", left, " bytes left");
                     source.label( "mismatch");
                     std::string value;
                     auto code = get( buffer, kind, value);
                     require( code == CASUAL_ORDER_OUT_OF_BOUNDS, "get ", names[ kind], " with ", left, " bytes left gives ", casual_order_description( code));
                     break;
                  }
               }
               long reserved = -1, utilized = -1, position = -1;
               require( casual_order_explore_buffer( buffer, &reserved, &utilized, &position) == CASUAL_ORDER_SUCCESS, "explore");
               require( utilized == used && position == consumed && reserved >= used, step, ": used ", utilized, " consumed ", position, " reserved ", reserved, ", expected ", used, " ", consumed);
            });

            // everything comes back in order
            require( casual_order_get_prepare( buffer) == CASUAL_ORDER_SUCCESS, "get prepare");
            for( auto& item : items)
            {
               std::string value;
               auto code = get( buffer, item.kind, value);
               require( code == CASUAL_ORDER_SUCCESS && value == item.value, "get ", names[ item.kind], " gives ", casual_order_description( code), " ", show( value), ", expected ", show( item.value));
            }

            source.nontrivial( written >= 5 && read > 0);
            tpfree( buffer);
            long used_after{};
            require( casual_order_explore_buffer( buffer, nullptr, &used_after, nullptr) == CASUAL_ORDER_INVALID_HANDLE, "the buffer is there after free");
         }
      } // order

      // -------------------------------------------------------------- octet

      namespace octet
      {
         void property( Source& source)
         {
            const std::string subtype = source.pick( { "", CASUAL_OCTET_JSON, CASUAL_OCTET_XML, CASUAL_OCTET_YAML});

            auto size = source.integer( 0, 200);
            source.log( "allocate ", subtype, " ", size);
            char* buffer = tpalloc( CASUAL_OCTET, subtype.empty() && source.boolean() ? nullptr : subtype.c_str(), size);
            require( buffer, "tpalloc gave null");

            std::string model( size, '\0');
            long written = 0, read = 0;

            auto compare = [ &]( const char* buffer, const std::string& model, auto what)
            {
               const char* name{};
               long size = -1;
               require( casual_octet_explore_buffer( buffer, &name, &size) == CASUAL_OCTET_SUCCESS, what, ": explore");
               require( ( name ? name : "") == subtype, what, ": name is ", name ? name : "null", ", expected ", subtype);
               require( size == long( model.size()), what, ": size is ", size, ", expected ", model.size());
               const char* data{};
               size = -1;
               require( casual_octet_get( buffer, &data, &size) == CASUAL_OCTET_SUCCESS, what, ": get");
               require( std::string( data, size) == model, what, ": data is ", show( std::string( data, size)), ", expected ", show( model));
               char type[ 8]; char sub[ 16];
               require( tptypes( buffer, type, sub) == long( model.size()), what, ": tptypes size");
               require( std::string( type, ::strnlen( type, 8)) == CASUAL_OCTET && std::string( sub, ::strnlen( sub, 16)) == subtype, what, ": tptypes gives ", show( { type, 8}), show( { sub, 16}));
            };

            source.repeat( 1, 40, 15, [ &]( auto)
            {
               switch( source.weighted( { 40, 15, 15, 5, 10}))
               {
                  case 0:
                  {
                     auto data = source.chance( 10) ? source.blob( source.integer( 100, 10000)) : source.bytes( source.integer( 0, 60));
                     source.log( "set ", show( data));
                     auto copy = std::make_unique< char[]>( data.size() + 1);
                     std::memcpy( copy.get(), data.data(), data.size());
                     auto code = casual_octet_set( &buffer, copy.get(), data.size());
                     require( code == CASUAL_OCTET_SUCCESS, "set gives ", casual_octet_description( code));
                     model = data;
                     ++written;
                     break;
                  }
                  case 1:
                  {
                     auto size = source.integer( 0, 500);
                     source.log( "reallocate ", size);
                     buffer = tprealloc( buffer, size);
                     require( buffer, "tprealloc gave null");
                     model.resize( size);
                     break;
                  }
                  case 2:
                  {
                     const bool network = source.boolean();
                     const bool inbound = source.boolean();
                     source.log( "transport ", network, inbound);
                     source.label( "transported");
                     auto payload = transported( buffer, source.integer( 0, 200), network);
                     auto copy = inbound ? holder().adopt( std::move( payload)).raw() : std::get< 0>( holder().insert( std::move( payload))).raw();
                     compare( copy, model, "transported");
                     ++read;
                     if( inbound)
                        holder().clear();
                     else
                     {
                        tpfree( buffer);
                        buffer = copy;
                     }
                     break;
                  }
                  case 3:
                     source.log( "set with negative size");
                     require( casual_octet_set( &buffer, "x", -source.uniform( 1, 1000)) == CASUAL_OCTET_INVALID_ARGUMENT, "negative size is accepted");
                     break;
                  case 4:
                  {
                     if( model.empty())
                        break;
                     // the memory is the user's
                     auto position = source.draw( model.size());
                     auto value = char( source.draw( 256));
                     source.log( "write ", int( value), " at ", position);
                     buffer[ position] = value;
                     model[ position] = value;
                     ++written;
                     break;
                  }
               }
               compare( buffer, model, "octet");
               ++read;
            });
            source.nontrivial( written >= 5 && read > 0);
            tpfree( buffer);
            require( casual_octet_explore_buffer( buffer, nullptr, nullptr) == CASUAL_OCTET_INVALID_HANDLE, "the buffer is there after free");
         }
      } // octet

      // -------------------------------------------------------------- string

      namespace string
      {
         void property( Source& source)
         {
            auto size = source.integer( 0, 200);
            char* buffer = tpalloc( CASUAL_STRING, nullptr, size);
            require( buffer, "tpalloc gave null");
            source.log( "allocate ", size);

            // the memory of the buffer
            std::string model( std::max( size, decltype( size)( 1)), '\0');
            long written = 0, read = 0;

            auto terminated = [ &]{ return model.find( '\0') != std::string::npos;};

            auto compare = [ &]( const char* buffer, const std::string& model, auto what)
            {
               const auto end = model.find( '\0');
               long size = -1, used = -1;
               require( casual_string_explore_buffer( buffer, &size, nullptr) == CASUAL_STRING_SUCCESS, what, ": explore");
               require( size == long( model.size()), what, ": size is ", size, ", expected ", model.size());
               const char* value{};
               if( end != std::string::npos)
               {
                  require( casual_string_explore_buffer( buffer, nullptr, &used) == CASUAL_STRING_SUCCESS, what, ": explore");
                  require( used == long( end) + 1, what, ": used is ", used, ", expected ", end + 1);
                  auto code = casual_string_get( buffer, &value);
                  require( code == CASUAL_STRING_SUCCESS, what, ": get gives ", casual_string_description( code));
                  require( value == model.substr( 0, end), what, ": value is ", show( value), ", expected ", show( model.substr( 0, end)));
               }
               else
               {
                  // the user has written all over it
                  require( casual_string_explore_buffer( buffer, nullptr, &used) != CASUAL_STRING_SUCCESS, what, ": unterminated string explored");
                  require( casual_string_get( buffer, &value) == CASUAL_STRING_OUT_OF_BOUNDS, what, ": unterminated string given");
               }
            };

            source.repeat( 1, 40, 15, [ &]( auto)
            {
               switch( source.weighted( { 40, 15, 15, 10}))
               {
                  case 0:
                  {
                     auto value = source.chance( 10) ? source.blob( source.integer( 100, 10000)) : source.bytes( source.integer( 0, 60));
                     std::erase( value, '\0');
                     source.log( "set ", show( value));
                     auto code = casual_string_set( &buffer, value.c_str());
                     require( code == CASUAL_STRING_SUCCESS, "set gives ", casual_string_description( code));
                     model = value;
                     model.push_back( '\0');
                     ++written;
                     break;
                  }
                  case 1:
                  {
                     auto size = source.integer( 0, 500);
                     source.log( "reallocate ", size);
                     buffer = tprealloc( buffer, size);
                     require( buffer, "tprealloc gave null");
                     model.resize( std::max( size, decltype( size)( 1)));
                     model.back() = '\0';
                     break;
                  }
                  case 2:
                  {
                     const bool network = source.boolean();
                     const bool inbound = source.boolean();
                     source.log( "transport ", network, inbound);
                     if( ! terminated())
                     {
                        source.label( "unterminated");
                        bool refused = false;
                        try
                        {
                           auto payload = transported( buffer, 0, network);
                        }
                        catch( const pbt::Failure&) { throw;}
                        catch( ...) { refused = true;}
                        require( refused, "an unterminated string is transported");
                        break;
                     }
                     source.label( "transported");
                     auto payload = transported( buffer, source.integer( 0, 200), network);
                     const auto text = model.substr( 0, model.find( '\0') + 1);
                     require( memory( payload.data) == text, "transported ", show( memory( payload.data)), ", expected ", show( text));
                     auto copy = inbound ? holder().adopt( std::move( payload)).raw() : std::get< 0>( holder().insert( std::move( payload))).raw();
                     compare( copy, text, "transported");
                     ++read;
                     if( inbound)
                        holder().clear();
                     else
                     {
                        tpfree( buffer);
                        buffer = copy;
                        model = text;
                     }
                     break;
                  }
                  case 3:
                  {
                     auto position = source.draw( model.size());
                     auto value = source.chance( 70) ? 'x' : '\0';
                     source.log( "write ", int( value), " at ", position);
                     buffer[ position] = value;
                     model[ position] = value;
                     ++written;
                     break;
                  }
               }
               compare( buffer, model, "string");
               ++read;
            });
            source.nontrivial( written >= 5 && read > 0);
            tpfree( buffer);
            require( casual_string_explore_buffer( buffer, nullptr, nullptr) == CASUAL_STRING_INVALID_HANDLE, "the buffer is there after free");
         }
      } // string

      void property( Source& source)
      {
         switch( source.draw( 3))
         {
            case 0: source.label( "order"); return order::property( source);
            case 1: source.label( "octet"); return octet::property( source);
            default: source.label( "string"); return string::property( source);
         }
      }
   } // kinds

   // ------------------------------------------------------------------- pool

   namespace pool
   {
      struct Type
      {
         const char* type;
         const char* subtype;
         enum Kind { Raw, Octet, String, Order, Field} kind;
      };

      const std::vector< Type> types{
         { X_OCTET, "", Type::Raw},
         { ".binary", "", Type::Raw},
         { ".json", "", Type::Raw},
         { ".yaml", "", Type::Raw},
         { ".xml", "", Type::Raw},
         { ".ini", "", Type::Raw},
         { CASUAL_OCTET, "", Type::Octet},
         { CASUAL_OCTET, "JSON", Type::Octet},
         { CASUAL_OCTET, "XML", Type::Octet},
         { CASUAL_OCTET, "YAML", Type::Octet},
         { CASUAL_STRING, "", Type::String},
         { CASUAL_ORDER, "", Type::Order},
         { CASUAL_FIELD, "", Type::Field},
      };

      struct Slot
      {
         const Type* type{};
         char* buffer{};
         std::string content;   // what must be there
         bool inbound = false;
      };

      void compare( const Slot& slot, std::string_view when)
      {
         char type[ 8], subtype[ 16];
         std::memset( type, '#', 8);
         std::memset( subtype, '#', 16);
         auto size = tptypes( slot.buffer, type, subtype);
         require( size >= 0 && tperrno == 0, when, ": tptypes gives ", size, " tperrno ", tperrno);
         require( std::string( type, ::strnlen( type, 8)) == slot.type->type, when, ": type is ", show( { type, 8}), ", expected ", slot.type->type);
         require( std::string( subtype, ::strnlen( subtype, 16)) == slot.type->subtype, when, ": subtype is ", show( { subtype, 16}), ", expected ", slot.type->subtype);

         switch( slot.type->kind)
         {
            case Type::Raw: case Type::Octet: case Type::String:
               require( size == long( slot.content.size()), when, ": size of ", slot.type->type, " is ", size, ", expected ", slot.content.size());
               break;
            default:
               require( size >= long( slot.content.size()), when, ": size of ", slot.type->type, " is ", size, ", with ", slot.content.size(), " bytes of content");
         }
         require( std::string_view( slot.buffer, slot.content.size()) == slot.content, when, ": ", slot.type->type, " content is ",
            show( { slot.buffer, slot.content.size()}), ", expected ", show( slot.content));
         require( holder().inbound( handle( slot.buffer)) == slot.inbound, when, ": inbound");
      }

      // order and field content
      std::string order_content( long value)
      {
         std::string result;
         for( int index = 7; index >= 0; --index)
            result.push_back( char( std::uint64_t( value) >> ( index * 8)));
         return result;
      }

      std::string field_content( long value)
      {
         return order_content( field::id( field::Long, 1)) + order_content( 8) + order_content( value);
      }

      void property( Source& source)
      {
         std::vector< Slot> slots;
         std::vector< const char*> stale;
         std::size_t most = 0;
         bool changed = false;
         long pattern = 0;

         //! writes something into it
         auto write = [ &]( Slot& slot)
         {
            ++pattern;
            switch( slot.type->kind)
            {
               case Type::Raw: case Type::Octet:
                  for( std::size_t index = 0; index < slot.content.size(); ++index)
                     slot.buffer[ index] = slot.content[ index] = char( pbt::mix( pattern * 1000 + index));
                  break;
               case Type::String:
                  for( std::size_t index = 0; index < slot.content.size(); ++index)
                     slot.buffer[ index] = slot.content[ index] = index + 1 == slot.content.size() ? '\0' : char( 'a' + pbt::mix( pattern * 1000 + index) % 26);
                  break;
               case Type::Order:
                  require( casual_order_add_long( &slot.buffer, pattern) == CASUAL_ORDER_SUCCESS, "order add");
                  slot.content += order_content( pattern);
                  break;
               case Type::Field:
                  require( casual_field_add_long( &slot.buffer, field::id( field::Long, 1), pattern) == CASUAL_FIELD_SUCCESS, "field add");
                  slot.content += field_content( pattern);
                  break;
            }
         };

         auto known = [ &]( const char* buffer)
         {
            return std::any_of( slots.begin(), slots.end(), [ &]( auto& slot){ return slot.buffer == buffer;});
         };

         source.repeat( 1, 80, 35, [ &]( auto step)
         {
            std::string what;
            const auto position = slots.empty() ? 0 : source.draw( slots.size());

            switch( slots.empty() ? 0 : source.weighted( { 25, 12, 12, 15, 10, 4, 12, 6, 3}))
            {
               case 0: // allocate
               {
                  if( slots.size() >= 12)
                     break;
                  Slot slot;
                  slot.type = &source.pick( types);
                  const long size = source.chance( 5) ? -5 : source.integer( 0, 3000);
                  what = pbt::cat( "allocate ", slot.type->type, '/', slot.type->subtype, " ", size);
                  source.log( what);
                  slot.buffer = tpalloc( slot.type->type, slot.type->subtype[ 0] == '\0' && source.boolean() ? nullptr : slot.type->subtype, size);
                  require( slot.buffer && tperrno == 0, what, " gives null ", tperrno);
                  require( ! known( slot.buffer), what, " gives the address of another buffer");
                  if( slot.type->kind <= Type::String)
                     slot.content.resize( std::max( size, slot.type->kind == Type::String ? 1l : 0l));
                  slots.push_back( slot);
                  write( slots.back());
                  break;
               }
               case 1: // reallocate
               {
                  auto& slot = slots[ position];
                  const long size = source.integer( 0, 3000);
                  what = pbt::cat( "reallocate ", position, " ", slot.type->type, " ", size);
                  source.log( what);
                  auto before = slot.buffer;
                  slot.buffer = tprealloc( before, size);
                  require( slot.buffer && tperrno == 0, what, " gives null ", tperrno);
                  if( before != slot.buffer)
                     stale.push_back( before);
                  switch( slot.type->kind)
                  {
                     case Type::Raw: case Type::Octet:
                     {
                        // new memory has no particular content
                        auto kept = std::min< std::size_t>( slot.content.size(), size);
                        slot.content.resize( kept);
                        slot.content.append( slot.buffer + kept, size - kept);
                        break;
                     }
                     case Type::String:
                     {
                        auto kept = std::min< std::size_t>( slot.content.size(), std::max( 1l, size));
                        slot.content.resize( kept);
                        slot.content.append( slot.buffer + kept, std::max( 1l, size) - kept);
                        slot.content.back() = '\0';
                        break;
                     }
                     default:
                        // these never lose content
                        require( tptypes( slot.buffer, nullptr, nullptr) >= size || size == 0, what, " gives less room than asked for");
                        break;
                  }
                  changed = true;
                  break;
               }
               case 2: // free
               {
                  auto& slot = slots[ position];
                  what = pbt::cat( "free ", position, " ", slot.type->type, slot.inbound ? " inbound" : "");
                  source.log( what);
                  tpfree( slot.buffer);
                  changed = true;
                  // freeing the inbound buffer has no effect, it belongs to the service
                  if( slot.inbound)
                     break;
                  stale.push_back( slot.buffer);
                  slots.erase( slots.begin() + position);
                  break;
               }
               case 3: // write
               {
                  what = pbt::cat( "write ", position);
                  source.log( what);
                  write( slots[ position]);
                  break;
               }
               case 4: // the argument of a service call, or a reply
               {
                  if( slots.size() >= 12)
                     break;
                  auto& slot = slots[ position];
                  const bool inbound = source.boolean();
                  const bool network = source.boolean();
                  const bool raw = slot.type->kind == Type::Raw;
                  const long size = source.integer( 0, raw ? slot.content.size() : 3000);
                  what = pbt::cat( "transport ", position, " ", slot.type->type, " ", size, inbound ? " inbound" : "", network ? " network" : "");
                  source.log( what);
                  source.label( "transported");
                  auto payload = transported( slot.buffer, size, network);
                  Slot copy;
                  copy.type = slot.type;
                  copy.content = slot.content;
                  copy.inbound = inbound;
                  if( raw)
                     copy.content.resize( size);
                  if( slot.type->kind == Type::String)
                     copy.content.resize( slot.content.find( '\0') + 1);
                  if( inbound)
                     copy.buffer = holder().adopt( std::move( payload)).raw();
                  else
                  {
                     auto [ handle, length] = holder().insert( std::move( payload));
                     require( length == long( copy.content.size()), what, ": length is ", length, ", expected ", copy.content.size());
                     copy.buffer = handle.raw();
                  }
                  require( copy.buffer && ! known( copy.buffer), what, ": no buffer of its own");
                  slots.push_back( copy);
                  break;
               }
               case 5: // the service is done
               {
                  what = "clear";
                  source.log( what);
                  holder().clear();
                  for( auto& slot : slots)
                     if( slot.inbound)
                        stale.push_back( slot.buffer);
                  std::erase_if( slots, []( auto& slot){ return slot.inbound;});
                  break;
               }
               case 6: // unknown, stale and null handles; unknown types; sizes out of range
               {
                  auto& slot = slots[ position];
                  const char* address = source.boolean() || stale.empty() ? slot.buffer + 1 : source.pick( stale);
                  if( slot.content.empty() && address == slot.buffer + 1)
                     break;
                  if( known( address))
                     break;
                  switch( source.draw( 6))
                  {
                     case 0:
                        what = "tprealloc of unknown";
                        require( tprealloc( address, 100) == nullptr && tperrno == int( common::code::xatmi::argument), what, ": tperrno ", tperrno);
                        break;
                     case 1:
                        what = "tptypes of unknown";
                        require( tptypes( address, nullptr, nullptr) == -1 && tperrno == int( common::code::xatmi::argument), what, ": tperrno ", tperrno);
                        break;
                     case 2:
                        what = "tpfree of unknown";
                        tpfree( address);
                        break;
                     case 3:
                        what = "tpalloc of unknown type";
                        require( tpalloc( "UNKNOWN", source.boolean() ? nullptr : "sub", 10) == nullptr && tperrno != 0, what, ": tperrno ", tperrno);
                        break;
                     case 4:
                        what = "tpalloc of unknown subtype";
                        require( tpalloc( slot.type->type, "unknown", 10) == nullptr && tperrno != 0, what, ": tperrno ", tperrno);
                        break;
                     case 5:
                     {
                        if( slot.type->kind != Type::Raw)
                           break;
                        what = "transport of more than there is";
                        bool refused = false;
                        try
                        {
                           transported( slot.buffer, slot.content.size() + source.integer( 1, 10000), false);
                        }
                        catch( const pbt::Failure&) { throw;}
                        catch( ...) { refused = true;}
                        require( refused, what);
                     }
                  }
                  source.log( what);
                  break;
               }
               case 7: // tpreturn and the like, the buffer leaves the pool
               {
                  auto& slot = slots[ position];
                  const bool raw = slot.type->kind == Type::Raw;
                  const bool sized = source.boolean();
                  const long size = source.integer( 0, raw ? slot.content.size() : 3000);
                  what = pbt::cat( "release ", position, " ", slot.type->type, " ", size);
                  source.log( what);
                  auto payload = sized ? holder().release( handle( slot.buffer), size) : holder().release( handle( slot.buffer));
                  auto expected = slot.content;
                  if( sized && raw)
                     expected.resize( size);
                  if( sized && slot.type->kind == Type::String)
                     expected.resize( expected.find( '\0') + 1);
                  require( memory( payload.data) == expected, what, ": gives ", show( memory( payload.data)), ", expected ", show( expected));
                  require( payload.type == pbt::cat( slot.type->type, '/', slot.type->subtype), what, ": type ", payload.type);
                  const auto address = slot.buffer;
                  slots.erase( slots.begin() + position);
                  require( tptypes( address, nullptr, nullptr) == -1 && tperrno == int( common::code::xatmi::argument), what, ": the buffer is still there");
                  changed = true;
                  break;
               }
               case 8: // null is fine
               {
                  what = "null";
                  source.log( what);
                  tpfree( nullptr);
                  require( tprealloc( nullptr, 10) == nullptr && tperrno == int( common::code::xatmi::argument), "tprealloc of null: tperrno ", tperrno);
                  auto null = transported( nullptr, 0, source.boolean());
                  require( null.null() && null.data.empty(), "null is transported as ", null.type);
                  auto [ handle, size] = holder().insert( std::move( null));
                  require( ! handle && size == 0, "null is received as something");
                  break;
               }
            }

            most = std::max( most, slots.size());
            for( std::size_t index = 0; index < slots.size(); ++index)
               compare( slots[ index], pbt::cat( step, ": ", what, " - buffer ", index));
         });

         source.nontrivial( most >= 4 && changed);

         holder().clear();
         for( auto& slot : slots)
            if( ! slot.inbound)
               tpfree( slot.buffer);
      }
   } // pool
} // namespace
