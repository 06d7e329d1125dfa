// B01 fielded buffers against an ordered multimap, B02 order, octet and string buffers
// against their models, B03 the buffer pool behind tpalloc/tprealloc/tpfree/tptypes and
// the transport of buffers between processes.
#include "pbt.h"

#include "casual/buffer/field.h"
#include "casual/buffer/internal/field.h"
#include "casual/buffer/internal/field/string.h"
#include "casual/buffer/octet.h"
#include "casual/buffer/order.h"
#include "casual/buffer/string.h"
#include "casual/xatmi.h"
#include "casual/xatmi/extended.h"

#include "common/buffer/pool.h"
#include "common/buffer/type.h"
#include "common/code/xatmi.h"
#include "common/serialize/native/binary.h"
#include "common/serialize/native/network.h"
#include "common/serialize/native/complete.h"

#include <bit>
#include <limits>

namespace
{
   using namespace casual;
   using pbt::require;
   using pbt::Source;
   using pbt::show;

   auto& holder() { return common::buffer::pool::holder();}

   common::buffer::handle::type handle( const char* raw) { return common::buffer::handle::type{ raw};}

   std::string memory( const platform::binary::type& data)
   {
      return { reinterpret_cast< const char*>( data.data()), data.size()};
   }

   platform::binary::type binary( const std::string& value)
   {
      auto data = reinterpret_cast< const std::byte*>( value.data());
      return { data, data + value.size()};
   }

   //! what a buffer goes through on its way to another process
   common::buffer::Payload transported( char* raw, long size, bool network)
   {
      auto send = holder().get( handle( raw), size);

      auto transport = [ &]( auto writer, auto read)
      {
         writer << send;
         auto data = writer.consume();
         auto reader = read( data);
         common::buffer::Payload payload;
         reader >> payload;
         return payload;
      };

      namespace native = common::serialize::native::binary;

      if( network)
         return transport( native::network::Writer{}, []( auto& data){ return native::network::Reader{ data};});
      return transport( native::Writer{}, []( auto& data){ return native::Reader{ data};});
   }

   template< typename T>
   std::string raw( T value) { return { reinterpret_cast< const char*>( &value), sizeof( T)};}

   template< typename T>
   T cook( const std::string& value)
   {
      T result;
      std::memcpy( &result, value.data(), sizeof( T));
      return result;
   }

   template< typename T>
   T number( Source& source)
   {
      using limits = std::numeric_limits< T>;
      if constexpr( std::is_floating_point_v< T>)
      {
         switch( source.draw( 8))
         {
            case 0: return T( source.integer( -1000, 1000));
            case 1: return T( source.integer( -1000000, 1000000)) / T( 1024);
            case 2: return source.pick( { T( 0), T( -0.0), T( 1), T( -1), T( 0.5)});
            case 3: return source.pick( { limits::max(), limits::lowest(), limits::min(), limits::denorm_min(), limits::epsilon()});
            case 4: return source.pick( { limits::infinity(), -limits::infinity(), T( 3.14159265358979), T( 1e-30), T( 1e30)});
            default:
            {
               // any bit pattern, but nan (those are not ordered, and signaling ones may turn to quiet ones)
               using bits = std::conditional_t< sizeof( T) == 4, std::uint32_t, std::uint64_t>;
               auto value = std::bit_cast< T>( bits( source.draw( 0)));
               return value == value ? value : T( 0);
            }
         }
      }
      else
         return T( source.integer( limits::min(), limits::max()) + ( source.boolean() ? 0 : 0));
   }

   // ---------------------------------------------------------------- fielded

   namespace field
   {
      enum Type { Short = 1, Long, Char, Float, Double, String, Binary};

      constexpr const char* names[] = { "", "SHORT_", "LONG_", "CHAR_", "FLOAT_", "DOUBLE_", "STRING_", "BINARY_"};

      long id( int type, int number) { return type * long( CASUAL_FIELD_TYPE_BASE) + 1000 + number;}
      int type( long id) { const auto result = id / CASUAL_FIELD_TYPE_BASE; return result < 0 || result > 100 ? 100 : int( result);}

      std::string name( long id) { return pbt::cat( names[ type( id)], id % CASUAL_FIELD_TYPE_BASE - 1000);}

      // values are host representations. strings without the terminator
      using Model = std::map< long, std::vector< std::string>>;

      std::string empty( int type)
      {
         switch( type)
         {
            case Short: return raw( short{});
            case Long: return raw( long{});
            case Char: return raw( char{});
            case Float: return raw( float{});
            case Double: return raw( double{});
            default: return {};
         }
      }

      std::string value( Source& source, int type, bool textual)
      {
         switch( type)
         {
            case Short: return raw( number< short>( source));
            case Long: return raw( number< long>( source));
            case Char: return textual ? std::string( 1, source.pick( { 'a', 'Z', '0', '-', '/', '~'})) : raw( char( source.draw( 256)));
            case Float: return raw( textual ? float( source.uniform( -4000, 4000)) / 4 : number< float>( source));
            case Double: return raw( textual ? double( source.uniform( -4000, 4000)) / 8 : number< double>( source));
            case String:
            {
               if( textual)
                  return source.text( "abcXYZ019 .,:;-_/{}[]()<>&'\"#\\!?", 0, 40);
               if( source.chance( 7))
                  for( auto result = source.blob( source.integer( 100, 20000)); ; std::erase( result, '\0'))
                     if( result.find( '\0') == std::string::npos)
                        return result;
               auto result = source.bytes( source.integer( 0, 40));
               std::erase( result, '\0');
               return result;
            }
            default:
               if( source.chance( 7))
                  return source.blob( source.integer( 100, 20000));
               return source.bytes( source.integer( 0, 40));
         }
      }

      //! bytes a value takes on the inside (also over there, hence part of the contract)
      long stored( int type, const std::string& value)
      {
         return type == String ? value.size() + 1 : value.size();
      }

      std::string shown( long id, const std::string& value)
      {
         switch( type( id))
         {
            case Short: return pbt::cat( cook< short>( value));
            case Long: return pbt::cat( cook< long>( value));
            case Float: return pbt::cat( cook< float>( value));
            case Double: return pbt::cat( cook< double>( value));
            default: return show( value, 30);
         }
      }

      struct Slot
      {
         char* buffer = nullptr;
         Model model;
      };

      std::string get( const char* buffer, long id, long index, int& code)
      {
         switch( type( id))
         {
            case Short: { short v{}; code = casual_field_get_short( buffer, id, index, &v); return raw( v);}
            case Long: { long v{}; code = casual_field_get_long( buffer, id, index, &v); return raw( v);}
            case Char: { char v{}; code = casual_field_get_char( buffer, id, index, &v); return raw( v);}
            case Float: { float v{}; code = casual_field_get_float( buffer, id, index, &v); return raw( v);}
            case Double: { double v{}; code = casual_field_get_double( buffer, id, index, &v); return raw( v);}
            case String:
            {
               const char* v{};
               code = casual_field_get_string( buffer, id, index, &v);
               return code ? std::string{} : std::string{ v};
            }
            case Binary:
            {
               const char* v{};
               long count{};
               code = casual_field_get_binary( buffer, id, index, &v, &count);
               return code ? std::string{} : std::string( v, count);
            }
         }
         code = -1;
         return {};
      }

      void compare( const Slot& slot, std::string_view when)
      {
         const auto buffer = slot.buffer;
         require( buffer, when, ": no buffer");

         long total = 0;
         long used = 0;

         // traversal gives every occurrence, in the order of ids and indexes
         long id = CASUAL_FIELD_NO_ID;
         long index = 0;
         for( auto& [ expected, values] : slot.model)
            for( std::size_t occurrence = 0; occurrence < values.size(); ++occurrence)
            {
               auto code = casual_field_next( buffer, &id, &index);
               require( code == CASUAL_FIELD_SUCCESS, when, ": next gives ", casual_field_description( code), ", expected ", name( expected), "[", occurrence, "]");
               require( id == expected && index == long( occurrence), when, ": next gives ", id, "[", index, "], expected ", expected, "[", occurrence, "]");

               auto value = get( buffer, id, index, code);
               require( code == CASUAL_FIELD_SUCCESS, when, ": get ", name( id), "[", index, "] gives ", casual_field_description( code));
               require( value == values[ occurrence], when, ": ", name( id), "[", index, "] is ", shown( id, value), ", expected ", shown( id, values[ occurrence]));

               long count = -1;
               code = casual_field_explore_value( buffer, id, index, &count);
               require( code == CASUAL_FIELD_SUCCESS && count == stored( type( id), value), when, ": size of ", name( id), "[", index, "] is ", count, ", expected ", stored( type( id), value));

               ++total;
               used += 16 + stored( type( id), value);
            }

         auto code = casual_field_next( buffer, &id, &index);
         require( code == CASUAL_FIELD_OUT_OF_BOUNDS, when, ": next after the last gives ", casual_field_description( code));

         long occurrences = -1;
         code = casual_field_occurrences_in_buffer( buffer, &occurrences);
         require( code == CASUAL_FIELD_SUCCESS && occurrences == total, when, ": ", occurrences, " occurrences in buffer, expected ", total);

         long size = -1, utilized = -1;
         code = casual_field_explore_buffer( buffer, &size, &utilized);
         require( code == CASUAL_FIELD_SUCCESS, when, ": explore gives ", casual_field_description( code));
         require( utilized == used && size >= used, when, ": used ", utilized, " of ", size, ", expected ", used);
      }

      int add( char** buffer, long id, const std::string& value, bool generic)
      {
         // the value lives in memory of its exact size
         auto copy = std::make_unique< char[]>( value.size() + 1);
         std::memcpy( copy.get(), value.c_str(), value.size() + 1);

         if( generic)
            return casual_field_add_value( buffer, id, copy.get(), value.size());

         switch( type( id))
         {
            case Short: return casual_field_add_short( buffer, id, cook< short>( value));
            case Long: return casual_field_add_long( buffer, id, cook< long>( value));
            case Char: return casual_field_add_char( buffer, id, cook< char>( value));
            case Float: return casual_field_add_float( buffer, id, cook< float>( value));
            case Double: return casual_field_add_double( buffer, id, cook< double>( value));
            case String: return casual_field_add_string( buffer, id, copy.get());
            case Binary: return casual_field_add_binary( buffer, id, copy.get(), value.size());
         }
         return -1;
      }

      int set( char** buffer, long id, long index, const std::string& value, bool generic)
      {
         auto copy = std::make_unique< char[]>( value.size() + 1);
         std::memcpy( copy.get(), value.c_str(), value.size() + 1);

         if( generic)
            return casual_field_set_value( buffer, id, index, copy.get(), value.size());

         switch( type( id))
         {
            case Short: return casual_field_set_short( buffer, id, index, cook< short>( value));
            case Long: return casual_field_set_long( buffer, id, index, cook< long>( value));
            case Char: return casual_field_set_char( buffer, id, index, cook< char>( value));
            case Float: return casual_field_set_float( buffer, id, index, cook< float>( value));
            case Double: return casual_field_set_double( buffer, id, index, cook< double>( value));
            case String: return casual_field_set_string( buffer, id, index, copy.get());
            case Binary: return casual_field_set_binary( buffer, id, index, copy.get(), value.size());
         }
         return -1;
      }

      //! the typed functions of another type than the one of the id
      int mismatch( Source& source, char** buffer, long id, bool reading)
      {
         auto other = type( id);
         while( other == type( id))
            other = other == Binary ? int( Short) : other + 1;

         const auto index = source.uniform( 0, 2);
         const auto operation = reading ? 2 : source.draw( 2);

         short s{}; long l{}; char c{}; float f{}; double d{}; const char* p{}; long count{};
         switch( other)
         {
            case Short: return operation == 0 ? casual_field_add_short( buffer, id, 1) : operation == 1 ? casual_field_set_short( buffer, id, index, 1) : casual_field_get_short( *buffer, id, index, &s);
            case Long: return operation == 0 ? casual_field_add_long( buffer, id, 1) : operation == 1 ? casual_field_set_long( buffer, id, index, 1) : casual_field_get_long( *buffer, id, index, &l);
            case Char: return operation == 0 ? casual_field_add_char( buffer, id, 1) : operation == 1 ? casual_field_set_char( buffer, id, index, 1) : casual_field_get_char( *buffer, id, index, &c);
            case Float: return operation == 0 ? casual_field_add_float( buffer, id, 1) : operation == 1 ? casual_field_set_float( buffer, id, index, 1) : casual_field_get_float( *buffer, id, index, &f);
            case Double: return operation == 0 ? casual_field_add_double( buffer, id, 1) : operation == 1 ? casual_field_set_double( buffer, id, index, 1) : casual_field_get_double( *buffer, id, index, &d);
            case String: return operation == 0 ? casual_field_add_string( buffer, id, "x") : operation == 1 ? casual_field_set_string( buffer, id, index, "x") : casual_field_get_string( *buffer, id, index, &p);
            default: return operation == 0 ? casual_field_add_binary( buffer, id, "x", 1) : operation == 1 ? casual_field_set_binary( buffer, id, index, "x", 1) : casual_field_get_binary( *buffer, id, index, &p, &count);
         }
      }

      // a string conversion that the (fictive) user has registered
      namespace convert
      {
         namespace field = casual::buffer::internal::field;
         constexpr long s1 = CASUAL_FIELD_STRING * long( CASUAL_FIELD_TYPE_BASE) + 1001;
         constexpr long s2 = CASUAL_FIELD_STRING * long( CASUAL_FIELD_TYPE_BASE) + 1002;
         constexpr long l1 = CASUAL_FIELD_LONG * long( CASUAL_FIELD_TYPE_BASE) + 1001;
         constexpr long sh1 = CASUAL_FIELD_SHORT * long( CASUAL_FIELD_TYPE_BASE) + 1001;

         using Alignment = field::string::Alignment;

         bool registered = field::string::convert::registration( "verif", field::string::Convert{ []( auto& input, auto& output)
         {
            field::string::format< s1, Alignment::left>::string( input, output, 8, ' ');
            field::string::format< l1, Alignment::right>::string( input, output, 20, '0');
            field::string::format< s2, Alignment::right>::string( input, output, 6, '.');
            field::string::format< sh1, Alignment::left>::string( input, output, 6, ' ');
            field::string::format< s1, Alignment::left>::string( input, output, 3, '_');
         }});
      } // convert

      void property( Source& source)
      {
         constexpr std::size_t max_slots = 3;
         std::vector< Slot> slots;

         // only what the formats can represent
         const bool textual = source.chance( 35);

         auto allocate = [ &]()
         {
            Slot slot;
            slot.buffer = tpalloc( CASUAL_FIELD, nullptr, source.integer( 0, 300));
            require( slot.buffer, "tpalloc gave null");
            return slot;
         };

         auto choose_id = [ &]{ return id( source.uniform( 1, 7), source.uniform( 1, 3));};

         //! prefers ids and occurrences that exist
         auto choose_existing = [ &]( const Model& model, long& id, long& index)
         {
            if( model.empty() || source.chance( 20))
            {
               id = choose_id();
               index = source.uniform( -1, 3);
               return;
            }
            auto found = std::next( model.begin(), source.draw( model.size()));
            id = found->first;
            index = source.chance( 10) ? long( found->second.size()) : long( source.draw( found->second.size()));
         };

         auto exists = []( const Model& model, long id, long index)
         {
            auto found = model.find( id);
            return found != model.end() && index >= 0 && index < long( found->second.size());
         };

         slots.push_back( allocate());
         long mutations = 0, removed = 0;

         source.repeat( 1, 60, 25, [ &]( auto step)
         {
            const auto position = source.draw( slots.size());
            auto& slot = slots[ position];
            const auto before = slot.buffer;
            std::string what;

            auto same_address = [ &]{ require( slot.buffer == before, what, ": the handle has changed");};

            switch( source.weighted( { 30, 14, 8, 10, 5, 2, 6, 4, 4, 5, 5, 4, 4, 3, 6, 3, 3, 2, 5}))
            {
               case 0: // add
               {
                  auto id = choose_id();
                  auto value = field::value( source, type( id), textual);
                  what = pbt::cat( "add ", position, " ", name( id), " ", shown( id, value));
                  source.log( what);
                  auto code = add( &slot.buffer, id, value, source.boolean());
                  require( code == CASUAL_FIELD_SUCCESS, what, " gives ", casual_field_description( code));
                  slot.model[ id].push_back( value);
                  ++mutations;
                  break;
               }
               case 1: // set
               {
                  long id, index;
                  choose_existing( slot.model, id, index);
                  auto value = field::value( source, type( id), textual);
                  what = pbt::cat( "set ", position, " ", name( id), "[", index, "] ", shown( id, value));
                  source.log( what);
                  auto code = set( &slot.buffer, id, index, value, source.boolean());
                  if( exists( slot.model, id, index))
                  {
                     require( code == CASUAL_FIELD_SUCCESS, what, " gives ", casual_field_description( code));
                     if( slot.model[ id][ index].size() != value.size())
                        source.label( "resized");
                     slot.model[ id][ index] = value;
                     ++mutations;
                  }
                  else
                  {
                     source.label( "out-of-bounds");
                     require( code == CASUAL_FIELD_OUT_OF_BOUNDS, what, " gives ", casual_field_description( code), ", expected out of bounds");
                  }
                  break;
               }
               case 2: // put
               {
                  auto id = choose_id();
                  auto index = source.uniform( -1, 5);
                  auto value = field::value( source, type( id), textual);
                  what = pbt::cat( "put ", position, " ", name( id), "[", index, "] ", shown( id, value));
                  source.log( what);
                  auto copy = value;
                  auto code = casual_field_put_value( &slot.buffer, id, index, copy.data(), copy.size());
                  require( code == CASUAL_FIELD_SUCCESS, what, " gives ", casual_field_description( code));
                  auto& values = slot.model[ id];
                  if( index < 0)
                     values.push_back( value);
                  else
                  {
                     while( long( values.size()) <= index)
                        values.push_back( empty( type( id)));
                     values[ index] = value;
                  }
                  ++mutations;
                  break;
               }
               case 3: // remove occurrence
               {
                  long id, index;
                  choose_existing( slot.model, id, index);
                  what = pbt::cat( "remove ", position, " ", name( id), "[", index, "]");
                  source.log( what);
                  auto code = casual_field_remove_occurrence( slot.buffer, id, index);
                  same_address();
                  if( exists( slot.model, id, index))
                  {
                     require( code == CASUAL_FIELD_SUCCESS, what, " gives ", casual_field_description( code));
                     auto& values = slot.model[ id];
                     values.erase( values.begin() + index);
                     if( values.empty())
                        slot.model.erase( id);
                     ++removed;
                  }
                  else
                  {
                     source.label( "out-of-bounds");
                     require( code == CASUAL_FIELD_OUT_OF_BOUNDS, what, " gives ", casual_field_description( code), ", expected out of bounds");
                  }
                  break;
               }
               case 4: // remove id
               {
                  long id, index;
                  choose_existing( slot.model, id, index);
                  what = pbt::cat( "remove ", position, " ", name( id));
                  source.log( what);
                  auto code = casual_field_remove_id( slot.buffer, id);
                  same_address();
                  require( code == CASUAL_FIELD_SUCCESS, what, " gives ", casual_field_description( code));
                  removed += slot.model.erase( id);
                  break;
               }
               case 5: // remove all
               {
                  what = pbt::cat( "remove all ", position);
                  source.log( what);
                  auto code = casual_field_remove_all( slot.buffer);
                  same_address();
                  require( code == CASUAL_FIELD_SUCCESS, what, " gives ", casual_field_description( code));
                  slot.model.clear();
                  break;
               }
               case 6: // get value
               {
                  long id, index;
                  choose_existing( slot.model, id, index);
                  const bool exist = exists( slot.model, id, index);
                  const long stored = exist ? field::stored( type( id), slot.model[ id][ index]) : type( id) >= String ? 0 : long( empty( type( id)).size());
                  long count = stored + source.uniform( -2, 2);
                  const bool counted = source.chance( 80);
                  what = pbt::cat( "get value ", position, " ", name( id), "[", index, "] count ", counted ? pbt::cat( count) : "null");
                  source.log( what);
                  std::string memory( std::max( stored, count) + 1, '#');
                  const auto given = count;
                  auto code = casual_field_get_value( slot.buffer, id, index, memory.data(), counted ? &count : nullptr);
                  if( counted && given < stored)
                     require( code == ( exist || type( id) < String ? CASUAL_FIELD_INVALID_ARGUMENT : CASUAL_FIELD_OUT_OF_BOUNDS), what, " gives ", casual_field_description( code), ", ", stored, " needed");
                  else if( ! exist)
                     require( code == CASUAL_FIELD_OUT_OF_BOUNDS, what, " gives ", casual_field_description( code), ", expected out of bounds");
                  else
                  {
                     require( code == CASUAL_FIELD_SUCCESS, what, " gives ", casual_field_description( code));
                     if( counted)
                        require( count == stored, what, " changes count to ", count, ", expected ", stored);
                     auto expected = slot.model[ id][ index];
                     require( memory.compare( 0, expected.size(), expected) == 0, what, " gives ", show( memory), ", expected ", show( expected));
                     for( auto at = stored; at < long( memory.size()); ++at)
                        require( memory[ at] == '#', what, " writes beyond the value");
                  }
                  if( code)
                     for( auto c : memory)
                        require( c == '#', what, " fails and writes");
                  break;
               }
               case 7: // wrong type, or no type at all
               {
                  auto id = choose_id();
                  const bool reading = source.boolean();
                  what = pbt::cat( reading ? "get" : "change", " with wrong type ", position, " ", name( id));
                  source.log( what);
                  int code;
                  if( source.boolean())
                     code = mismatch( source, &slot.buffer, id, reading);
                  else
                  {
                     auto invalid = source.pick( { 0l, -1l, long( CASUAL_FIELD_TYPE_BASE) - 1, 8 * long( CASUAL_FIELD_TYPE_BASE) + 1, 1000 * long( CASUAL_FIELD_TYPE_BASE)});
                     char memory[ 32]{};
                     long count = sizeof( memory);
                     code = reading ? casual_field_get_value( slot.buffer, invalid, 0, memory, &count) :
                        source.boolean() ? casual_field_add_value( &slot.buffer, invalid, memory, count) :
                        source.boolean() ? casual_field_add_empty( &slot.buffer, invalid) : casual_field_put_value( &slot.buffer, invalid, 0, memory, count);
                  }
                  require( code == CASUAL_FIELD_INVALID_ARGUMENT, what, " gives ", casual_field_description( code), ", expected invalid argument");
                  break;
               }
               case 8: // occurrences
               {
                  auto id = choose_id();
                  long occurrences = -1;
                  auto code = casual_field_occurrences_of_id( slot.buffer, id, &occurrences);
                  auto found = slot.model.find( id);
                  const auto expected = found == slot.model.end() ? 0l : long( found->second.size());
                  require( code == CASUAL_FIELD_SUCCESS && occurrences == expected, "occurrences ", position, " ", name( id), " gives ", casual_field_description( code), " ", occurrences, ", expected ", expected);
                  break;
               }
               case 9: // copy buffer
               {
                  const auto other = source.draw( slots.size());
                  what = pbt::cat( "copy ", other, " to ", position);
                  source.log( what);
                  if( other != position)
                     source.label( "copied");
                  auto code = casual_field_copy_buffer( &slot.buffer, slots[ other].buffer);
                  require( code == CASUAL_FIELD_SUCCESS, what, " gives ", casual_field_description( code));
                  slot.model = Model{ slots[ other].model};
                  break;
               }
               case 10: // copy memory
               {
                  const auto other = source.draw( slots.size());
                  what = pbt::cat( "copy memory of ", other, " to ", position);
                  source.log( what);
                  long used = 0;
                  require( casual_field_explore_buffer( slots[ other].buffer, nullptr, &used) == CASUAL_FIELD_SUCCESS, what);
                  auto memory = std::make_unique< char[]>( used + 1);
                  std::memcpy( memory.get(), slots[ other].buffer, used);
                  auto code = casual_field_copy_memory( &slot.buffer, memory.get(), used);
                  require( code == CASUAL_FIELD_SUCCESS, what, " gives ", casual_field_description( code));
                  slot.model = Model{ slots[ other].model};
                  source.label( "copied");
                  break;
               }
               case 11: // reallocate
               {
                  auto size = source.integer( 0, 3000);
                  what = pbt::cat( "reallocate ", position, " ", size);
                  source.log( what);
                  auto buffer = tprealloc( slot.buffer, size);
                  require( buffer, what, " gives null");
                  slot.buffer = buffer;
                  long reserved = 0;
                  require( casual_field_explore_buffer( slot.buffer, &reserved, nullptr) == CASUAL_FIELD_SUCCESS, what);
                  require( reserved >= size || size == 0, what, " gives room for ", reserved);
                  break;
               }
               case 12: // a new one
               {
                  if( slots.size() == max_slots)
                     break;
                  what = pbt::cat( "allocate ", slots.size());
                  source.log( what);
                  slots.push_back( allocate());
                  break;
               }
               case 13: // one less
               {
                  if( slots.size() == 1)
                     break;
                  what = pbt::cat( "free ", position);
                  source.log( what);
                  auto buffer = slot.buffer;
                  tpfree( buffer);
                  slots.erase( slots.begin() + position);
                  long used = 0;
                  require( casual_field_explore_buffer( buffer, nullptr, &used) == CASUAL_FIELD_INVALID_HANDLE, what, ": the buffer is still there");
                  require( casual_field_add_short( &buffer, id( Short, 1), 1) == CASUAL_FIELD_INVALID_HANDLE, what, ": the buffer is still there");
                  break;
               }
               case 14: // to another process and back
               {
                  const bool network = source.boolean();
                  const bool inbound = source.boolean();
                  what = pbt::cat( "transport ", position, network ? " network" : " native", inbound ? " inbound" : "");
                  source.log( what);
                  source.label( "transported");
                  // the size a user supplies is of no importance
                  auto payload = transported( slot.buffer, source.boolean() ? 0 : source.integer( 0, 500), network);
                  require( payload.type == std::string( CASUAL_FIELD "/"), what, ": type is ", payload.type);
                  Slot copy;
                  copy.model = slot.model;
                  copy.buffer = inbound ? holder().adopt( std::move( payload)).raw() : std::get< 0>( holder().insert( std::move( payload))).raw();
                  compare( copy, what);
                  // and it's as good as any other
                  auto value = field::value( source, String, textual);
                  auto code = casual_field_add_string( &copy.buffer, id( String, 2), value.c_str());
                  require( code == CASUAL_FIELD_SUCCESS, what, " add gives ", casual_field_description( code));
                  copy.model[ id( String, 2)].push_back( value);
                  compare( copy, what + " changed");
                  if( inbound)
                     holder().clear();
                  else
                  {
                     std::swap( slot.buffer, copy.buffer);
                     std::swap( slot.model, copy.model);
                     compare( copy, what + " original");
                     tpfree( copy.buffer);
                  }
                  break;
               }
               case 15: // documents
               {
                  if( ! textual)
                     break;
                  const auto format = source.pick( { "json", "yaml", "xml"});
                  what = pbt::cat( "stream ", position, " ", format);
                  source.log( what);
                  source.label( "streamed");
                  std::stringstream stream;
                  casual::buffer::field::internal::stream( slot.buffer, stream, format);
                  Slot copy;
                  copy.buffer = casual::buffer::field::internal::stream( stream, format);
                  require( copy.buffer, what, ": can not be read back: ", show( stream.str(), 400));
                  copy.model = slot.model;
                  compare( copy, what);
                  tpfree( copy.buffer);
                  compare( slot, what);
                  break;
               }
               case 16: // text
               {
                  if( ! textual)
                     break;
                  what = pbt::cat( "match ", position);
                  source.log( what);
                  auto escape = []( const std::string& value)
                  {
                     std::string result;
                     for( auto c : value)
                     {
                        if( std::string_view{ "^$\\.*+?()[]{}|/-"}.find( c) != std::string_view::npos && c != '/' && c != '-')
                           result.push_back( '\\');
                        result.push_back( c);
                     }
                     return result;
                  };

                  long id, index;
                  choose_existing( slot.model, id, index);
                  std::string text;
                  if( exists( slot.model, id, index))
                     text = slot.model[ id][ index];
                  else
                     text = empty( type( id));

                  if( type( id) == Binary || type( id) == Float || type( id) == Double)
                     break;
                  if( type( id) < String && type( id) != Char)
                     text = shown( id, text);

                  auto expression = pbt::cat( name( id), "\\[", index, "\\] = ", escape( text), "\n");
                  int match = -1;
                  auto code = casual_field_match( slot.buffer, expression.c_str(), &match);
                  require( code == CASUAL_FIELD_SUCCESS, what, " gives ", casual_field_description( code));
                  require( match == ( exists( slot.model, id, index) ? 1 : 0), what, " ", show( expression), " gives ", match);

                  const void* regex{};
                  require( casual_field_make_expression( expression.c_str(), &regex) == CASUAL_FIELD_SUCCESS, what);
                  match = -1;
                  require( casual_field_match_expression( slot.buffer, regex, &match) == CASUAL_FIELD_SUCCESS, what);
                  require( match == ( exists( slot.model, id, index) ? 1 : 0), what, " ", show( expression), " compiled gives ", match);
                  casual_field_free_expression( regex);
                  source.label( "matched");
                  break;
               }
               case 17: // fixed width text
               {
                  auto field = [ &]( long id, long index, std::string& value)
                  {
                     if( ! exists( slot.model, id, index))
                        return false;
                     value = slot.model[ id][ index];
                     return true;
                  };
                  std::string value;
                  std::string expected;
                  auto left = [ &]( bool exist, std::string value, std::size_t size, char padding)
                  {
                     if( ! exist) value.clear();
                     value.resize( std::min( size, value.size()));
                     expected += value + std::string( size - value.size(), padding);
                  };
                  auto right = [ &]( bool exist, std::string value, std::size_t size, char padding)
                  {
                     if( ! exist) value.clear();
                     value.resize( std::min( size, value.size()));
                     expected += std::string( size - value.size(), padding) + value;
                  };
                  bool exist = field( convert::s1, 0, value);
                  left( exist, value, 8, ' ');
                  exist = field( convert::l1, 0, value);
                  right( exist, exist ? std::to_string( cook< long>( value)) : "", 20, '0');
                  exist = field( convert::s2, 0, value);
                  right( exist, value, 6, '.');
                  exist = field( convert::sh1, 0, value);
                  left( exist, exist ? std::to_string( cook< short>( value)) : "", 6, ' ');
                  exist = field( convert::s1, 1, value);
                  left( exist, value, 3, '_');

                  const long size = source.pick( { 43l, 43l, 43l, 50l, 30l, 0l});
                  what = pbt::cat( "to string ", position, " size ", size);
                  source.log( what);
                  std::string target( size + 4, '#');
                  auto code = casual_field_to_string( target.data(), size, "verif", slot.buffer);
                  require( code == CASUAL_FIELD_SUCCESS, what, " gives ", casual_field_description( code));
                  require( target.substr( std::min( 43l, size)) == std::string( target.size() - std::min( 43l, size), '#'), what, " writes beyond the target: ", show( target));
                  if( size >= 43)
                     require( target.substr( 0, 43) == expected, what, " gives ", show( target.substr( 0, 43)), ", expected ", show( expected));
                  break;
               }
               case 18: // damaged content
               {
                  long used = 0;
                  require( casual_field_explore_buffer( slot.buffer, nullptr, &used) == CASUAL_FIELD_SUCCESS, "explore");
                  std::string content( slot.buffer, used);
                  // where the size of every occurrence is
                  std::vector< long> sizes;
                  std::vector< long> kinds;
                  for( long at = 0; at < used;)
                  {
                     auto number = [ &]( long at){ long result = 0; for( int i = 0; i < 8; ++i) result = ( result << 8) | ( unsigned char)( content[ at + i]); return result;};
                     sizes.push_back( at + 8);
                     kinds.push_back( type( number( at)));
                     at += 16 + number( at + 8);
                  }
                  bool malformed = true;
                  if( sizes.empty())
                     content = source.bytes( source.uniform( 1, 15));
                  else
                  {
                     const auto chosen = source.draw( sizes.size());
                     switch( source.draw( 4))
                     {
                        case 0:
                        {
                           // cut in the header or the value of some occurrence
                           const auto next = chosen + 1 < sizes.size() ? sizes[ chosen + 1] - 8 : used;
                           content.resize( sizes[ chosen] - 8 + 1 + source.draw( next - ( sizes[ chosen] - 8) - 1));
                           break;
                        }
                        case 1:
                        {
                           // a size that can't be
                           long size = source.pick( { -1l, -16l, -17l, -24l, std::numeric_limits< long>::min(), std::numeric_limits< long>::max(), used, used + 1, -used});
                           if( size == 0) size = -1;
                           for( int i = 0; i < 8; ++i)
                              content[ sizes[ chosen] + i] = char( std::uint64_t( size) >> ( 8 * ( 7 - i)));
                           break;
                        }
                        case 2:
                           content += source.bytes( source.uniform( 1, 15));
                           break;
                        default:
                           // anything anywhere
                           malformed = false;
                           content[ source.draw( content.size())] = char( source.draw( 256));
                           break;
                     }
                  }
                  what = pbt::cat( "damaged ", position, " ", show( content, 100));
                  source.log( what);
                  source.label( malformed ? "malformed" : "damaged");
                  auto memory = std::make_unique< char[]>( content.size() + 1);
                  std::memcpy( memory.get(), content.data(), content.size());

                  auto extra = tpalloc( CASUAL_FIELD, nullptr, 0);
                  auto code = casual_field_copy_memory( &extra, memory.get(), content.size());
                  if( malformed)
                     require( code == CASUAL_FIELD_INVALID_ARGUMENT, what, " copied gives ", casual_field_description( code), ", expected invalid argument");
                  else
                     require( code == CASUAL_FIELD_INVALID_ARGUMENT || code == CASUAL_FIELD_SUCCESS, what, " copied gives ", casual_field_description( code));

                  // what is accepted can be read, in every respect
                  if( code == CASUAL_FIELD_SUCCESS)
                  {
                     long id = 0, index = 0, count = 0, total = 0;
                     int result = 0;
                     while( ( result = casual_field_next( extra, &id, &index)) == CASUAL_FIELD_SUCCESS && id != 0)
                     {
                        int code = 0;
                        if( type( id) >= Short && type( id) <= Binary)
                           get( extra, id, index, code);
                        require( code == CASUAL_FIELD_SUCCESS, what, ": get of accepted gives ", casual_field_description( code));
                        if( ++count > 1000000)
                           pbt::fail( what, ": traversal does not end");
                     }
                     require( casual_field_occurrences_in_buffer( extra, &total) == CASUAL_FIELD_SUCCESS, what);
                  }
                  else
                  {
                     Slot untouched;
                     untouched.buffer = extra;
                     compare( untouched, what);
                  }
                  tpfree( extra);

                  // as a message from some other process
                  bool refused = false;
                  char* received = nullptr;
                  try
                  {
                     received = std::get< 0>( holder().insert( common::buffer::Payload{ std::string{ CASUAL_FIELD "/"}, binary( content)})).raw();
                  }
                  catch( ...) { refused = true;}
                  require( refused == ( code != CASUAL_FIELD_SUCCESS), what, refused ? ": refused when received" : ": accepted when received");
                  if( received)
                     tpfree( received);
                  break;
               }
            }

            if( ! what.empty())
               for( auto& slot : slots)
                  compare( slot, pbt::cat( step, ": ", what));
         });

         source.nontrivial( mutations >= 5 && removed > 0);

         for( auto& slot : slots)
            tpfree( slot.buffer);
      }
   } // field

} // namespace
#include "buffer_kinds.h"

int main( int argc, char** argv)
{
   auto mode = std::string{ "field"};
   for( int index = 1; index + 1 < argc; ++index)
      if( std::string{ argv[ index]} == "--mode")
         mode = argv[ index + 1];

   ::setenv( "CASUAL_FIELD_TABLE", ( std::string{ __FILE__}.substr( 0, std::string{ __FILE__}.rfind( '/')) + "/field_table.json").c_str(), 1);

   pbt::Options options;
   options.name = "buffer_model";
   options.case_timeout = 20;

   if( mode == "field")
   {
      options.property = "B01";
      options.rule = "up to 60 operations on up to 3 fielded buffers: add/set/put/get/remove (typed and generic, existing and absent occurrences, wrong types), copy of buffer and of memory, reallocation, free, transport as a message, json/yaml/xml documents, match and fixed width text; after every operation every buffer is traversed and compared with a map from id to values. Non-trivial: at least 5 values written and one removed";
      options.quick = 12000;
      options.thorough = 400000;
      return pbt::run( argc, argv, options, field::property);
   }
   if( mode == "kinds")
   {
      options.property = "B02";
      options.rule = "up to 60 operations on order, octet (with all sub types) and string buffers: add/get in and out of step, set, prepare, reallocation, transport as a message; compared with a sequence of values with a cursor, a byte string and a text. Non-trivial: at least 5 values written and one read back or transported";
      options.quick = 12000;
      options.thorough = 400000;
      return pbt::run( argc, argv, options, kinds::property);
   }
   options.property = "B03";
   options.rule = "up to 80 operations on up to 12 buffers of all registered types: tpalloc, tprealloc, tptypes, tpfree, adoption of the inbound buffer of a service, insertion, release, transport with sizes in and out of range, stale and unknown handles; every buffer has a pattern of its own that is verified after each operation. Non-trivial: at least 4 buffers alive at once and one of them reallocated or freed";
   options.quick = 12000;
   options.thorough = 400000;
   return pbt::run( argc, argv, options, pool::property);
}
