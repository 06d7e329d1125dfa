// C01 what is written in any format is what is read back, C02 malformed documents are
// refused without harm.
#include "pbt.h"

#include "common/serialize/create.h"
#include "common/serialize/macro.h"
#include "common/serialize/native/binary.h"
#include "common/serialize/native/network.h"
#include "common/serialize/json.h"
#include "common/buffer/type.h"
#include "common/chronology.h"
#include "common/uuid.h"

#include <bit>
#include <cmath>
#include <clocale>
#include <limits>

namespace
{
   using namespace casual;
   using pbt::require;
   using pbt::Source;
   using pbt::show;
   using pbt::cat;

   namespace serialize = common::serialize;

   enum class Format { json, yaml, xml, ini, native, network};

   const char* name( Format format)
   {
      constexpr const char* names[] = { "json", "yaml", "xml", "ini", "native", "network"};
      return names[ int( format)];
   }

   // ------------------------------------------------------------------ values

   enum class Kind { Bool, Char, Short, Int, Long, LongLong, Float, Double, String, U8String, Binary, Fixed, Sequence, Composite};

   const char* name( Kind kind)
   {
      constexpr const char* names[] = { "bool", "char", "short", "int", "long", "longlong", "float", "double", "string", "u8string", "binary", "fixed", "sequence", "composite"};
      return names[ int( kind)];
   }

   bool scalar( Kind kind) { return kind < Kind::Sequence;}

   struct Type;

   struct Field
   {
      std::string name;
      bool optional = false;
      std::shared_ptr< Type> type;
   };

   struct Type
   {
      Kind kind{};
      std::shared_ptr< Type> element;
      std::vector< Field> fields;
   };

   constexpr int fixed_size = 8;

   struct Value
   {
      bool b{};
      char c{};
      short s{};
      int i{};
      long l{};
      long long ll{};
      float f{};
      double d{};
      std::string string;
      std::u8string u8string;
      platform::binary::type binary;
      std::array< std::byte, fixed_size> fixed{};
      std::vector< Value> items;
      std::vector< std::optional< Value>> members;
   };

   // a value together with its type, to serialize
   struct Out
   {
      const Type& type;
      const Value& value;

      template< typename A>
      void serialize( A& archive, const char* name) const
      {
         auto put = [ &]( const auto& v){ serialize::value::write( archive, v, name);};
         switch( type.kind)
         {
            case Kind::Bool: put( value.b); break;
            case Kind::Char: put( value.c); break;
            case Kind::Short: put( value.s); break;
            case Kind::Int: archive.write( value.i, name); break;
            case Kind::Long: put( value.l); break;
            case Kind::LongLong: put( value.ll); break;
            case Kind::Float: put( value.f); break;
            case Kind::Double: put( value.d); break;
            case Kind::String: put( value.string); break;
            case Kind::U8String: put( value.u8string); break;
            case Kind::Binary: put( value.binary); break;
            case Kind::Fixed: put( value.fixed); break;
            case Kind::Sequence:
               archive.container_start( value.items.size(), name);
               for( auto& item : value.items)
                  Out{ *type.element, item}.serialize( archive, nullptr);
               archive.container_end( name);
               break;
            case Kind::Composite:
               archive.composite_start( name);
               for( std::size_t index = 0; index < type.fields.size(); ++index)
               {
                  auto& field = type.fields[ index];
                  if( field.optional)
                  {
                     std::optional< Out> out;
                     if( value.members[ index])
                        out.emplace( Out{ *field.type, *value.members[ index]});
                     serialize::value::write( archive, out, field.name.c_str());
                  }
                  else
                     Out{ *field.type, *value.members[ index]}.serialize( archive, field.name.c_str());
               }
               archive.composite_end( name);
               break;
         }
      }
   };

   template< typename A>
   bool read( A& archive, const Type& type, Value& value, const char* name);

   template< typename A>
   bool read_members( A& archive, const Type& type, Value& value)
   {
      value.members.resize( type.fields.size());
      for( std::size_t index = 0; index < type.fields.size(); ++index)
      {
         auto& field = type.fields[ index];
         auto has = true;
         Value member;

         auto properties = archive.archive_properties();
         if( field.optional && ! common::flag::contains( properties, serialize::archive::Property::named))
         {
            has = false;
            archive.read( has, "has_value");
         }

         if( has && read( archive, *field.type, member, field.name.c_str()))
            value.members[ index] = std::move( member);
      }
      return true;
   }

   template< typename A>
   bool read( A& archive, const Type& type, Value& value, const char* name)
   {
      auto get = [ &]( auto& v){ return serialize::value::read( archive, v, name);};
      switch( type.kind)
      {
         case Kind::Bool: return get( value.b);
         case Kind::Char: return get( value.c);
         case Kind::Short: return get( value.s);
         case Kind::Int: return archive.read( value.i, name);
         case Kind::Long: return get( value.l);
         case Kind::LongLong: return get( value.ll);
         case Kind::Float: return get( value.f);
         case Kind::Double: return get( value.d);
         case Kind::String: return get( value.string);
         case Kind::U8String: return get( value.u8string);
         case Kind::Binary: return get( value.binary);
         case Kind::Fixed: return get( value.fixed);
         case Kind::Sequence:
         {
            auto [ size, exists] = archive.container_start( 0, name);
            if( ! exists)
               return false;
            for( auto count = size; count > 0; --count)
            {
               value.items.emplace_back();
               read( archive, *type.element, value.items.back(), nullptr);
            }
            archive.container_end( name);
            return true;
         }
         case Kind::Composite:
            if( ! archive.composite_start( name))
               return false;
            read_members( archive, type, value);
            archive.composite_end( name);
            return true;
      }
      return false;
   }

   template< typename T>
   bool same( T a, T b)
   {
      if constexpr( std::is_floating_point_v< T>)
         return a == b || ( a != a && b != b);
      else
         return a == b;
   }

   template< typename T>
   std::string number( T value)
   {
      std::ostringstream out;
      out << std::setprecision( std::numeric_limits< T>::max_digits10) << value;
      return out.str();
   }

   std::string text( const std::u8string& value) { return { reinterpret_cast< const char*>( value.data()), value.size()};}

   std::string memory( std::span< const std::byte> data) { return { reinterpret_cast< const char*>( data.data()), data.size()};}

   std::string describe( const Type& type, const Value& value)
   {
      switch( type.kind)
      {
         case Kind::Bool: return value.b ? "true" : "false";
         case Kind::Char: return cat( "'", show( std::string( 1, value.c)), "'");
         case Kind::Short: return cat( value.s);
         case Kind::Int: return cat( value.i);
         case Kind::Long: return cat( value.l);
         case Kind::LongLong: return cat( value.ll);
         case Kind::Float: return number( value.f);
         case Kind::Double: return number( value.d);
         case Kind::String: return show( value.string);
         case Kind::U8String: return show( text( value.u8string));
         case Kind::Binary: return show( memory( value.binary));
         case Kind::Fixed: return show( memory( value.fixed));
         case Kind::Sequence:
         {
            std::string result = "[ ";
            for( auto& item : value.items)
               result += describe( *type.element, item) + ", ";
            return result + "]";
         }
         case Kind::Composite:
         {
            std::string result = "{ ";
            for( std::size_t index = 0; index < type.fields.size(); ++index)
               result += cat( type.fields[ index].name, ": ", value.members.at( index) ? describe( *type.fields[ index].type, *value.members[ index]) : "-", ", ");
            return result + "}";
         }
      }
      return {};
   }

   std::string describe( const Type& type)
   {
      if( type.kind == Kind::Sequence)
         return cat( "[ ", describe( *type.element), "]");
      if( type.kind != Kind::Composite)
         return name( type.kind);
      std::string result = "{ ";
      for( auto& field : type.fields)
         result += cat( field.name, field.optional ? "?: " : ": ", describe( *field.type), ", ");
      return result + "}";
   }

   //! empty if the same, otherwise where they differ
   std::string difference( const Type& type, const Value& a, const Value& b, const std::string& path)
   {
      auto scalar = [ &]( auto member)
      {
         return same( a.*member, b.*member) ? std::string{} : cat( path, " (", name( type.kind), "): wrote ", describe( type, a), ", read ", describe( type, b));
      };
      switch( type.kind)
      {
         case Kind::Bool: return scalar( &Value::b);
         case Kind::Char: return scalar( &Value::c);
         case Kind::Short: return scalar( &Value::s);
         case Kind::Int: return scalar( &Value::i);
         case Kind::Long: return scalar( &Value::l);
         case Kind::LongLong: return scalar( &Value::ll);
         case Kind::Float: return scalar( &Value::f);
         case Kind::Double: return scalar( &Value::d);
         case Kind::String: return scalar( &Value::string);
         case Kind::U8String: return scalar( &Value::u8string);
         case Kind::Binary: return scalar( &Value::binary);
         case Kind::Fixed: return scalar( &Value::fixed);
         case Kind::Sequence:
            if( a.items.size() != b.items.size())
               return cat( path, ": wrote ", a.items.size(), " elements, read ", b.items.size());
            for( std::size_t index = 0; index < a.items.size(); ++index)
               if( auto result = difference( *type.element, a.items[ index], b.items[ index], cat( path, '[', index, ']')); ! result.empty())
                  return result;
            return {};
         case Kind::Composite:
            for( std::size_t index = 0; index < type.fields.size(); ++index)
            {
               auto& field = type.fields[ index];
               const auto where = path + "." + field.name;
               if( a.members[ index].has_value() != b.members.at( index).has_value())
                  return cat( where, a.members[ index] ? ": written but not read" : ": read but not written");
               if( a.members[ index])
                  if( auto result = difference( *field.type, *a.members[ index], *b.members[ index], where); ! result.empty())
                     return result;
            }
            return {};
      }
      return {};
   }

   // -------------------------------------------------------------- generation

   void append_utf8( std::string& out, char32_t c)
   {
      if( c < 0x80) out += char( c);
      else if( c < 0x800) { out += char( 0xc0 | ( c >> 6)); out += char( 0x80 | ( c & 0x3f));}
      else if( c < 0x10000) { out += char( 0xe0 | ( c >> 12)); out += char( 0x80 | ( ( c >> 6) & 0x3f)); out += char( 0x80 | ( c & 0x3f));}
      else { out += char( 0xf0 | ( c >> 18)); out += char( 0x80 | ( ( c >> 12) & 0x3f)); out += char( 0x80 | ( ( c >> 6) & 0x3f)); out += char( 0x80 | ( c & 0x3f));}
   }

   bool native( Format format) { return format >= Format::native;}

   //! text that all the formats can represent, with all that is special to any of them
   std::string generate_text( Source& source, Format format)
   {
      switch( source.draw( 10))
      {
         case 0: return {};
         case 1: return source.pick( { std::string{ "true"}, std::string{ "null"}, std::string{ "~"}, std::string{ "42"}, std::string{ "-1.5e3"}, std::string{ " "}, std::string{ "  lead"}, std::string{ "trail "},
            std::string{ "- a"}, std::string{ "a: b"}, std::string{ "# c"}, std::string{ "a # c"}, std::string{ "[x]"}, std::string{ "{y}"}, std::string{ "&amp;"}, std::string{ "<tag/>"}, std::string{ "]]>"}, std::string{ "<!--"},
            std::string{ "a=b"}, std::string{ ";"}, std::string{ "\\"}, std::string{ "\\n"}, std::string{ "'"}, std::string{ "\""}, std::string{ "\n"}, std::string{ "\t"}, std::string{ "---\n"}, std::string{ "..."}, std::string{ "!tag"}, std::string{ "*x"}, std::string{ "%"}, std::string{ "@"}, std::string{ "`"}, std::string{ "|"}, std::string{ ">"}, std::string{ "\n\n"}, std::string{ "a\nb\n"}, std::string{ "\r\n"}});
         case 2: return source.text( "abc", 40, 120);
         case 3: return native( format) ? source.bytes( source.draw( 40)) : source.text( " \n\t<>&\"'=;#:-\\[]{}%", 1, 12);
         default:
         {
            constexpr std::u32string_view special = U" \n\t\r<>&\"'=;#:-\\[]{}%,.!?*|@`~^$()/+0123456789";
            std::string result;
            source.repeat( 0, 20, 6, [ &]( auto)
            {
               switch( source.draw( format == Format::xml ? 6 : 7))
               {
                  case 6: append_utf8( result, char32_t( source.draw( 32))); break;
                  case 0: case 1: append_utf8( result, char32_t( 'a' + source.draw( 26))); break;
                  case 2: append_utf8( result, special[ source.draw( special.size())]); break;
                  case 3: append_utf8( result, char32_t( 0xa1 + source.draw( 0x500))); break;
                  case 4: append_utf8( result, char32_t( 0x4e00 + source.draw( 0x1000))); break;
                  default: append_utf8( result, char32_t( 0x1f300 + source.draw( 0x200)));
               }
            });
            return result;
         }
      }
   }

   template< typename T>
   T generate_real( Source& source, Format format)
   {
      using limits = std::numeric_limits< T>;
      switch( source.draw( 8))
      {
         case 0: return T( source.integer( -1000, 1000));
         case 1: return T( source.integer( -1000000, 1000000)) / T( 1024);
         case 2: return source.pick( { T( 0), T( 1), T( -1), T( 0.5), T( 0.1), T( 1) / T( 3)});
         case 3: return source.pick( { limits::max(), limits::lowest(), limits::min(), limits::epsilon()});
         case 4: return source.pick( { T( 3.14159265358979), T( 1e-30), T( 1e30), T( 1e-9), T( 123456789.123456789)});
         case 5:
            if( format == Format::yaml || native( format))
               return source.pick( { limits::infinity(), -limits::infinity(), limits::quiet_NaN(), T( 1)});
            return T( 1);
         default:
         {
            using bits = std::conditional_t< sizeof( T) == 4, std::uint32_t, std::uint64_t>;
            auto value = std::bit_cast< T>( bits( source.draw( 0)));
            return std::isnormal( value) ? value : T( 0);
         }
      }
   }

   struct Limits
   {
      Format format;
      int depth;
      bool nested_sequences = true;
   };

   std::shared_ptr< Type> generate_type( Source& source, const Limits& limits, int depth, bool in_sequence)
   {
      auto result = std::make_shared< Type>();
      auto kind = source.weighted( { 5, 5, 5, 5, 5, 5, 5, 5, 12, 8, 8, 5, depth < limits.depth ? 14u : 0u, depth < limits.depth ? 14u : 0u});
      if( depth == 0)
         kind = std::size_t( Kind::Composite);
      if( in_sequence && ! limits.nested_sequences && Kind( kind) == Kind::Sequence)
         kind = std::size_t( Kind::Composite);
      result->kind = Kind( kind);

      if( result->kind == Kind::Sequence)
         result->element = generate_type( source, limits, depth + 1, true);
      if( result->kind == Kind::Composite)
      {
         std::set< std::string> used;
         source.repeat( 1, 6, 3, [ &]( auto)
         {
            auto name = source.chance( 15) ? std::string{ source.pick( { "element", "value", "key", "x", "true", "null", "y", "n"})} : source.identifier( 1, 8);
            if( std::isdigit( name[ 0]))
               name = "d" + name;
            if( ! used.insert( name).second)
               return;
            result->fields.push_back( Field{ name, source.chance( 20), generate_type( source, limits, depth + 1, false)});
         });
      }
      return result;
   }

   Value generate_value( Source& source, const Type& type, Format format)
   {
      Value value;
      switch( type.kind)
      {
         case Kind::Bool: value.b = source.boolean(); break;
         case Kind::Char: value.c = native( format) ? char( source.draw( 256)) : format != Format::xml && source.chance( 20) ? char( source.draw( 32)) : std::string_view{ " !\"#$%&'()*+,-./0123456789:;<=>?@ABCXYZ[\\]^_`abcxyz{|}~"}[ source.draw( 55)]; break;
         case Kind::Short: value.s = short( source.integer( std::numeric_limits< short>::min(), std::numeric_limits< short>::max())); if( source.boolean()) value.s = short( value.s ^ 0x8000); break;
         case Kind::Int: value.i = int( source.integer( std::numeric_limits< int>::min(), std::numeric_limits< int>::max())); break;
         case Kind::Long: value.l = source.integer( std::numeric_limits< long>::min(), std::numeric_limits< long>::max()); break;
         case Kind::LongLong: value.ll = source.integer( std::numeric_limits< long>::min(), std::numeric_limits< long>::max()); break;
         case Kind::Float: value.f = generate_real< float>( source, format); break;
         case Kind::Double: value.d = generate_real< double>( source, format); break;
         case Kind::String: value.string = generate_text( source, format); break;
         case Kind::U8String:
         {
            auto data = generate_text( source, format);
            value.u8string.assign( reinterpret_cast< const char8_t*>( data.data()), data.size());
            break;
         }
         case Kind::Binary:
         {
            auto data = source.bytes( source.draw( 3) == 0 ? source.draw( 200) : source.draw( 12));
            auto first = reinterpret_cast< const std::byte*>( data.data());
            value.binary.assign( first, first + data.size());
            break;
         }
         case Kind::Fixed:
         {
            auto data = source.bytes( fixed_size);
            std::memcpy( value.fixed.data(), data.data(), fixed_size);
            break;
         }
         case Kind::Sequence:
            source.repeat( format == Format::ini ? 1 : 0, 6, 2, [ &]( auto){ value.items.push_back( generate_value( source, *type.element, format));});
            break;
         case Kind::Composite:
            for( auto& field : type.fields)
            {
               if( field.optional && source.boolean())
                  value.members.emplace_back();
               else
                  value.members.emplace_back( generate_value( source, *field.type, format));
            }
            break;
      }
      return value;
   }

   // ------------------------------------------------------------------ static

   enum class Color : short { red = 1, green = -5, blue = 300};

   //! one of everything that the serialization knows how to handle
   struct Static
   {
      struct Leaf
      {
         std::string name;
         long number = 0;
         auto operator <=> ( const Leaf&) const = default;

         CASUAL_CONST_CORRECT_SERIALIZE(
            CASUAL_SERIALIZE( name);
            CASUAL_SERIALIZE( number);
         )
      };

      std::optional< long> optional_number;
      std::optional< Leaf> optional_leaf;
      std::optional< std::vector< std::string>> optional_vector;
      std::map< std::string, long> map;
      std::map< long, std::vector< Leaf>> deep_map;
      std::set< std::string> set;
      std::set< Leaf> leaf_set;
      std::vector< std::vector< long>> matrix;
      std::pair< std::string, long> pair;
      std::tuple< long, std::string, bool> tuple;
      std::vector< std::tuple< std::string, Leaf>> tuples;
      Color color{ Color::red};
      std::chrono::nanoseconds duration{};
      platform::time::point::type point{};
      std::filesystem::path path;
      common::Uuid uuid;
      int integer{};
      std::uint8_t octet{};
      std::vector< char> nothing;
      std::vector< Static> children;

      friend bool operator == ( const Static&, const Static&) = default;

      CASUAL_CONST_CORRECT_SERIALIZE(
         CASUAL_SERIALIZE( optional_number);
         CASUAL_SERIALIZE( optional_leaf);
         CASUAL_SERIALIZE( optional_vector);
         CASUAL_SERIALIZE( map);
         CASUAL_SERIALIZE( deep_map);
         CASUAL_SERIALIZE( set);
         CASUAL_SERIALIZE( leaf_set);
         CASUAL_SERIALIZE( matrix);
         CASUAL_SERIALIZE( pair);
         CASUAL_SERIALIZE( tuple);
         CASUAL_SERIALIZE( tuples);
         CASUAL_SERIALIZE( color);
         CASUAL_SERIALIZE( duration);
         CASUAL_SERIALIZE( point);
         CASUAL_SERIALIZE( path);
         CASUAL_SERIALIZE( uuid);
         CASUAL_SERIALIZE( integer);
         CASUAL_SERIALIZE( octet);
         CASUAL_SERIALIZE( children);
      )
   };

   Static generate_static( Source& source, Format format, int depth)
   {
      auto text = [ &]{ return generate_text( source, native( format) ? Format::json : format);};
      auto number = [ &]{ return long( source.integer( std::numeric_limits< long>::min(), std::numeric_limits< long>::max()));};
      auto leaf = [ &]{ return Static::Leaf{ text(), number()};};
      auto few = [ &]( auto&& action){ source.repeat( 0, 4, 1, [ &]( auto){ action();});};

      Static result;
      if( source.boolean()) result.optional_number = number();
      if( source.boolean()) result.optional_leaf = leaf();
      if( source.boolean()) { result.optional_vector.emplace(); few( [ &]{ result.optional_vector->push_back( text());});}
      few( [ &]{ result.map.emplace( text(), number());});
      few( [ &]{ auto& leafs = result.deep_map[ number()]; few( [ &]{ leafs.push_back( leaf());});});
      few( [ &]{ result.set.insert( text());});
      few( [ &]{ result.leaf_set.insert( leaf());});
      few( [ &]{ auto& row = result.matrix.emplace_back(); few( [ &]{ row.push_back( number());});});
      result.pair = { text(), number()};
      result.tuple = { number(), text(), source.boolean()};
      few( [ &]{ result.tuples.emplace_back( text(), leaf());});
      result.color = source.pick( { Color::red, Color::green, Color::blue});
      result.duration = std::chrono::nanoseconds{ number()};
      result.point = platform::time::point::type{ std::chrono::nanoseconds{ source.integer( 0, std::numeric_limits< long>::max())}};
      result.path = "/" + source.identifier() + "/" + source.identifier();
      {
         auto data = source.bytes( 16);
         std::memcpy( &result.uuid.get(), data.data(), 16);
      }
      result.integer = int( source.integer( std::numeric_limits< int>::min(), std::numeric_limits< int>::max()));
      result.octet = native( format) ? std::uint8_t( source.draw( 256)) : std::uint8_t( 32 + source.draw( 90));
      if( depth > 0)
         few( [ &]{ result.children.push_back( generate_static( source, format, depth - 1));});
      return result;
   }

   // ----------------------------------------------------------------- archives

   enum class Policy { strict, relaxed, consumed};

   const char* name( Policy policy)
   {
      constexpr const char* names[] = { "strict", "relaxed", "consumed"};
      return names[ int( policy)];
   }

   std::string key( Source& source, Format format)
   {
      switch( format)
      {
         case Format::json: return source.pick( { std::string{ "json"}, std::string{ ".json"}, std::string{ "jsn"}, std::string{ ".jsn"}, std::string{ common::buffer::type::json}});
         case Format::yaml: return source.pick( { std::string{ "yaml"}, std::string{ ".yaml"}, std::string{ "yml"}, std::string{ ".yml"}, std::string{ common::buffer::type::yaml}});
         case Format::xml: return source.pick( { std::string{ "xml"}, std::string{ ".xml"}, std::string{ common::buffer::type::xml}});
         default: return source.pick( { std::string{ "ini"}, std::string{ ".ini"}, std::string{ common::buffer::type::ini}});
      }
   }

   platform::binary::type binary( const std::string& value)
   {
      auto data = reinterpret_cast< const std::byte*>( value.data());
      return { data, data + value.size()};
   }

   //! a reader for the document, from a stream or from memory.
   template< typename F>
   auto with_reader( Source& source, Format format, Policy policy, const std::string& document, F&& f)
   {
      const auto id = key( source, format);
      const bool stream = source.boolean();

      std::istringstream in{ document};
      auto data = binary( document);
      if( ! stream && format == Format::json && source.boolean())
         data.push_back( std::byte{}); // an X_OCTET or json buffer often has the terminator

      auto create = [ &]
      {
         namespace reader = serialize::create::reader;
         switch( policy)
         {
            case Policy::strict: return stream ? reader::strict::from( id, in) : reader::strict::from( id, data);
            case Policy::relaxed: return stream ? reader::relaxed::from( id, in) : reader::relaxed::from( id, data);
            default: return stream ? reader::consumed::from( id, in) : reader::consumed::from( id, data);
         }
      };
      auto reader = create();
      return f( reader);
   }

   template< typename F>
   std::string written( Source& source, Format format, F&& f)
   {
      auto writer = format == Format::json && source.boolean() ? serialize::json::writer() : serialize::create::writer::from( key( source, format));
      f( writer);
      switch( source.draw( 3))
      {
         case 0: return memory( writer.consume< platform::binary::type>());
         case 1: return writer.consume< std::string>();
         default:
         {
            std::ostringstream out;
            writer.consume( out);
            return out.str();
         }
      }
   }

   bool has_absent( const Type& type, const Value& value)
   {
      if( type.kind == Kind::Sequence)
         return std::any_of( value.items.begin(), value.items.end(), [ &]( auto& item){ return has_absent( *type.element, item);});
      if( type.kind == Kind::Composite)
         for( std::size_t index = 0; index < type.fields.size(); ++index)
            if( ! value.members[ index] || has_absent( *type.fields[ index].type, *value.members[ index]))
               return true;
      return false;
   }

   //! is there anything in the value that every format can see
   bool has_leaf( const Type& type, const Value& value)
   {
      switch( type.kind)
      {
         case Kind::Sequence: return std::any_of( value.items.begin(), value.items.end(), [ &]( auto& item){ return has_leaf( *type.element, item);});
         case Kind::Composite:
            for( std::size_t index = 0; index < type.fields.size(); ++index)
               if( value.members[ index] && has_leaf( *type.fields[ index].type, *value.members[ index]))
                  return true;
            return false;
         case Kind::String: return ! value.string.empty();
         case Kind::U8String: return ! value.u8string.empty();
         case Kind::Binary: return ! value.binary.empty();
         default: return true;
      }
   }

   //! number of composites in a value
   long composites( const Type& type, const Value& value)
   {
      long result = 0;
      if( type.kind == Kind::Sequence)
         for( auto& item : value.items)
            result += composites( *type.element, item);
      if( type.kind == Kind::Composite)
      {
         ++result;
         for( std::size_t index = 0; index < type.fields.size(); ++index)
            if( value.members[ index])
               result += composites( *type.fields[ index].type, *value.members[ index]);
      }
      return result;
   }

   long leafs( const Type& type, const Value& value)
   {
      long result = scalar( type.kind);
      for( auto& item : value.items)
         result += leafs( *type.element, item);
      for( std::size_t index = 0; index < value.members.size(); ++index)
         if( value.members[ index])
            result += leafs( *type.fields[ index].type, *value.members[ index]);
      return result;
   }

   // ------------------------------------------------------------- round trips

   namespace roundtrip
   {
      struct Root
      {
         std::string name;
         std::shared_ptr< Type> type;
         Value value;
      };

      void dynamic( Source& source, Format format)
      {
         Limits limits{ format, 3};
         limits.nested_sequences = format != Format::ini;

         std::vector< Root> roots;
         std::set< std::string> used;
         source.repeat( 1, 3, 1, [ &]( auto index)
         {
            Root root{ cat( source.identifier( 1, 4), index), generate_type( source, limits, 0, false), {}};
            if( std::isdigit( root.name[ 0]))
               root.name = "d" + root.name;
            root.value = generate_value( source, *root.type, format);
            source.log( "root ", root.name, ": ", describe( *root.type), " = ", describe( *root.type, root.value));
            roots.push_back( std::move( root));
         });

         long total = 0;
         for( auto& root : roots)
            total += leafs( *root.type, root.value);
         source.nontrivial( total >= 4);

         auto check = [ &]( auto& archive, const char* what)
         {
            for( auto& root : roots)
            {
               Value value;
               require( read( archive, *root.type, value, root.name.c_str()), what, ": ", root.name, " is not found");
               auto diff = difference( *root.type, root.value, value, root.name);
               require( diff.empty(), what, ": ", diff);
            }
         };

         if( native( format))
         {
            auto transport = [ &]( auto writer, auto create)
            {
               for( auto& root : roots)
                  Out{ *root.type, root.value}.serialize( writer, root.name.c_str());
               auto data = writer.consume();
               auto reader = create( data);
               check( reader, name( format));
            };
            namespace binary = serialize::native::binary;
            if( format == Format::native)
               transport( binary::Writer{}, []( auto& data){ return binary::Reader{ data};});
            else
               transport( binary::network::Writer{}, []( auto& data){ return binary::network::Reader{ data};});
            return;
         }

         auto write = [ &]( serialize::Writer& writer)
         {
            for( auto& root : roots)
               Out{ *root.type, root.value}.serialize( writer, root.name.c_str());
         };

         const auto document = written( source, format, write);
         source.log( name( format), ": ", show( document));

         const bool absent = std::any_of( roots.begin(), roots.end(), []( auto& root){ return has_absent( *root.type, root.value);});

         for( auto policy : { Policy::relaxed, Policy::strict, Policy::consumed})
         {
            // strict wants everything
            if( policy == Policy::strict && absent)
               continue;
            if( policy == Policy::consumed && format == Format::ini)
               continue;

            auto what = cat( name( format), " ", name( policy));
            try
            {
               with_reader( source, format, policy, document, [ &]( auto& reader)
               {
                  check( reader, what.c_str());
                  reader.validate();
               });
            }
            catch( const std::exception& e)
            {
               if( dynamic_cast< const pbt::Failure*>( &e))
                  throw;
               pbt::fail( what, ": refuses what was written: ", e.what());
            }
         }

         // every other reader gives what it should when a field is unknown to it
         if( format == Format::ini)
            return;

         std::vector< std::pair< Type*, std::size_t>> all;
         auto collect = [ &]( auto& self, Type& type) -> void
         {
            if( type.element)
               self( self, *type.element);
            for( std::size_t index = 0; index < type.fields.size(); ++index)
            {
               all.emplace_back( &type, index);
               self( self, *type.fields[ index].type);
            }
         };
         for( auto& root : roots)
            collect( collect, *root.type);
         if( all.empty())
            return;

         // forget a field in the type - everywhere
         auto [ holder, index] = all[ source.draw( all.size())];
         auto field = holder->fields[ index];
         bool seen = false;   // something of the field is in the document
         bool exists = false; // there is an instance of the composite

         auto forget = [ &, holder = holder, index = index]( auto& self, const Type& type, Value& value) -> void
         {
            for( auto& item : value.items)
               self( self, *type.element, item);
            if( type.kind == Kind::Composite)
            {
               for( std::size_t current = 0; current < value.members.size(); ++current)
                  if( value.members[ current] && !( &type == holder && current == index))
                     self( self, *type.fields[ current].type, *value.members[ current]);
               if( &type == holder)
               {
                  exists = true;
                  if( value.members[ index] && has_leaf( *field.type, *value.members[ index]))
                     seen = true;
                  value.members.erase( value.members.begin() + index);
               }
            }
         };

         for( auto& root : roots)
            forget( forget, *root.type, root.value);
         holder->fields.erase( holder->fields.begin() + index);

         source.log( "without ", field.name);
         source.label( seen ? "unknown field" : "unknown field, nothing in it");

         auto what = cat( name( format), " without '", field.name, "'");
         try
         {
            with_reader( source, format, Policy::relaxed, document, [ &]( auto& reader)
            {
               check( reader, ( what + ", relaxed").c_str());
            });
         }
         catch( const std::exception& e)
         {
            if( dynamic_cast< const pbt::Failure*>( &e))
               throw;
            pbt::fail( what, ": relaxed refuses: ", e.what());
         }

         if( seen)
         {
            bool refused = false;
            with_reader( source, format, Policy::consumed, document, [ &]( auto& reader)
            {
               check( reader, ( what + ", consumed").c_str());
               try { reader.validate();}
               catch( const std::exception& e) { refused = true; source.log( "refused: ", e.what());}
            });
            require( refused, what, ": nobody complains that it is not consumed");
         }

         // and the other way around, the document lacks what is read
         const auto lacking = written( source, format, write);
         source.log( "lacking: ", show( lacking));
         holder->fields.insert( holder->fields.begin() + index, Field{ field.name, false, field.type});

         if( ! absent && exists)
         {
            bool refused = false;
            try
            {
               with_reader( source, format, Policy::strict, lacking, [ &]( auto& reader)
               {
                  for( auto& root : roots)
                  {
                     Value value;
                     read( reader, *root.type, value, root.name.c_str());
                  }
               });
            }
            catch( const std::exception& e) { refused = true; source.log( "refused: ", e.what());}
            require( refused, what, ": nobody complains that it is missing");
         }

         with_reader( source, format, Policy::relaxed, lacking, [ &]( auto& reader)
         {
            for( auto& root : roots)
            {
               Value value;
               require( read( reader, *root.type, value, root.name.c_str()), what, " relaxed: root ", root.name, " is not found");
               // remove the member again, it has to be absent
               auto drop = [ &, holder = holder, index = index]( auto& self, const Type& type, Value& value) -> void
               {
                  for( auto& item : value.items)
                     self( self, *type.element, item);
                  if( type.kind != Kind::Composite)
                     return;
                  for( std::size_t current = 0; current < value.members.size(); ++current)
                     if( value.members[ current])
                        self( self, *type.fields[ current].type, *value.members[ current]);
                  if( &type == holder)
                  {
                     require( ! value.members[ index], what, " relaxed: read but not written");
                     value.members.erase( value.members.begin() + index);
                  }
               };
               drop( drop, *root.type, value);

               holder->fields.erase( holder->fields.begin() + index);
               auto diff = difference( *root.type, root.value, value, root.name);
               holder->fields.insert( holder->fields.begin() + index, Field{ field.name, false, field.type});
               require( diff.empty(), what, " relaxed: ", diff);
            }
         });
      }

      std::string difference( const Static& a, const Static& b)
      {
#define CHECK( member) if( ! ( a.member == b.member)) return #member;
         CHECK( optional_number) CHECK( optional_leaf) CHECK( optional_vector) CHECK( map) CHECK( deep_map) CHECK( set) CHECK( leaf_set)
         CHECK( matrix) CHECK( pair) CHECK( tuple) CHECK( tuples) CHECK( color) CHECK( duration) CHECK( point) CHECK( path) CHECK( uuid)
         CHECK( integer) CHECK( octet)
#undef CHECK
         if( a.children.size() != b.children.size())
            return "number of children";
         for( std::size_t index = 0; index < a.children.size(); ++index)
            if( auto result = difference( a.children[ index], b.children[ index]); ! result.empty())
               return cat( "children[", index, "].", result);
         return {};
      }

      void compiled( Source& source, Format format)
      {
         auto value = generate_static( source, format, 2);
         source.nontrivial( value.children.size() + value.map.size() + value.tuples.size() > 0);

         if( native( format))
         {
            auto transport = [ &]( auto writer, auto create)
            {
               writer << value;
               auto data = writer.consume();
               auto reader = create( data);
               Static result;
               reader >> result;
               auto diff = difference( value, result);
               require( diff.empty(), name( format), ": '", diff, "' is not what was written");
            };
            namespace binary = serialize::native::binary;
            if( format == Format::native)
               transport( binary::Writer{}, []( auto& data){ return binary::Reader{ data};});
            else
               transport( binary::network::Writer{}, []( auto& data){ return binary::network::Reader{ data};});
            return;
         }

         const auto document = written( source, format, [ &]( auto& writer){ writer << CASUAL_NAMED_VALUE( value);});
         source.log( name( format), ": ", show( document));

         auto expected = value;
         for( auto policy : { Policy::relaxed, Policy::consumed})
         {
            with_reader( source, format, policy, document, [ &]( auto& reader)
            {
               Static value;
               try
               {
                  reader >> CASUAL_NAMED_VALUE( value);
                  reader.validate();
               }
               catch( const std::exception& e)
               {
                  pbt::fail( name( format), " ", name( policy), ": refuses what was written: ", e.what());
               }
               auto diff = difference( expected, value);
               require( diff.empty(), name( format), " ", name( policy), ": '", diff, "' is not what was written");
            });
         }
      }

      void property( Source& source)
      {
         auto format = Format( source.draw( 6));
         source.label( name( format));

         if( format != Format::ini && source.chance( 25))
         {
            source.label( "compiled types");
            compiled( source, format);
         }
         else
            dynamic( source, format);
      }

   } // roundtrip

   // -------------------------------------------------------------- malformed

   namespace malformed
   {
      const std::vector< std::string>& tokens( Format format)
      {
         static const std::vector< std::string> json{ "{", "}", "[", "]", ",", ":", "\"", "null", "true", "1", "-1", "1e400", "99999999999999999999", "\"\"", "{}", "[]", "\\", "\\u0000", "\\ud800", "\xff", "1.5", "\"a\"", "//", "'"};
         static const std::vector< std::string> yaml{ "- ", ": ", "\n", "  ", "? ", "&a ", "*a ", "!!binary ", "!!int ", "| ", "> ", "{", "}", "[", "]", "\"", "'", "---\n", "...\n", "%YAML 9\n", "~", "null", "\t", "#", "\xff", "<<: *a\n", "!<x> ", "99999999999999999999"};
         static const std::vector< std::string> xml{ "<", ">", "/", "</", "/>", "<element>", "</element>", "<element/>", "&", "&#0;", "&#x110000;", "&lt;", "<!--", "-->", "<![CDATA[", "]]>", "<?", "?>", "<!DOCTYPE", "=", "\"", "\xff", " sequence-value=\"true\"", "99999999999999999999"};
         static const std::vector< std::string> ini{ "[", "]", "=", "\n", ".", "\\", "\\x", ";", "#", "[a]\n", "[a.b]\n", "[.]\n", "[a..b]\n", "[ ]\n", "a=b\n", "=\n", "a=\\", " ", "\xff", "[a.b.c]\n", "99999999999999999999"};
         switch( format)
         {
            case Format::json: return json;
            case Format::yaml: return yaml;
            case Format::xml: return xml;
            default: return ini;
         }
      }

      void mutate( Source& source, Format format, std::string& document)
      {
         source.repeat( 0, 8, 2, [ &]( auto)
         {
            auto position = source.draw( document.size() + 1);
            switch( source.draw( 8))
            {
               case 0: document.resize( position); break;
               case 1: document.erase( position, source.draw( 5)); break;
               case 2: if( position < document.size()) document[ position] = char( source.draw( 256)); break;
               case 3: document.insert( position, 1, char( source.draw( 256))); break;
               case 4: case 5: document.insert( position, source.pick( tokens( format))); break;
               case 6:
               {
                  // something from elsewhere
                  auto from = source.draw( document.size() + 1);
                  document.insert( position, document.substr( from, source.draw( 30)));
                  break;
               }
               case 7:
               {
                  // a line
                  auto begin = document.rfind( '\n', position);
                  auto end = document.find( '\n', position);
                  if( begin != std::string::npos && end != std::string::npos && begin < end)
                     document.erase( begin, end - begin);
                  break;
               }
            }
         });
      }

      //! a number in a document is the value that is read, or it is refused
      void numbers( Source& source, Format format)
      {
         std::string text;
         bool integer = true;
         __int128 value = 0;
         {
            const bool negative = source.boolean();
            auto digits = source.text( "0123456789", 1, source.pick( { 4, 6, 11, 20, 25}));
            // a leading zero is octal in yaml, and an error in json
            while( digits.size() > 1 && digits[ 0] == '0')
               digits.erase( 0, 1);
            for( auto digit : digits)
               value = value * 10 + ( digit - '0');
            if( negative)
               value = -value;
            text = ( negative ? "-" : "") + digits;
            if( source.chance( 20))
            {
               integer = false;
               text += source.pick( { std::string{ ".5"}, std::string{ "x"}, std::string{ " 7"}, std::string{ ",0"}, std::string{ ".75"}});
            }
         }

         std::string document;
         switch( format)
         {
            case Format::json: document = cat( "{ \"a\": ", text, "}"); break;
            case Format::yaml: document = cat( "a: ", text, "\n"); break;
            case Format::xml: document = cat( "<?xml version=\"1.0\"?><a>", text, "</a>"); break;
            default: document = cat( "a=", text, "\n");
         }
         source.log( name( format), ": ", show( document));
         source.nontrivial();

         auto as = [ &]( auto result, const char* type)
         {
            using T = decltype( result);
            result = 42;
            bool accepted = false;
            try
            {
               accepted = with_reader( source, format, Policy( source.draw( 3)), document, [ &]( auto& reader){ return serialize::value::read( reader, result, "a");});
            }
            catch( const std::exception& e) { source.log( type, " refused: ", e.what());}

            const bool fits = integer && value >= __int128( std::numeric_limits< T>::min()) && value <= __int128( std::numeric_limits< T>::max());
            require( accepted == fits, name( format), " ", show( text), fits ? " is refused as " : " is accepted as ", type, ": ", result);
            if( fits)
               require( __int128( result) == value, name( format), " ", show( text), " becomes ", result, " as ", type);
            source.label( fits ? "number that fits" : "number that does not fit");
         };
         switch( source.draw( 4))
         {
            case 0: as( short{}, "short"); break;
            case 1: as( int{}, "int"); break;
            case 2: as( long{}, "long"); break;
            default: as( 0ll, "long long");
         }
      }

      void property( Source& source)
      {
         auto format = Format( source.draw( 4));
         source.label( name( format));

         if( source.chance( 25))
         {
            source.label( "numbers");
            return numbers( source, format);
         }

         Limits limits{ format, 3};
         limits.nested_sequences = format != Format::ini;

         auto type = generate_type( source, limits, 0, false);
         auto value = generate_value( source, *type, format);

         std::string document;
         if( source.chance( 10))
            source.repeat( 0, 12, 5, [ &]( auto){ document += source.pick( tokens( format));});
         else
            document = written( source, format, [ &]( auto& writer){ Out{ *type, value}.serialize( writer, "root");});

         mutate( source, format, document);

         // another idea about the types
         auto expected = type;
         if( source.chance( 60))
         {
            auto confuse = [ &]( auto& self, const Type& type, int depth) -> std::shared_ptr< Type>
            {
               auto result = std::make_shared< Type>( type);
               if( depth > 0 && source.chance( 20))
                  return generate_type( source, limits, 2, false);
               if( result->element)
                  result->element = self( self, *result->element, depth + 1);
               for( auto& field : result->fields)
                  field.type = self( self, *field.type, depth + 1);
               return result;
            };
            expected = confuse( confuse, *type, 0);
         }

         source.log( name( format), ": ", show( document), " read as ", describe( *expected));

         const char* root = source.chance( 85) ? "root" : nullptr;

         auto policy = Policy( source.draw( 3));
         try
         {
            with_reader( source, format, policy, document, [ &]( auto& reader)
            {
               Value value;
               source.nontrivial();
               auto found = read( reader, *expected, value, root);
               if( policy == Policy::strict)
                  require( found, "strict did not find ", root ? root : "the root");
               reader.validate();
               source.label( "accepted");
            });
         }
         catch( const std::exception& e)
         {
            if( dynamic_cast< const pbt::Failure*>( &e))
               throw;
            source.label( "refused");
            source.log( "refused: ", e.what());
         }
      }
   } // malformed

} // namespace

int main( int argc, char** argv)
{
   auto mode = std::string{ "roundtrip"};
   for( int index = 1; index + 1 < argc; ++index)
      if( std::string{ argv[ index]} == "--mode")
         mode = argv[ index + 1];

   std::setlocale( LC_ALL, "C.UTF-8");

   pbt::Options options;
   options.name = "serialize_model";
   options.case_timeout = 20;

   if( mode == "roundtrip")
   {
      options.property = "C01";
      options.rule = "trees of values of all serializable types (and compiled structures with optionals, maps, sets, tuples, enums, times, paths, uuids, nested 3 levels), written to json, yaml, xml, ini, the native and the network representation with all the ways to get hold of an archive, read back with the relaxed, strict and consumed policies; then read without one of the fields, and with a field that is not there. Non-trivial: at least 4 leaf values";
      options.quick = 12000;
      options.thorough = 600000;
      return pbt::run( argc, argv, options, roundtrip::property);
   }

   options.property = "C02";
   options.rule = "documents made by the writers and then damaged (truncated, bytes and tokens changed, inserted and removed, parts duplicated), and sequences of tokens, read as the types that were written or as other types. Non-trivial: the document was parsed and reading got to the values";
   options.quick = 20000;
   options.thorough = 1000000;
   return pbt::run( argc, argv, options, malformed::property);
}
