// A stand-in for cppcodec's base64_rfc4648 (cppcodec is not available in this sandbox).
// Implements exactly the entry points casual uses, with cppcodec's documented semantics:
//  - alphabet A-Za-z0-9+/ with mandatory '=' padding
//  - aborts if the target buffer is too small
//  - decode throws cppcodec::symbol_error/padding_error (std::domain_error) on malformed input
#pragma once

#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <stdexcept>
#include <string>

namespace cppcodec
{
   class parse_error : public std::domain_error { public: using std::domain_error::domain_error; };
   class symbol_error : public parse_error { public: using parse_error::parse_error; };
   class invalid_input_length : public parse_error { public: using parse_error::parse_error; };
   class padding_error : public invalid_input_length { public: using invalid_input_length::invalid_input_length; };

   struct base64_rfc4648
   {
      static constexpr std::size_t encoded_size( std::size_t size) noexcept { return ( size + 2) / 3 * 4;}
      static constexpr std::size_t decoded_max_size( std::size_t size) noexcept { return size / 4 * 3;}

      static std::size_t encode( char* target, std::size_t target_size, const char* source, std::size_t size)
      {
         static constexpr char alphabet[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
         const std::size_t needed = encoded_size( size);
         if( needed > target_size)
            std::abort();

         auto byte = [ source]( std::size_t i){ return static_cast< std::uint32_t>( static_cast< unsigned char>( source[ i]));};
         std::size_t out = 0;
         std::size_t i = 0;
         for( ; i + 2 < size; i += 3)
         {
            auto v = ( byte( i) << 16) | ( byte( i + 1) << 8) | byte( i + 2);
            target[ out++] = alphabet[ ( v >> 18) & 63];
            target[ out++] = alphabet[ ( v >> 12) & 63];
            target[ out++] = alphabet[ ( v >> 6) & 63];
            target[ out++] = alphabet[ v & 63];
         }
         if( size - i == 1)
         {
            auto v = byte( i) << 16;
            target[ out++] = alphabet[ ( v >> 18) & 63];
            target[ out++] = alphabet[ ( v >> 12) & 63];
            target[ out++] = '=';
            target[ out++] = '=';
         }
         else if( size - i == 2)
         {
            auto v = ( byte( i) << 16) | ( byte( i + 1) << 8);
            target[ out++] = alphabet[ ( v >> 18) & 63];
            target[ out++] = alphabet[ ( v >> 12) & 63];
            target[ out++] = alphabet[ ( v >> 6) & 63];
            target[ out++] = '=';
         }
         if( out < target_size)
            target[ out] = '\0'; // cppcodec terminates when there is room
         return out;
      }

      static std::size_t decode( char* target, std::size_t target_size, const char* source, std::size_t size)
      {
         if( target_size < decoded_max_size( size))
            std::abort();

         auto value = []( char c) -> int
         {
            if( c >= 'A' && c <= 'Z') return c - 'A';
            if( c >= 'a' && c <= 'z') return c - 'a' + 26;
            if( c >= '0' && c <= '9') return c - '0' + 52;
            if( c == '+') return 62;
            if( c == '/') return 63;
            return -1;
         };

         std::size_t out = 0;
         std::uint32_t accumulated = 0;
         int count = 0;
         std::size_t i = 0;
         for( ; i < size && source[ i] != '='; ++i)
         {
            auto v = value( source[ i]);
            if( v < 0)
               throw symbol_error{ "parse error: character is not in the base64 alphabet"};
            accumulated = ( accumulated << 6) | static_cast< std::uint32_t>( v);
            if( ++count == 4)
            {
               target[ out++] = static_cast< char>( accumulated >> 16);
               target[ out++] = static_cast< char>( accumulated >> 8);
               target[ out++] = static_cast< char>( accumulated);
               count = 0;
               accumulated = 0;
            }
         }
         std::size_t padding = 0;
         for( ; i < size; ++i, ++padding)
            if( source[ i] != '=')
               throw padding_error{ "parse error: stray padding"};

         if( count == 0)
         {
            if( padding != 0)
               throw padding_error{ "parse error: unexpected padding"};
            return out;
         }
         if( count == 1 || padding != static_cast< std::size_t>( 4 - count))
            throw padding_error{ "parse error: missing or wrong padding"};
         if( count == 2)
            target[ out++] = static_cast< char>( accumulated >> 4);
         else
         {
            target[ out++] = static_cast< char>( accumulated >> 10);
            target[ out++] = static_cast< char>( accumulated >> 2);
         }
         return out;
      }
   };
}
