// A server that interprets programs. Arguments: the prefix of its services, and its resources.
#include "xatmi_program.h"
#include "rm.h"

#include <xatmi.h>
#include <casual/xatmi/server.h>
#include <casual/xatmi/extended.h>
#include <casual/xatmi/xa.h>
#include <tx.h>
#include <xa.h>

#include <csignal>
#include <cstdio>
#include <vector>

extern "C" struct xa_switch_t verif_xa_switch_static;

namespace
{
   struct Outcome
   {
      int finish = xp::f_nothing;
      long code = 0;
      char* data = nullptr;
      long size = 0;
      const char* service = nullptr;
   };

   Outcome run( TPSVCINFO* information)
   {
      Outcome outcome;
      char text[ 5] = {};
      if( information->data && information->len >= 4)
         std::memcpy( text, information->data, 4);
      const int number = std::atoi( text);
      if( number < 0 || number >= xp::max_nodes || ! xp::shared()->node[ number].used)
         return outcome;
      {
         auto entry = xp::log( number, -1);
         entry->flags = information->flags;
         entry->descriptor = information->cd;
         std::snprintf( entry->service, sizeof( entry->service), "%s", information->name);
         char subtype[ 40] = {};
         char type[ 40] = {};
         ::tptypes( information->data, type, subtype);
         std::snprintf( entry->type, sizeof( entry->type), "%s", type);
         entry->size = std::strcmp( type, "CSTRING") == 0 ? long( ::strnlen( information->data, information->len)) : information->len;
         entry->hash = xp::hash( information->data, entry->size);
         xp::publish( entry);
      }
      xp::interpret( number, information->cd);

      auto& node = xp::shared()->node[ number];
      outcome.finish = node.finish;
      outcome.code = node.code;
      outcome.service = node.service;
      if( node.reply.type != xp::t_null)
      {
         auto value = xp::content( node.reply);
         if( node.reply.type == xp::t_string)
         {
            outcome.data = ::tpalloc( "CSTRING", nullptr, value.size() + 1);
            std::memcpy( outcome.data, value.c_str(), value.size() + 1);
            outcome.size = value.size() + 1;
         }
         else
         {
            outcome.data = ::tpalloc( X_OCTET, nullptr, value.size());
            std::memcpy( outcome.data, value.data(), value.size());
            outcome.size = value.size();
         }
      }
      xp::publish( xp::log( number, -2));
      return outcome;
   }

   extern "C" void service( TPSVCINFO* information)
   {
      // nothing with a destructor here, tpreturn jumps
      auto outcome = run( information);
      switch( outcome.finish)
      {
         case xp::f_success: ::tpreturn( TPSUCCESS, outcome.code, outcome.data, outcome.size, 0); break;
         case xp::f_fail: ::tpreturn( TPFAIL, outcome.code, outcome.data, outcome.size, 0); break;
         case xp::f_throw: throw 42;
         case xp::f_forward: ::casual_service_forward( outcome.service, outcome.data, outcome.size); break;
         case xp::f_kill:
            if( auto shared = rm::shared())
            {
               auto index = shared->deads.fetch_add( 1);
               if( index < 64)
                  shared->dead[ index] = ::getpid();
            }
            ::kill( ::getpid(), SIGKILL);
            break;
         default: break;
      }
   }
}

int main( int argc, char** argv)
{
   const std::string prefix = argc > 1 ? argv[ 1] : "p";
   static std::vector< std::string> names;
   static std::vector< casual_service_name_mapping> services;
   const std::pair< const char*, uint64_t> modes[] = { { "auto", 0}, { "join", 1}, { "atomic", 2}, { "none", 3}, { "branch", 4}};
   names.reserve( 10);
   for( auto& mode : modes)
   {
      names.push_back( std::string{ mode.first} + "_" + prefix);
      services.push_back( { &service, names.back().c_str(), "", mode.second});
   }
   services.push_back( { nullptr, nullptr, nullptr, 0});

   static std::vector< casual_xa_switch_map> resources;
   for( int index = 2; index < argc; ++index)
      resources.push_back( { "verif-rm", argv[ index], &verif_xa_switch_static});
   resources.push_back( { nullptr, nullptr, nullptr});

   static casual_server_arguments arguments{ services.data(), nullptr, nullptr, argc, argv, resources.data()};
   return casual_run_server( &arguments);
}
