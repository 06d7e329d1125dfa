#include "xatmi_program.h"
#include "rm.h"

#include "common/communication/ipc.h"

#include <tx.h>
#include <xatmi.h>

#include <cstdio>

// work in the dynamic resource, only linked where there is one
__attribute__(( weak)) int rm_work( int) { return -1000;}
__attribute__(( weak)) int rm_done( int) { return -1000;}

namespace xp
{
   namespace
   {
      char* allocate( const Data& data, long& size)
      {
         size = data.size;
         if( data.type == t_null)
            return nullptr;
         auto value = content( data);
         if( data.type == t_string)
         {
            auto buffer = ::tpalloc( "CSTRING", nullptr, data.size + 1);
            if( buffer)
               std::memcpy( buffer, value.c_str(), data.size + 1);
            size = data.size + 1;
            return buffer;
         }
         auto buffer = ::tpalloc( X_OCTET, nullptr, data.size ? data.size : 1);
         if( buffer)
            std::memcpy( buffer, value.data(), data.size);
         return buffer;
      }

      void describe( Entry& entry, char* data, long size)
      {
         entry.size = 0;
         entry.hash = 0;
         if( ! data)
            return;
         char subtype[ 40] = {};
         char type[ 40] = {};
         if( ::tptypes( data, type, subtype) < 0)
         {
            std::strcpy( entry.type, "?");
            return;
         }
         std::snprintf( entry.type, sizeof( entry.type), "%s", type);
         // a string is what is before the terminator
         entry.size = std::strcmp( type, "CSTRING") == 0 ? long( ::strnlen( data, size)) : size;
         entry.hash = hash( data, entry.size);
      }
   }

   Entry* log( int node, int op)
   {
      auto shared = xp::shared();
      auto index = shared->entries.fetch_add( 1);
      if( index >= int( sizeof( shared->entry) / sizeof( Entry)))
         ::abort();
      auto& entry = shared->entry[ index];
      entry.node = node;
      entry.op = op;
      entry.pid = ::getpid();
      return &entry;
   }

   void publish( Entry* entry)
   {
      TXINFO info{};
      info.xid.formatID = -1;
      entry->transaction = ::tx_info( &info);
      entry->state = info.transaction_state;
      if( info.xid.formatID != -1)
      {
         entry->gtrid_size = info.xid.gtrid_length;
         entry->bqual_size = info.xid.bqual_length;
         std::memcpy( entry->xid, info.xid.data, sizeof( entry->xid));
      }
      entry->ready.store( 1);
   }

   void interpret( int number, int conversation)
   {
      auto& node = shared()->node[ number];
      int descriptors[ max_ops];
      XID xids[ max_ops];
      bool used[ max_ops] = {}; // the conversation is over
      int own = conversation;
      bool own_used = false;
      for( int index = 0; index < max_ops; ++index)
      {
         descriptors[ index] = -1;
         xids[ index] = XID{};
         xids[ index].formatID = -1;
      }

      for( int index = 0; index < node.count; ++index)
      {
         auto& op = node.ops[ index];
         auto entry = log( number, index);
         auto reference = [&](){ return op.reference < 0 ? conversation : descriptors[ op.reference];};
         entry->descriptor = -1;
         // a descriptor that is used up may have been given again
         auto conversational = [&]()
         {
            if( ! ( op.reference < 0 ? own_used : used[ op.reference]))
               return reference();
            for( int other = 0; other < index; ++other)
               if( ! used[ other] && node.ops[ other].kind == k_connect && descriptors[ other] == reference())
                  return 9999;
            if( op.reference >= 0 && ! own_used && own == reference())
               return 9999;
            return reference();
         };
         auto over = [&]()
         {
            if( entry->result != -1)
               return;
            const bool ends = tperrno == TPEEVENT ? entry->event != TPEV_SENDONLY : tperrno != TPEPROTO && tperrno != TPEINVAL && tperrno != TPEBLOCK && tperrno != TPEOTYPE && tperrno != TPEBADDESC;
            if( ends)
               ( op.reference < 0 ? own_used : used[ op.reference]) = true;
         };
         char* input = nullptr;
         long input_size = 0;
         char* output = nullptr;
         long output_size = 0;
         int pid = 0;
         auto prepare_output = [&]()
         {
            output = op.output == t_string ? ::tpalloc( "CSTRING", nullptr, 64) : ::tpalloc( X_OCTET, nullptr, 64);
            output_size = 64;
         };

         switch( op.kind)
         {
            case k_info: break;
            case k_begin: entry->result = ::tx_begin(); break;
            case k_commit: entry->result = ::tx_commit(); break;
            case k_rollback: entry->result = ::tx_rollback(); break;
            case k_suspend: entry->result = ::tx_suspend( op.value ? nullptr : &xids[ index]); break;
            case k_resume: entry->result = ::tx_resume( op.value ? nullptr : &xids[ op.reference < 0 ? index : op.reference]); break;
            case k_control: entry->result = ::tx_set_transaction_control( op.value); break;
            case k_return: entry->result = ::tx_set_commit_return( op.value); break;
            case k_timeout: entry->result = ::tx_set_transaction_timeout( op.value); break;
            case k_dynamic: entry->result = rm_work( op.value); break;
            case k_dynamic_done: entry->result = rm_done( op.value); break;
            case k_call:
               input = allocate( op.data, input_size);
               prepare_output();
               entry->result = ::tpcall( op.service, input, input_size, &output, &output_size, op.flags);
               break;
            case k_acall:
               input = allocate( op.data, input_size);
               entry->result = ::tpacall( op.service, input, input_size, op.flags);
               descriptors[ index] = entry->result;
               entry->descriptor = entry->result;
               break;
            case k_getrply:
            case k_getany:
            {
               prepare_output();
               int descriptor = op.kind == k_getany ? 0 : reference();
               entry->result = ::tpgetrply( &descriptor, &output, &output_size, op.flags);
               entry->descriptor = descriptor;
               break;
            }
            case k_cancel:
               entry->result = ::tpcancel( reference());
               break;
            case k_sleep:
               ::usleep( op.value);
               break;
            case k_settle:
               // until the invocation of a node is done
               pid = 0;
               for( int round = 0; round < 4000; ++round)
               {
                  bool found = false;
                  auto count = shared()->entries.load();
                  for( int i = 0; i < count && ! found; ++i)
                     if( shared()->entry[ i].ready.load() && shared()->entry[ i].node == op.node && shared()->entry[ i].op == -2)
                     {
                        found = true;
                        pid = shared()->entry[ i].pid;
                     }
                  if( found)
                     break;
                  // let those that send to this process go on
                  casual::common::communication::ipc::inbound::device().flush();
                  ::usleep( 1000);
               }
               ::usleep( 3000 + op.value);
               // and it has ended its resources
               for( int round = 0; pid && rm::shared() && round < 100; ++round)
               {
                  bool associated = false;
                  for( auto& branch : rm::shared()->branch)
                     if( branch.rm)
                        for( auto& association : branch.associations)
                           associated = associated || association.pid == pid;
                  if( ! associated)
                     break;
                  ::usleep( 1000);
               }
               break;
            case k_plan:
            {
               auto shared = rm::shared();
               auto slot = shared->plans.load();
               auto& plan = shared->plan[ slot];
               plan.rm = op.reference;
               plan.code[ op.node] = op.value;
               plan.failures[ op.node] = op.flags;
               plan.ready.store( 1);
               shared->plans.fetch_add( 1);
               break;
            }
            case k_connect:
               input = allocate( op.data, input_size);
               entry->result = ::tpconnect( op.service, input, input_size, op.flags);
               descriptors[ index] = entry->result;
               entry->descriptor = entry->result;
               break;
            case k_send:
               input = allocate( op.data, input_size);
               entry->event = 0;
               entry->result = ::tpsend( conversational(), input, input_size, op.flags, &entry->event);
               for( int round = 0; op.value && round < 4000 && entry->result == 0; ++round)
               {
                  ::usleep( 1000);
                  entry->result = ::tpsend( conversational(), input, input_size, op.flags, &entry->event);
               }
               over();
               break;
            case k_recv:
               prepare_output();
               entry->event = 0;
               entry->result = ::tprecv( conversational(), &output, &output_size, op.flags, &entry->event);
               for( int round = 0; op.value && round < 4000 && entry->result == -1 && tperrno == TPEBLOCK; ++round)
               {
                  ::usleep( 1000);
                  entry->result = ::tprecv( conversational(), &output, &output_size, op.flags, &entry->event);
               }
               over();
               break;
            case k_discon:
               entry->result = ::tpdiscon( conversational());
               if( entry->result == 0 || tperrno != TPEBADDESC)
                  ( op.reference < 0 ? own_used : used[ op.reference]) = true;
               break;
            default: break;
         }
         if( op.kind >= k_call)
         {
            entry->error = tperrno;
            entry->user = tpurcode;
         }
         if( output)
         {
            describe( *entry, output, output_size);
            ::tpfree( output);
         }
         if( input)
            ::tpfree( input);
         publish( entry);
      }
   }
} // xp
