// Clients and services that use the XATMI and TX interfaces, against a model of them.
//
//  --mode tx       the TX interface of one process with resources (T02)
//  --mode service  transactions over service invocations (T03)
//  --mode call     calls: replies, descriptors, flags, data (X01)
//  --mode converse conversations (X02)
#include "sys.h"
#include "rm.h"
#include "xatmi_program.h"

#include <xa.h>

#include "common/transaction/resource.h"

// undefined by casual
enum : int { XA_OK = 0, XA_RDONLY = 3, XA_RBBASE = 100, XA_RBROLLBACK = 100, XA_RBDEADLOCK = 102, XA_RBINTEGRITY = 103, XA_RBOTHER = 104, XA_RBTIMEOUT = 106, XA_RBEND = 107,
   XAER_RMERR = -3, XAER_RMFAIL = -7};

extern "C" struct xa_switch_t verif_xa_switch_static;
extern "C" struct xa_switch_t verif_xa_switch_dynamic;
extern "C" int tpcancel( int);

namespace
{
   using namespace casual;
   using pbt::cat;
   using xp::Kind;

   std::string mode = "tx";

   long now_ms()
   {
      return std::chrono::duration_cast< std::chrono::milliseconds>( std::chrono::steady_clock::now().time_since_epoch()).count();
   }

   // the interfaces' values
   enum : long { TX_stacked = 42, TX_ok = 0, TX_outside = -1, TX_rollback = -2, TX_mixed = -3, TX_hazard = -4, TX_protocol = -5, TX_error = -6, TX_fail = -7, TX_einval = -8, TX_no_begin = -100};
   enum : int { E_baddesc = 2, E_block = 3, E_inval = 4, E_noent = 6, E_proto = 9, E_svcerr = 10, E_svcfail = 11, E_system = 12, E_time = 13, E_tran = 14, E_otype = 18, E_event = 22};
   enum : long { F_noblock = 1, F_sigrstrt = 2, F_noreply = 4, F_notran = 8, F_tran = 0x10, F_notime = 0x20, F_getany = 0x80, F_nochange = 0x100, F_conv = 0x400, F_sendonly = 0x800, F_recvonly = 0x1000};
   enum : long { EV_discon = 1, EV_svcerr = 2, EV_svcfail = 4, EV_svcsucc = 8, EV_sendonly = 0x20};

   enum Service : int { s_auto, s_join, s_atomic, s_none, s_branch};
   const char* service_names[] = { "auto", "join", "atomic", "none", "branch"};

   // ---------------------------------------------------------------- generation

   struct Call
   {
      int mode = s_auto;
      char server = 'p';
   };

   struct Program
   {
      xp::Shared& shared;
      pbt::Source& source;
      int next = 0;              // node
      int quota = 0;             // nodes left in this program
      std::map< char, int> busy; // nodes per kind of server
      std::map< int, Call> invoked; // node -> what invokes it
      std::vector< char> servers = { 'p'};
      int instances = 3;
      int kills = 0;
      bool forwarded = false;    // generates what is forwarded to. Nobody replies if its server is killed, a known finding
      bool dynamic = false;
      bool plans = false;
      int plan_count = 0;
      bool stacked = false;      // the control, which then isn't changed

      int allocate()
      {
         auto result = next++;
         shared.node[ result] = xp::Node{};
         shared.node[ result].used = 1;
         --quota;
         return result;
      }
   };

   xp::Data generate_data( Program& program, int header)
   {
      auto& source = program.source;
      xp::Data data;
      data.type = source.chance( 30) ? xp::t_string : xp::t_octet;
      data.header = header;
      data.seed = source.draw( 1000);
      const auto floor = header < 0 ? 1 : 5;
      if( mode == "call" || mode == "converse")
         switch( source.weighted( { 60, 25, 10, 5}))
         {
            case 0: data.size = source.uniform( floor, 64); break;
            case 1: data.size = source.uniform( floor, 3000); break;
            // around the transport's frame
            case 2: data.size = source.uniform( 7000, 70000); break;
            default: data.size = source.uniform( 70000, 900000); break;
         }
      else
         data.size = source.uniform( floor, 40);
      return data;
   }

   std::string describe( const xp::Data& data)
   {
      if( data.type == xp::t_null)
         return "null";
      return cat( data.type == xp::t_octet ? "octet" : "string", '(', data.size, ')');
   }

   std::string describe( const xp::Op& op)
   {
      std::string result = xp::name( op.kind);
      if( op.service[ 0]) result += cat( ' ', op.service);
      if( op.node >= 0) result += cat( " -> node ", op.node);
      if( op.reference >= 0) result += cat( " ref ", op.reference);
      if( op.flags) result += cat( " flags 0x", std::hex, op.flags);
      if( op.value) result += cat( " value ", op.value);
      if( op.data.type != xp::t_null) result += cat( " data ", describe( op.data));
      return result;
   }

   int generate_node( Program& program, int depth, bool conversation);

   struct Generator
   {
      Program& program;
      xp::Node& node;
      int number;
      int depth;
      bool client;
      std::vector< int> calls;       // ops: calls with a reply
      std::vector< int> unsettled;   // nodes of calls whose replies might not have arrived
      std::vector< int> suspended;   // ops
      int consumptions = 0;

      pbt::Source& source() { return program.source;}

      xp::Op& add( int kind)
      {
         auto& op = node.ops[ node.count++];
         op = xp::Op{};
         op.kind = kind;
         return op;
      }
      bool room( int count = 1) const { return node.count + count <= xp::max_ops - 12;}

      //! -> service, if there is one with room
      bool target( xp::Op& op, bool valid)
      {
         if( ! valid)
         {
            std::snprintf( op.service, sizeof( op.service), "absent_%d", int( source().draw( 3)));
            op.data = generate_data( program, -1);
            return true;
         }
         std::vector< char> candidates;
         for( auto server : program.servers)
            if( program.busy[ server] < program.instances)
               candidates.push_back( server);
         if( candidates.empty() || program.quota <= 0)
            return false;
         Call call;
         call.server = source().pick( candidates);
         call.mode = mode == "call" ? source().weighted( { 20, 40, 10, 30, 10}) : source().weighted( { 40, 20, 15, 10, 15});
         ++program.busy[ call.server];
         std::snprintf( op.service, sizeof( op.service), "%s_%c", service_names[ call.mode], call.server);
         return invoked( op, call);
      }

      bool invoked( xp::Op& op, Call call)
      {
         const auto index = int( &op - node.ops);
         const auto callee = generate_node( program, depth + 1, false);
         auto& self = node.ops[ index];
         self.node = callee;
         self.data = generate_data( program, callee);
         program.invoked[ callee] = call;
         return true;
      }

      long wait_flags( bool any)
      {
         long flags = 0;
         if( source().chance( 10)) flags |= F_notime;
         if( source().chance( 10)) flags |= F_sigrstrt;
         if( source().chance( mode == "call" ? 15 : 4)) flags |= F_nochange;
         if( any) flags |= F_getany;
         return flags;
      }

      void call()
      {
         auto& op = add( xp::k_call);
         op.flags = wait_flags( false);
         op.output = source().chance( 50) ? xp::t_octet : xp::t_string;
         if( source().chance( 12)) op.flags |= F_notran;
         if( source().chance( 4)) op.flags |= F_noblock;
         if( source().chance( 2)) op.flags |= F_conv; // not valid
         if( ! target( op, ! ( op.flags & F_conv) && ! source().chance( 5)))
            --node.count;
      }

      void acall()
      {
         auto& op = add( xp::k_acall);
         const auto index = node.count - 1;
         if( source().chance( 15)) op.flags |= F_notran;
         if( source().chance( 12)) op.flags |= F_noreply | ( source().chance( 85) ? F_notran : 0);
         if( source().chance( 8)) op.flags |= F_noblock;
         const bool invalid = source().chance( 2);
         if( invalid) op.flags |= F_nochange; // not valid
         const bool valid = ! invalid && ! source().chance( 5);
         if( ! target( op, valid))
         {
            --node.count;
            return;
         }
         auto& self = node.ops[ index];
         if( ! valid)
            return;
         if( ! ( self.flags & F_noreply))
         {
            calls.push_back( index);
            unsettled.push_back( self.node);
         }
         else if( self.flags & F_notran)
            unsettled.push_back( self.node);
      }

      void getrply( int index, bool block)
      {
         auto& op = add( xp::k_getrply);
         op.reference = index;
         op.flags = wait_flags( false);
         op.output = source().chance( 50) ? xp::t_octet : xp::t_string;
         if( ! block)
            op.flags |= F_noblock;
         ++consumptions;
      }

      void receive()
      {
         if( calls.empty())
            return;
         if( int( calls.size()) > consumptions && source().chance( 30))
         {
            auto& op = add( xp::k_getany);
            op.flags = wait_flags( true);
            op.output = source().chance( 50) ? xp::t_octet : xp::t_string;
            if( source().chance( 20)) op.flags |= F_noblock;
            ++consumptions;
            return;
         }
         getrply( source().pick( calls), ! source().chance( 15));
      }

      void settle( unsigned percent)
      {
         for( auto callee : unsettled)
            if( source().chance( percent) && room())
            {
               auto& op = add( xp::k_settle);
               op.node = callee;
            }
         unsettled.clear();
      }

      void plan()
      {
         if( ! program.plans || program.plan_count > 6 || ! source().chance( 30))
            return;
         ++program.plan_count;
         auto& op = add( xp::k_plan);
         op.reference = source().uniform( 1, program.dynamic ? 3 : 2);
         op.flags = source().chance( 80) ? 1 : 2;
         switch( source().weighted( { 20, 20, 30, 20, 10}))
         {
            case 0: op.node = rm::op_start; op.value = source().pick( { XAER_RMERR, XAER_RMFAIL, XA_RBROLLBACK, XA_RBDEADLOCK}); break;
            case 1: op.node = rm::op_end; op.value = source().pick( { XA_RBROLLBACK, XA_RBDEADLOCK, XA_RBTIMEOUT, XA_RBOTHER}); break;
            case 2: op.node = rm::op_prepare; op.value = source().pick( { XA_RDONLY, XA_RBROLLBACK, XA_RBINTEGRITY, XAER_RMERR, XAER_RMFAIL}); break;
            case 3: op.node = rm::op_commit; op.value = source().pick( { XA_RBROLLBACK, XA_RBOTHER, XAER_RMFAIL}); break;
            default: op.node = rm::op_rollback; op.value = source().pick( { XA_RBROLLBACK, XAER_RMFAIL}); break;
         }
      }

      void transaction( int kind)
      {
         if( kind == xp::k_commit || kind == xp::k_rollback)
         {
            if( kind == xp::k_commit && source().chance( 85))
            {
               // replies first
               for( auto index : calls)
                  if( room())
                     getrply( index, true);
               calls.clear();
               consumptions = 0;
            }
            settle( kind == xp::k_commit ? 90 : 92);
         }
         if( source().chance( 50))
            plan();
         auto& op = add( kind);
         switch( kind)
         {
            case xp::k_suspend: 
               op.value = source().chance( 5);
               suspended.push_back( node.count - 1);
               break;
            case xp::k_resume: 
               op.value = source().chance( 5);
               op.reference = suspended.empty() || source().chance( 4) ? -1 : source().pick( suspended);
               break;
            case xp::k_control: op.value = program.stacked ? source().pick( { long( TX_stacked), 2l, -1l}) : source().pick( { 0l, 0l, 1l, 2l, -1l}); break;
            case xp::k_return: op.value = source().pick( { 0, 1, 2}); break;
            case xp::k_timeout: op.value = source().pick( { 0, 100, 1000, -1}); break;
            case xp::k_dynamic: op.value = 3; break;
            case xp::k_dynamic_done: op.value = 3; break;
         }
      }

      void client_tx()
      {
         switch( source().weighted( { 24, 20, 12, 8, 8, 5, 3, 2, 2, program.dynamic ? 14u : 0, program.dynamic ? 3u : 0}))
         {
            case 0: transaction( xp::k_begin); break;
            case 1: transaction( xp::k_commit); break;
            case 2: transaction( xp::k_rollback); break;
            case 3: transaction( xp::k_suspend); break;
            case 4: transaction( xp::k_resume); break;
            case 5: transaction( xp::k_control); break;
            case 6: transaction( xp::k_return); break;
            case 7: transaction( xp::k_timeout); break;
            case 8: add( xp::k_info); break;
            case 9: transaction( xp::k_dynamic); break;
            default: transaction( xp::k_dynamic_done); break;
         }
      }

      void service_tx()
      {
         if( client)
         {
            switch( source().weighted( { 20, 15, 8, 3, 3, 50, 25, 20, 2}))
            {
               case 0: transaction( xp::k_begin); break;
               case 1: transaction( xp::k_commit); break;
               case 2: transaction( xp::k_rollback); break;
               case 3: transaction( xp::k_suspend); break;
               case 4: transaction( xp::k_resume); break;
               case 5: call(); break;
               case 6: acall(); break;
               case 7: receive(); break;
               default: add( xp::k_info); break;
            }
            return;
         }
         switch( source().weighted( { 10, 7, 6, 4, 4, 40, 20, 20, 3}))
         {
            case 0: transaction( xp::k_begin); break;
            case 1: transaction( xp::k_commit); break;
            case 2: transaction( xp::k_rollback); break;
            case 3: transaction( xp::k_suspend); break;
            case 4: transaction( xp::k_resume); break;
            case 5: call(); break;
            case 6: acall(); break;
            case 7: receive(); break;
            default: add( xp::k_sleep).value = source().uniform( 0, 3000); break;
         }
      }

      void calls_only()
      {
         switch( source().weighted( { 30, 40, 35, 6, 3, client ? 2u : 1u}))
         {
            case 0: call(); break;
            case 1: acall(); break;
            case 2: receive(); break;
            case 3:
               if( ! calls.empty())
               {
                  auto& op = add( xp::k_cancel);
                  op.reference = source().pick( calls);
                  ++consumptions;
               }
               break;
            case 4: add( xp::k_sleep).value = source().uniform( 0, 3000); break;
            default: transaction( xp::k_begin); break;
         }
      }
   };

   void finish_node( Program& program, Generator& generator)
   {
      auto& source = program.source;
      auto& node = generator.node;
      // what is left
      if( source.chance( 75))
      {
         auto calls = std::exchange( generator.calls, {});
         for( auto index : calls)
            if( node.count < xp::max_ops - 4)
               generator.getrply( index, true);
      }
      for( auto callee : generator.unsettled)
         if( node.count < xp::max_ops && source.chance( 92))
         {
            auto& op = generator.add( xp::k_settle);
            op.node = callee;
         }
   }

   int generate_node( Program& program, int depth, bool conversation)
   {
      auto& source = program.source;
      const auto number = program.allocate();
      const bool forwarded = std::exchange( program.forwarded, false);
      auto& node = program.shared.node[ number];
      Generator generator{ program, node, number, depth, depth == 0};

      const auto average = depth == 0 ? ( mode == "tx" ? 12 : 6) : depth == 1 ? 3 : 1;
      if( mode == "tx" && source.chance( 20))
      {
         auto& op = generator.add( xp::k_control);
         op.value = source.boolean() ? TX_stacked : 1;
         program.stacked = op.value == TX_stacked;
      }
      if( mode == "service" && depth == 0 && source.chance( 85))
         generator.add( xp::k_begin);

      source.repeat( 0, mode == "tx" ? 24 : 10, average, [&]( auto)
      {
         if( ! generator.room( 6))
            return;
         if( mode == "tx")
            generator.client_tx();
         else if( mode == "service")
            generator.service_tx();
         else
            generator.calls_only();
      });

      if( mode == "service" && depth == 0 && source.chance( 80))
         generator.transaction( source.chance( 80) ? xp::k_commit : xp::k_rollback);
      if( mode != "tx")
         finish_node( program, generator);

      if( depth > 0)
      {
         const auto forward = mode == "call" ? 12u : 6u;
         const auto kill = forwarded ? 0u : ( program.kills < 1 ? 2u : 0u);
         node.finish = source.weighted( { 66, 14, 4, 4, forward, kill});
         node.code = source.uniform( -3, 1000);
         if( ! source.chance( 12))
            node.reply = generate_data( program, -1);
         if( node.finish == xp::f_kill)
            ++program.kills;
         if( node.finish == xp::f_forward)
         {
            std::vector< char> candidates;
            for( auto server : program.servers)
               if( program.busy[ server] < program.instances)
                  candidates.push_back( server);
            if( candidates.empty() || program.quota <= 0)
               node.finish = xp::f_success;
            else if( source.chance( 8))
            {
               std::snprintf( node.service, sizeof( node.service), "absent_f");
               node.reply = generate_data( program, -1);
            }
            else
            {
               Call call;
               call.server = source.pick( candidates);
               call.mode = source.weighted( { 40, 20, 15, 10, 15});
               ++program.busy[ call.server];
               std::snprintf( node.service, sizeof( node.service), "%s_%c", service_names[ call.mode], call.server);
               program.forwarded = true;
               node.forward = generate_node( program, depth + 1, false);
               program.invoked[ node.forward] = call;
               node.reply = generate_data( program, node.forward);
            }
         }
      }
      return number;
   }

   void describe( pbt::Source& source, xp::Shared& shared, int number, const std::string& indent)
   {
      auto& node = shared.node[ number];
      for( int index = 0; index < node.count; ++index)
      {
         source.log( indent, number, '.', index, ' ', describe( node.ops[ index]));
         if( node.ops[ index].kind == xp::k_call || node.ops[ index].kind == xp::k_acall)
            if( node.ops[ index].node >= 0)
               describe( source, shared, node.ops[ index].node, indent + "   ");
      }
      const char* finishes[] = { "tpreturn success", "tpreturn fail", "return", "throw", "forward", "killed"};
      if( ! indent.empty())
         source.log( indent, number, ". ", finishes[ node.finish], ' ', node.code, ' ', describe( node.reply), ' ', node.service);
      if( node.forward >= 0)
         describe( source, shared, node.forward, indent + " f ");
   }

   // ---------------------------------------------------------------- the model

   struct Transaction
   {
      int id = 0;
      std::string gtrid;
      enum Outcome { open, committed, rolledback, unknown} outcome = open;
      bool racy = false;         // completed while invocations in it might not be done
      bool async = false;        // invocations in it at the same time
      bool killed = false;       // an invocation in it was killed
      bool abandoned = false;    // the owner was killed
      bool closed = false;
   };

   struct Local
   {
      int transaction = -1;      // -1: none, "null"
      std::string bqual;
      bool owner = false;
      long state = 0;            // 0 active, 1 timeout, 2 rollback only
      bool suspended = false;
      std::set< std::pair< int, int>> pending; // node, op
   };

   struct Reply
   {
      enum Result { ok, fail, error} result = error;
      int state = 0;             // 0 ok, 1 rollback, 2 timeout, 3 error
      long user = 0;
      bool uncertain = false;    // what is completed might still be in progress elsewhere
      xp::Data data;
   };

   struct Context
   {
      std::vector< Local> stack;
      long control = 0;
      std::map< int, int> descriptors; // descriptor -> op
      std::map< int, Reply> replies;   // op -> what will be replied
      std::map< int, std::pair< std::string, int>> xids; // op of suspend -> bqual+gtrid, transaction
      bool client = false;
      bool registered = false;     // dynamic resource, with no transaction

      Local* current()
      {
         if( stack.empty() || stack.back().suspended || stack.back().transaction < 0)
            return nullptr;
         return &stack.back();
      }
   };

   struct Model
   {
      pbt::Source& source;
      xp::Shared& shared;
      rm::Shared& resources;
      Program& program;
      std::vector< Transaction> transactions;
      bool exact = true;       // no planned failure of a resource
      std::map< std::pair< int, int>, xp::Entry*> entries;
      int seen = 0;
      long checks = 0;
      long depth_joined = 0;
      std::map< std::string, long> counts;

      void collect()
      {
         auto count = shared.entries.load();
         for( int index = seen; index < count; ++index)
         {
            auto& entry = shared.entry[ index];
            if( entry.ready.load())
               entries[ { entry.node, entry.op}] = &entry;
         }
         // the first that is not ready
         while( seen < count && shared.entry[ seen].ready.load())
            ++seen;
      }

      xp::Entry* entry( int node, int op, bool wait)
      {
         const auto until = now_ms() + 8000;
         for( ;;)
         {
            collect();
            if( auto found = entries.find( { node, op}); found != entries.end())
               return found->second;
            if( ! wait || now_ms() > until)
               return nullptr;
            ::usleep( 500);
         }
      }

      int planned_failures( int pid, const std::string& gtrid)
      {
         int result = 0;
         auto count = std::min< int>( resources.entries.load(), std::size( resources.entry));
         for( int index = 0; index < count; ++index)
         {
            auto& entry = resources.entry[ index];
            if( entry.ready.load() != 2 || entry.code == XA_OK || entry.wrong)
               continue;
            if( ( ! pid || entry.pid == pid) && ( gtrid.empty() || entry.gtrid() == gtrid))
               ++result;
         }
         return result;
      }

      template< typename... Ts>
      void check( bool ok, int node, int op, const Ts&... ts)
      {
         ++checks;
         if( ! ok)
            pbt::fail( "node ", node, " op ", op, " (", op >= 0 ? describe( shared.node[ node].ops[ op]) : std::string{ op == -1 ? "begin" : "end"}, "): ", ts...);
      }

      Local begin( const xp::Entry& entry, int node, int op)
      {
         Local local;
         local.transaction = int( transactions.size());
         local.owner = true;
         local.bqual = entry.bqual();
         transactions.push_back( Transaction{ int( transactions.size()), entry.gtrid()});
         check( entry.transaction && entry.gtrid_size > 0, node, op, "in a new transaction, but not in transaction mode");
         for( auto& other : transactions)
            if( other.id != local.transaction)
               check( other.gtrid != entry.gtrid(), node, op, "(-> ", entry.result, ") the global transaction id of another transaction");
         return local;
      }

      void compare_transaction( Context& context, const xp::Entry& entry, int node, int op)
      {
         auto current = context.current();
         check( bool( entry.transaction) == bool( current), node, op, "(-> ", entry.result, ", exact ", exact, ") tx_info: ", entry.transaction ? "in" : "not in", " transaction mode, expected ", current ? "in" : "not in");
         if( ! current)
            return;
         check( entry.gtrid() == transactions.at( current->transaction).gtrid, node, op, "tx_info: another global transaction");
         check( entry.bqual() == current->bqual, node, op, "tx_info: another branch");
         // a resource could not suspend or resume it
         if( ! exact && entry.state == 2 && planned_failures( entry.pid, entry.gtrid()))
            current->state = 2;
         check( entry.state == current->state, node, op, "tx_info: transaction state ", entry.state, ", expected ", current->state);
      }

      void outcome( Transaction& transaction, Transaction::Outcome value)
      {
         transaction.outcome = value;
         transaction.closed = true;
      }

      //! consumes the invocation's transactions
      int finalize( Context& context, bool commit, int node)
      {
         int result = 0;
         bool failed = false;
         auto worst = [&]( int value){ result = std::max( result, value);};
         for( auto& local : context.stack)
            if( ! local.pending.empty() && local.transaction >= 0)
            {
               worst( 3);
               local.state = 2;
               racy( local);
            }
         for( auto& local : context.stack)
            if( local.transaction >= 0 && local.owner)
            {
               auto& transaction = transactions.at( local.transaction);
               if( commit && local.state == 0)
                  outcome( transaction, Transaction::committed);
               else
                  outcome( transaction, Transaction::rolledback);
               // success, though the transaction is rolled back
               if( commit)
                  worst( local.state == 1 ? 2 : local.state == 2 ? 1 : 0);
            }
         for( auto& local : context.stack)
            if( local.transaction >= 0 && ! local.owner)
            {
               if( local.state == 1) worst( 2);
               if( local.state == 2) worst( 1);
               if( ! commit && result == 0)
                  worst( 1);
            }
         if( failed)
            worst( 3);
         uncertain = std::any_of( context.stack.begin(), context.stack.end(), [&]( auto& local)
         {
            return local.transaction >= 0 && local.owner && transactions.at( local.transaction).racy;
         });
         context.stack.clear();
         return result;
      }

      //! a transaction is completed while calls in it are pending
      void racy( Local& local)
      {
         for( auto& [ node, op] : local.pending)
         {
            const auto callee = shared.node[ node].ops[ op].node;
            bool settled = false;
            for( int index = op + 1; index < shared.node[ node].count; ++index)
               settled = settled || ( shared.node[ node].ops[ index].kind == xp::k_settle && shared.node[ node].ops[ index].node == callee);
            // what it forwards to is still in progress when it's done
            if( ! settled || shared.node[ callee].forward >= 0)
               transactions.at( local.transaction).racy = true;
            // the callee might itself have such
            if( local.pending.size())
               counts[ "completed with pending calls"]++;
         }
      }

      //! the invocation of a service
      Reply invoke( int node, const Call& call, const Local* caller, const xp::Data& request, bool no_reply, bool forwarded)
      {
         auto& self = shared.node[ node];
         auto first = entry( node, -1, true);
         if( ! first)
         {
            if( ! exact)
            {
               // the join of a resource failed
               Reply reply;
               reply.state = 1;
               return reply;
            }
            const auto what = cat( "node ", node, ": the service ", service_names[ call.mode], '_', call.server, " is called, but not invoked");
            // unless the transaction is completed before it has joined
            if( ! caller || caller->transaction < 0 || ! transactions.at( caller->transaction).async)
               pbt::fail( what);
            missing.push_back( { caller->transaction, what});
            Reply reply;
            reply.state = 1;
            return reply;
         }
         auto last = entry( node, -2, true);
         pbt::require( last, cat( "node ", node, ": the service does not get to its end"));

         // the request
         const auto content = xp::content( request);
         check( std::string{ first->type} == ( request.type == xp::t_string ? "CSTRING" : "X_OCTET"), node, -1, "type of the request: '", first->type, "'");
         check( first->size == request.size && first->hash == xp::hash( content.data(), content.size()), node, -1, "data of the request differs, size: ", first->size, ", expected: ", request.size);
         check( std::string{ first->service} == cat( service_names[ call.mode], '_', call.server), node, -1, "invoked as '", first->service, "'");
         check( bool( first->flags & F_noreply) == no_reply, node, -1, "the no reply flag of the invocation");
         check( ! ( first->flags & F_conv), node, -1, "the conversation flag of a call");

         // the transaction
         Context context;
         const bool joins = caller && ( call.mode == s_auto || call.mode == s_join || call.mode == s_branch);
         if( joins)
         {
            auto& transaction = transactions.at( caller->transaction);
            Local local;
            local.transaction = caller->transaction;
            local.bqual = first->bqual();
            check( first->transaction, node, -1, "called in a transaction, but not in it");
            check( first->gtrid() == transaction.gtrid, node, -1, "in another global transaction than the caller's");
            if( call.mode == s_branch)
               check( first->bqual() != caller->bqual, node, -1, "not in a branch of its own");
            else
               check( first->bqual() == caller->bqual, node, -1, "not in the branch of the caller");
            context.stack.push_back( local);
            counts[ "joined"]++;
         }
         else if( call.mode == s_atomic || call.mode == s_auto || call.mode == s_branch)
         {
            context.stack.push_back( begin( *first, node, -1));
            counts[ "own transaction"]++;
         }
         else
         {
            context.stack.push_back( Local{});
            counts[ "outside"]++;
         }
         check( bool( first->flags & F_tran) == bool( context.current()), node, -1, "the transaction flag of the invocation");
         compare_transaction( context, *first, node, -1);

         run( node, context);

         Reply reply;
         reply.user = self.code;
         reply.data = self.reply;
         switch( self.finish)
         {
            case xp::f_success:
               reply.state = finalize( context, true, node);
               reply.uncertain = uncertain;
               reply.result = reply.state ? Reply::error : Reply::ok;
               break;
            case xp::f_fail:
               reply.state = finalize( context, false, node);
               reply.uncertain = uncertain;
               reply.result = Reply::fail;
               break;
            case xp::f_nothing:
            case xp::f_throw:
               reply.state = finalize( context, false, node);
               reply.uncertain = uncertain;
               reply.result = Reply::error;
               break;
            case xp::f_kill:
            {
               for( auto& local : context.stack)
                  if( local.transaction >= 0)
                  {
                     transactions.at( local.transaction).killed = true;
                     racy( local);
                     if( local.owner)
                     {
                        transactions.at( local.transaction).abandoned = true;
                        outcome( transactions.at( local.transaction), Transaction::rolledback);
                     }
                  }
               reply.state = 1;
               reply.result = Reply::error;
               break;
            }
            case xp::f_forward:
            {
               bool owned = false;
               bool bad = false;
               for( auto& local : context.stack)
               {
                  owned = owned || ( local.transaction >= 0 && local.owner);
                  bad = bad || ( local.transaction >= 0 && ( local.state != 0 || ! local.pending.empty()));
               }
               if( owned || bad || self.forward < 0)
               {
                  reply.state = finalize( context, false, node);
               reply.uncertain = uncertain;
                  reply.result = Reply::error;
                  if( self.forward >= 0)
                  {
                     check( ! entry( self.forward, -1, false), node, -2, "forwarded, with transactions in progress");
                  }
                  break;
               }
               counts[ "forwarded"]++;
               finalize( context, true, node);
               return invoke( self.forward, program.invoked.at( self.forward), caller, self.reply, no_reply, true);
            }
         }
         return reply;
      }

      void received( Context& context, int node, int op, int call_op)
      {
         auto& reply = context.replies.at( call_op);
         if( reply.uncertain && reply.result != Reply::error)
            if( auto logged = entry( node, op, false); logged && logged->result == -1 && logged->error == E_svcerr)
               throw Stop{};
         for( auto& local : context.stack)
            if( local.pending.erase( { node, call_op}))
            {
               long state = reply.state == 0 ? 0 : reply.state == 2 ? 1 : 2;
               local.state = std::max( local.state, state);
            }
      }

      void compare_reply( const xp::Entry& entry, const Reply& reply, int node, int op)
      {
         auto& self = shared.node[ node].ops[ op];
         const bool null = reply.data.type == xp::t_null;
         const bool same = ! null && reply.data.type == self.output;
         switch( reply.result)
         {
            case Reply::error:
               check( entry.result == -1 && entry.error == E_svcerr, node, op, "-> ", entry.result, " tperrno ", entry.error, ", expected TPESVCERR");
               return;
            case Reply::fail:
               check( entry.result == -1 && entry.error == E_svcfail, node, op, "-> ", entry.result, " tperrno ", entry.error, ", expected TPESVCFAIL");
               break;
            case Reply::ok:
               if( ( self.flags & F_nochange) && ! same)
               {
                  check( entry.result == -1 && entry.error == E_otype, node, op, "-> ", entry.result, " tperrno ", entry.error, ", expected TPEOTYPE");
                  return;
               }
               check( entry.result == 0 && entry.error == 0, node, op, "-> ", entry.result, " tperrno ", entry.error, ", expected ok");
               break;
         }
         check( entry.user == reply.user, node, op, "tpurcode ", entry.user, ", expected ", reply.user);
         const std::string type = null ? "" : reply.data.type == xp::t_string ? "CSTRING" : "X_OCTET";
         const auto content = null ? std::string{} : xp::content( reply.data);
         check( type == entry.type, node, op, "type of the reply '", entry.type, "', expected '", type, "'");
         check( entry.size == long( content.size()), node, op, "size of the reply ", entry.size, ", expected ", content.size());
         check( null || entry.hash == xp::hash( content.data(), content.size()), node, op, "data of the reply differs");
      }

      //! the transaction a call is in
      const Local* associated( Context& context, long flags)
      {
         auto current = context.current();
         if( ! current || ( flags & F_notran))
            return nullptr;
         return current;
      }

      void run( int node, Context& context)
      {
         auto& self = shared.node[ node];
         for( int index = 0; index < self.count; ++index)
         {
            auto& op = self.ops[ index];
            auto found = entry( node, index, true);
            pbt::require( found, cat( "node ", node, " op ", index, ": ", describe( op), ": does not return"));
            auto& logged = *found;
            step( node, index, op, logged, context);
            if( exact || context.client)
               compare_transaction( context, logged, node, index);
         }
      }

      void expect( const xp::Entry& entry, long value, int node, int op)
      {
         check( entry.result == value, node, op, "-> ", entry.result, ", expected ", value);
      }

      void complete( Context& context, const xp::Entry& entry, int node, int index, bool commit);

      void step( int node, int index, xp::Op& op, xp::Entry& logged, Context& context)
      {
         auto current = context.current();
         switch( op.kind)
         {
            case xp::k_begin:
               if( current && context.control != TX_stacked)
                  return expect( logged, TX_protocol, node, index);
               if( ! current && context.registered)
                  return expect( logged, TX_outside, node, index);
               if( ! exact && logged.result != TX_ok)
               {
                  // a resource failed, checked with the invariants
                  return;
               }
               expect( logged, TX_ok, node, index);
               context.stack.push_back( begin( logged, node, index));
               counts[ "begun"]++;
               if( current)
                  counts[ "stacked"]++;
               return;
            case xp::k_commit:
               if( ! current || ! current->owner || current->state != 0 || ! current->pending.empty())
                  return expect( logged, TX_protocol, node, index);
               return complete( context, logged, node, index, true);
            case xp::k_rollback:
               if( ! current || ! current->owner)
                  return expect( logged, TX_protocol, node, index);
               return complete( context, logged, node, index, false);
            case xp::k_suspend:
               if( op.value)
                  return expect( logged, TX_einval, node, index);
               if( ! current)
                  return expect( logged, TX_protocol, node, index);
               if( ! exact && logged.result != TX_ok)
                  return;
               expect( logged, TX_ok, node, index);
               context.xids[ index] = { current->bqual, current->transaction};
               current->suspended = true;
               counts[ "suspended"]++;
               return;
            case xp::k_resume:
            {
               auto xid = op.reference < 0 ? context.xids.end() : context.xids.find( op.reference);
               if( op.value || xid == context.xids.end())
                  return expect( logged, TX_einval, node, index);
               if( current)
                  return expect( logged, TX_protocol, node, index);
               if( context.registered)
                  return expect( logged, TX_outside, node, index);
               auto local = std::find_if( context.stack.begin(), context.stack.end(), [&]( auto& local)
               {
                  return local.transaction == xid->second.second && local.bqual == xid->second.first;
               });
               if( local == context.stack.end())
                  return expect( logged, TX_einval, node, index);
               if( ! local->suspended)
                  return expect( logged, TX_protocol, node, index);
               expect( logged, TX_ok, node, index);
               local->suspended = false;
               std::rotate( context.stack.begin(), std::next( local), context.stack.end());
               counts[ "resumed"]++;
               return;
            }
            case xp::k_control:
               if( op.value != 0 && op.value != 1 && op.value != TX_stacked)
                  return expect( logged, TX_einval, node, index);
               expect( logged, TX_ok, node, index);
               context.control = op.value;
               return;
            case xp::k_return:
               return expect( logged, op.value < 0 || op.value > 1 ? TX_einval : TX_ok, node, index);
            case xp::k_timeout:
               return expect( logged, op.value < 0 ? TX_einval : TX_ok, node, index);
            case xp::k_dynamic:
               // the association is checked by the resource
               check( logged.result == 100 || ( logged.result >= 0 && logged.result <= 2), node, index, "ax_reg -> ", logged.result);
               if( ! current && logged.result != 100)
                  context.registered = true;
               return;
            case xp::k_dynamic_done:
               if( current || ! context.registered)
                  return check( logged.result < 0, node, index, "ax_unreg -> ", logged.result);
               expect( logged, 0, node, index);
               context.registered = false;
               return;
            case xp::k_call:
            case xp::k_acall:
            {
               const bool asynchronous = op.kind == xp::k_acall;
               const auto valid = asynchronous ? F_notran | F_noreply | F_noblock | F_notime | F_sigrstrt : F_notran | F_nochange | F_noblock | F_notime | F_sigrstrt;
               auto error = [&]( int code)
               {
                  check( logged.result == -1 && logged.error == code, node, index, "-> ", logged.result, " tperrno ", logged.error, ", expected tperrno ", code);
               };
               if( op.flags & ~valid)
                  return error( E_inval);
               auto local = associated( context, op.flags);
               if( asynchronous && ( op.flags & F_noreply) && local)
                  return error( E_inval);
               if( op.node < 0)
                  return error( E_noent);

               Local caller = local ? *local : Local{};
               const bool no_reply = op.flags & F_noreply;
               if( local && asynchronous)
               {
                  transactions.at( local->transaction).async = true;
                  context.stack.back().pending.insert( { node, index});
               }
               if( asynchronous)
               {
                  check( no_reply ? logged.result == 0 : logged.result > 0, node, index, "-> ", logged.result, " tperrno ", logged.error);
                  if( ! no_reply)
                  {
                     check( ! context.descriptors.count( logged.descriptor), node, index, "descriptor ", logged.descriptor, " is in use");
                     context.descriptors[ logged.descriptor] = index;
                  }
               }
               else if( local)
                  context.stack.back().pending.insert( { node, index});

               auto reply = invoke( op.node, program.invoked.at( op.node), local ? &caller : nullptr, op.data, no_reply, false);
               counts[ no_reply ? "no reply" : asynchronous ? "asynchronous" : "synchronous"]++;
               context.replies[ index] = reply;
               if( ! asynchronous)
               {
                  received( context, node, index, index);
                  compare_reply( logged, reply, node, index);
               }
               return;
            }
            case xp::k_getrply:
            case xp::k_getany:
            {
               if( logged.result == -1 && logged.error == E_block)
               {
                  check( op.flags & F_noblock, node, index, "TPEBLOCK");
                  if( op.kind == xp::k_getrply)
                  {
                     auto descriptor = entry( node, op.reference, false)->descriptor;
                     check( context.descriptors.count( descriptor), node, index, "TPEBLOCK for a descriptor that is not active");
                  }
                  return;
               }
               int descriptor = op.kind == xp::k_getrply ? entry( node, op.reference, false)->descriptor : logged.descriptor;
               auto active = context.descriptors.find( descriptor);
               if( op.kind == xp::k_getrply && active == context.descriptors.end())
                  return check( logged.result == -1 && logged.error == E_baddesc, node, index, "-> ", logged.result, " tperrno ", logged.error, ", expected TPEBADDESC");
               if( op.kind == xp::k_getany && logged.result == -1 && ( logged.error == E_svcerr || logged.error == E_otype))
               {
                  // which one isn't told: one that fits
                  for( auto& [ candidate, call] : context.descriptors)
                  {
                     auto& reply = context.replies.at( call);
                     const bool fits = logged.error == E_svcerr ? reply.result == Reply::error
                        : reply.result == Reply::ok && ( op.flags & F_nochange) && reply.data.type != op.output;
                     if( fits)
                     {
                        if( std::count_if( context.descriptors.begin(), context.descriptors.end(), [&]( auto& other)
                           { return context.replies.at( other.second).result == context.replies.at( call).result;}) > 1)
                           throw Stop{};
                        received( context, node, index, call);
                        context.descriptors.erase( candidate);
                        return;
                     }
                  }
                  check( false, node, index, "-> tperrno ", logged.error, " with no such reply outstanding");
               }
               check( active != context.descriptors.end(), node, index, "-> ", logged.result, " tperrno ", logged.error, " descriptor ", descriptor, ", that is not active");
               const auto call = active->second;
               check( logged.descriptor == descriptor, node, index, "descriptor ", logged.descriptor, ", expected ", descriptor);
               context.descriptors.erase( active);
               received( context, node, index, call);
               compare_reply( logged, context.replies.at( call), node, index);
               return;
            }
            case xp::k_cancel:
            {
               auto descriptor = entry( node, op.reference, false)->descriptor;
               auto active = context.descriptors.find( descriptor);
               if( active == context.descriptors.end())
                  return check( logged.result == -1 && logged.error == E_baddesc, node, index, "-> ", logged.result, " tperrno ", logged.error, ", expected TPEBADDESC");
               for( auto& local : context.stack)
                  if( local.state == 0 && local.pending.count( { node, active->second}))
                     return check( logged.result == -1 && logged.error == E_tran, node, index, "-> ", logged.result, " tperrno ", logged.error, ", expected TPETRAN");
               check( logged.result == 0, node, index, "-> ", logged.result, " tperrno ", logged.error);
               context.descriptors.erase( active);
               counts[ "cancelled"]++;
               return;
            }
         }
      }

      std::vector< std::pair< int, std::string>> missing;

      bool uncertain = false;
      struct Stop {}; // what happens from here is not determined

      bool planned( const std::string& gtrid, std::initializer_list< int> operations)
      {
         auto count = std::min< int>( resources.entries.load(), std::size( resources.entry));
         for( int index = 0; index < count; ++index)
         {
            auto& entry = resources.entry[ index];
            if( entry.ready.load() == 2 && entry.code != XA_OK && ! entry.wrong && entry.gtrid() == gtrid)
               for( auto operation : operations)
                  if( entry.operation == operation)
                     return true;
         }
         return false;
      }
   };

   void Model::complete( Context& context, const xp::Entry& logged, int node, int index, bool commit)
   {
      auto local = context.stack.back();
      context.stack.pop_back();
      auto& transaction = transactions.at( local.transaction);
      if( ! local.pending.empty())
         racy( local);
      auto result = logged.result;

      // chained
      bool begun = context.control == 1;
      if( context.control == 1)
      {
         if( ! exact && result <= TX_no_begin)
         {
            result -= TX_no_begin;
            begun = false;
         }
         else if( ! exact && ! logged.transaction)
            begun = false;
      }

      if( exact)
      {
         // a resource might not be able to roll back what is in progress
         if( ! transaction.racy)
            expect( logged, TX_ok, node, index);
         outcome( transaction, commit ? Transaction::committed : Transaction::rolledback);
      }
      else if( commit)
      {
         const bool failures = planned_failures( 0, transaction.gtrid) > 0;
         check( failures || ! begun || result == TX_ok, node, index, "-> ", logged.result, ", but no resource failed");
         outcome( transaction, result == TX_ok && begun == ( context.control == 1) ? Transaction::committed : result == TX_rollback ? Transaction::rolledback : Transaction::unknown);
      }
      else
         outcome( transaction, Transaction::rolledback);
      counts[ commit ? "tx_commit" : "tx_rollback"]++;

      if( begun)
      {
         auto& control = context.control;
         context.stack.push_back( begin( logged, node, index));
         ( void)control;
         counts[ "chained"]++;
      }
   }

   // ---------------------------------------------------------------- a case

   void judge_resources( Model& model, rm::Shared& resources, pbt::Source& source)
   {
      // let it settle
      auto leaked = [&]()
      {
         std::string result;
         for( auto& branch : resources.branch)
         {
            if( ! branch.rm)
               continue;
            for( auto& transaction : model.transactions)
               if( branch.size >= int( transaction.gtrid.size()) && std::memcmp( branch.xid, transaction.gtrid.data(), transaction.gtrid.size()) == 0)
               {
                  if( transaction.racy || ! transaction.closed)
                     continue;
                  // the resource itself rolls back when its client is gone
                  if( transaction.abandoned && ! branch.prepared && std::any_of( std::begin( branch.associations), std::end( branch.associations), []( auto& association){ return association.pid;}))
                     continue;
                  // the resource itself does not let it be completed
                  if( model.planned( transaction.gtrid, { rm::op_commit, rm::op_rollback, rm::op_prepare}))
                     continue;
                  result += cat( " resource ", branch.rm, " transaction ", transaction.id, branch.prepared ? " prepared" : "", ';');
               }
         }
         return result;
      };
      const auto until = now_ms() + 3000;
      while( ! leaked().empty() && now_ms() < until)
         ::usleep( 1000);

      const auto count = std::min< int>( resources.entries.load(), std::size( resources.entry));
      struct Result { int committed = 0; int rolledback = 0; int failed = 0; int bad = 0; int branches = 0;};
      std::map< int, Result> results;
      auto find = [&]( const std::string& gtrid) -> Transaction*
      {
         for( auto& transaction : model.transactions)
            if( transaction.gtrid == gtrid)
               return &transaction;
         return nullptr;
      };
      std::string failure;
      for( int index = 0; index < count; ++index)
      {
         auto& entry = resources.entry[ index];
         if( entry.ready.load() != 2 || ! entry.gtrid_size)
            continue;
         auto transaction = find( entry.gtrid());
         if( std::getenv( "VERIF_VERBOSE"))
            source.log( "   rm ", entry.rm, ' ', rm::name( entry.operation), " transaction ", transaction ? transaction->id : -1, " bqual ", int( static_cast< unsigned char>( entry.xid[ entry.gtrid_size])), " pid ", entry.pid, " flags 0x", std::hex, entry.flags, std::dec, " -> ", entry.code, ' ', rm::wrongs[ entry.wrong]);
         if( ! transaction)
            continue;
         auto& result = results[ transaction->id];
         const bool rolled = entry.code >= XA_RBBASE && entry.code <= XA_RBEND;
         switch( entry.operation)
         {
            case rm::op_commit:
               if( entry.code == XA_OK) result.committed++;
               else if( rolled) result.rolledback++;
               else if( ! entry.wrong) result.failed++;
               break;
            case rm::op_rollback:
               if( entry.code == XA_OK || rolled) result.rolledback++;
               else if( ! entry.wrong) result.failed++;
               break;
            case rm::op_prepare:
               if( rolled) result.rolledback++;
               break;
            case rm::op_start:
               if( entry.code == XA_OK) result.branches++;
               break;
         }
         if( entry.wrong && ! transaction->racy && ! transaction->killed)
         {
            const std::string what = rm::wrongs[ entry.wrong];
            const bool concurrent = what == "join of an unknown branch" || what == "start of a branch that is known";
            // what a failed start leaves
            const bool harmless = what == "rollback of an unknown branch" || what == "end of what is not started" || what == "prepare of an unknown branch" || what == "suspend of what is not active";
            if( concurrent && transaction->async)
               continue;
            if( ! model.exact && ( harmless || what == "completed twice"))
               continue;
            if( failure.empty())
               failure = cat( "resource ", entry.rm, " transaction ", transaction->id, ": ", what, " (", rm::name( entry.operation), ", flags 0x", std::hex, entry.flags, std::dec, ", pid ", entry.pid, ")");
         }
      }
      if( ! failure.empty())
         pbt::fail( failure);

      for( auto& transaction : model.transactions)
      {
         auto& result = results[ transaction.id];
         if( transaction.racy)
            continue;
         if( result.committed && result.rolledback && ! result.failed && ! model.planned( transaction.gtrid, { rm::op_commit, rm::op_rollback}))
            pbt::fail( "transaction ", transaction.id, ": ", result.committed, " branches are committed and ", result.rolledback, " rolled back");
         if( transaction.outcome == Transaction::committed && result.rolledback)
            pbt::fail( "transaction ", transaction.id, ": committed, but rolled back at a resource");
         if( transaction.outcome == Transaction::rolledback && result.committed)
            pbt::fail( "transaction ", transaction.id, ": rolled back, but committed at a resource");
      }
      if( auto left = leaked(); ! left.empty())
         pbt::fail( "branches that are neither committed nor rolled back:", left);
   }

   std::string configuration()
   {
      const std::string root = std::getenv( "CASUAL_MAKE_SOURCE_ROOT");
      return cat( R"(
system:
   resources:
      -  key: verif-rm
         server: )", root, R"(/harness/bin/rm_proxy
         xa_struct_name: verif_xa_switch_static
)");
   }

   void property( pbt::Source& source)
   {
      const auto scratch = source.scratch;
      auto resources = rm::map( scratch + "/rm", true);
      auto shared = xp::map( scratch + "/xp", true);
      pbt::require( resources && shared, "mmap");
      ::setenv( "VERIF_RM", ( scratch + "/rm").c_str(), 1);
      ::setenv( "VERIF_XP", ( scratch + "/xp").c_str(), 1);
      resources->strict = 1;

      const bool with_transactions = mode == "tx" || mode == "service";
      const bool with_services = mode != "tx";
      auto subset = [&]( bool dynamic)
      {
         std::vector< std::string> result;
         if( with_transactions)
            for( auto name : { "a", "b"})
               if( source.chance( 70))
                  result.push_back( name);
         if( dynamic && source.chance( 50))
            result.push_back( "d");
         return result;
      };
      const auto client = subset( mode == "tx");
      Program program{ *shared, source};
      program.dynamic = std::find( client.begin(), client.end(), "d") != client.end();
      program.plans = mode == "tx" && source.chance( 50);
      program.instances = source.uniform( 2, 4);
      if( with_services && source.chance( 50))
         program.servers.push_back( 'q');

      std::string servers;
      std::string text;
      for( auto server : program.servers)
      {
         if( ! with_services)
            break;
         std::string arguments;
         for( auto& name : subset( false))
            arguments += cat( ", ", name);
         servers += cat( "      - path: ", std::getenv( "CASUAL_MAKE_SOURCE_ROOT"), "/harness/bin/xatmi_server\n        alias: server_", server, "\n        arguments: [ ", server, arguments, "]\n        instances: ", program.instances, 
            "\n        restart: true\n        memberships: [ user]\n");
         text += cat( " server ", server, arguments, ';');
      }
      std::string configured = configuration();
      if( with_transactions)
      {
         configured += cat( "domain:\n   transaction:\n      log: \"", scratch, "/log.db\"\n      resources:\n");
         for( auto name : { "a", "b", "d"})
            configured += cat( "         - key: verif-rm\n           name: ", name, "\n           instances: 1\n");
      }
      std::string names;
      for( auto& name : client)
         names += cat( ' ', name);
      source.log( "client resources:", names, ';', text, " instances ", program.instances);

      auto domain = std::make_unique< domain::unittest::Manager>( std::vector< std::string_view>{ sys::base( "X", servers), configured});

      auto& context = common::transaction::context();
      {
         std::vector< common::transaction::resource::Link> links;
         for( auto& name : client)
            links.emplace_back( "verif-rm", name, name == "d" ? &verif_xa_switch_dynamic : &verif_xa_switch_static);
         context.configure( std::move( links));
      }

      Model model{ source, *shared, *resources, program};
      bool stopped = false;
      source.repeat( 1, mode == "tx" ? 2 : 4, 2, [&]( auto)
      {
         if( program.next + 10 > xp::max_nodes || stopped)
            return;
         program.quota = 8;
         program.busy.clear();
         const auto root = generate_node( program, 0, false);
         describe( source, *shared, root, "");
         if( resources->plans.load() || program.plan_count)
            model.exact = false;

         xp::interpret( root, -1);

         Context state;
         state.client = true;
         try
         {
            model.run( root, state);
         }
         catch( const Model::Stop&)
         {
            stopped = true;
         }

         // leave nothing behind
         if( ! context.current())
            rm_done( 3);
         for( int round = 0; round < 30; ++round)
         {
            context.set_transaction_control( common::transaction::Control::unchained);
            if( context.current())
               context.rollback();
            else
            {
               bool resumed = false;
               for( int index = 0; index < shared->node[ root].count && ! resumed; ++index)
                  if( auto entry = model.entry( root, index, false))
                     if( entry->result == TX_ok && entry->gtrid_size == 0 && index > 0 && shared->node[ root].ops[ index].kind == xp::k_suspend)
                        if( auto before = model.entry( root, index - 1, false); before && before->gtrid_size)
                        {
                           XID xid{};
                           xid.formatID = 42;
                           xid.gtrid_length = before->gtrid_size;
                           xid.bqual_length = before->bqual_size;
                           std::memcpy( xid.data, before->xid, sizeof( before->xid));
                           resumed = context.resume( &xid) == common::code::tx::ok;
                        }
               if( ! resumed)
                  break;
            }
         }
         context.set_transaction_timeout( {});
         context.set_commit_return( common::transaction::commit::Return::completed);
         if( ! context.empty() && ! stopped)
            pbt::fail( "transactions are left that can't be completed");
         for( auto& local : state.stack)
            if( local.transaction >= 0)
            {
               if( ! local.pending.empty())
                  model.racy( local);
               model.outcome( model.transactions.at( local.transaction), Transaction::rolledback);
            }
         for( auto& [ transaction, what] : model.missing)
            if( ! model.transactions.at( transaction).racy)
               pbt::fail( what);
         for( auto& [ descriptor, op] : state.descriptors)
            ::tpcancel( descriptor);
      });

      if( ! stopped)
         judge_resources( model, *resources, source);
      else
         source.label( "stopped");

      for( auto& [ name, count] : model.counts)
         source.label( name);
      if( ! model.exact)
         source.label( "resource failures");
      long completed = 0;
      for( auto& transaction : model.transactions)
         completed += transaction.outcome == Transaction::committed;
      auto& counts = model.counts;
      if( mode == "tx" ? completed > 0 && counts[ "tx_rollback"] > 0 : mode == "service" ? counts[ "joined"] > 0 && counts[ "tx_commit"] + counts[ "tx_rollback"] > 0 
         : counts[ "asynchronous"] > 1 && counts[ "synchronous"] > 0)
         source.nontrivial();

      domain.reset();
   }
}

int main( int argc, char** argv)
{
   for( int index = 1; index + 1 < argc; ++index)
      if( std::string_view{ argv[ index]} == "--mode")
         mode = argv[ index + 1];

   // what happened, for a case that hangs
   if( argc == 3 && std::string_view{ argv[ 1]} == "--dump")
   {
      auto shared = xp::map( argv[ 2], false);
      for( int index = 0; shared && index < shared->entries.load(); ++index)
      {
         auto& entry = shared->entry[ index];
         std::cout << entry.pid << ' ' << entry.node << '.' << entry.op << ( entry.ready.load() ? " " : " begun ") << ( entry.op >= 0 ? describe( shared->node[ entry.node].ops[ entry.op]) : "") 
            << " -> " << entry.result << " error " << entry.error << " descriptor " << entry.descriptor << " transaction " << entry.transaction << " state " << entry.state << " gtrid " << pbt::hash( entry.gtrid()) % 10000 << '\n';
      }
      auto path = std::string{ argv[ 2]};
      if( auto resources = rm::map( path.substr( 0, path.size() - 2) + "rm", false))
         for( int index = 0; index < resources->entries.load(); ++index)
         {
            auto& entry = resources->entry[ index];
            const char* names[] = { "open", "close", "start", "end", "prepare", "commit", "rollback", "recover", "forget"};
            std::cout << "rm " << entry.rm << " pid " << entry.pid << ' ' << names[ entry.operation] << " flags " << std::hex << entry.flags << std::dec << " -> " << entry.code << " wrong " << entry.wrong << " gtrid " << pbt::hash( entry.gtrid()) % 10000 << " bqual " << pbt::hash( entry.bqual()) % 10000 << " at " << entry.begin << '-' << entry.end << '\n';
         }
      return 0;
   }

   pbt::Options options;
   options.isolated = true;
   options.case_timeout = 60;
   options.quick_cap = 75;
   if( mode == "tx")
   {
      options.property = "T02";
      options.rule = "a case is one or two sequences of up to 24 TX calls in a process with up to two static and a dynamic resource, half of them with planned failures of the resources; "
         "non-trivial: at least one transaction committed and one rolled back";
   }
   else if( mode == "service")
   {
      options.property = "T03";
      options.rule = "a case is one to four trees of service invocations (up to 8 each) that begin, join, branch, suspend and complete transactions, with resources in client and servers; "
         "non-trivial: an invocation joined the caller's transaction, and the client completed a transaction";
   }
   else
   {
      options.property = "X01";
      options.rule = "a case is one to four trees of service invocations (up to 8 each), synchronous and asynchronous, with generated data, flags and ways to return; "
         "non-trivial: at least two asynchronous calls and one synchronous";
   }
   options.quick = 1000;
   options.thorough = 15000;
   options.assumptions = { "resource managers follow the XA specification"};
   return pbt::run( argc, argv, options, property);
}
