// Conversations between generated programs, against a model of the XATMI conversational
// interface (X02). The two sides of every conversation are generated jointly, so that no
// side waits for what the other doesn't do, and their logs are judged afterwards.
#include "sys.h"
#include "rm.h"
#include "xatmi_program.h"

#include <map>
#include <memory>
#include <xatmi.h>

namespace
{
   using namespace casual;
   using pbt::cat;

   enum : int { E_baddesc = 2, E_block = 3, E_inval = 4, E_noent = 6, E_proto = 9, E_svcerr = 10, E_otype = 18, E_event = 22};
   enum : long { F_noblock = 1, F_notran = 8, F_tran = 0x10, F_nochange = 0x100, F_conv = 0x400, F_sendonly = 0x800, F_recvonly = 0x1000};
   enum : long { EV_discon = 1, EV_svcerr = 2, EV_svcfail = 4, EV_svcsucc = 8, EV_sendonly = 0x20};
   enum : long { TX_ok = 0, TX_rollback = -2, TX_protocol = -5};

   enum Service : int { s_auto, s_join, s_atomic, s_none, s_branch};
   const char* service_names[] = { "auto", "join", "atomic", "none", "branch"};

   struct Conversation
   {
      int initiator;          // nodes
      int subordinate;
      int op;                 // of the initiator
      int mode = 0;           // Service
      bool refused = false;   // flags are wrong, or no such service
      bool no_transaction = false;
      // generation
      bool control = true;    // the initiator has it
      bool alive[ 2] = { true, true}; // sides that go on
      int pending[ 2] = {};   // to be received by the side
      std::vector< int> types[ 2]; // in flight to the side
   };

   struct Program
   {
      xp::Shared& shared;
      pbt::Source& source;
      int next = 0;
      int quota = 0;
      int kills = 0;
      // either large data, or services that are initiators. Processes that send a lot to each other in a circle wait for
      // each other forever, a known finding
      bool large = false;
      bool finished[ xp::max_nodes] = {};
      std::vector< Conversation> conversations;
      std::map< int, int> callers;  // leaf -> 

      int allocate()
      {
         auto result = next++;
         shared.node[ result] = xp::Node{};
         shared.node[ result].used = 1;
         return result;
      }

      xp::Data data( int header)
      {
         xp::Data data;
         data.type = source.chance( 30) ? xp::t_string : xp::t_octet;
         data.header = header;
         data.seed = source.draw( 1000);
         const auto floor = header < 0 ? 1 : 5;
         switch( large ? source.weighted( { 60, 25, 10, 5}) : 0)
         {
            case 0: data.size = source.uniform( floor, 64); break;
            case 1: data.size = source.uniform( floor, 3000); break;
            case 2: data.size = source.uniform( 7000, 70000); break;
            default: data.size = source.uniform( 70000, 400000); break;
         }
         return data;
      }

      bool room( int number, int count = 1) { return shared.node[ number].count + count + 22 <= xp::max_ops;}

      xp::Op& add( int number, int kind)
      {
         auto& node = shared.node[ number];
         auto& op = node.ops[ node.count++];
         op = xp::Op{};
         op.kind = kind;
         return op;
      }

      int number( const Conversation& conversation, int side) const { return side == 0 ? conversation.initiator : conversation.subordinate;}
      int reference( const Conversation& conversation, int side) const { return side == 0 ? conversation.op : -1;}

      void send( Conversation& conversation, int side, bool over)
      {
         auto& op = add( number( conversation, side), xp::k_send);
         op.reference = reference( conversation, side);
         if( source.chance( 88))
            op.data = data( -1);
         if( over)
            op.flags |= F_recvonly;
         if( source.chance( 8))
            op.flags |= F_noblock;
         ++conversation.pending[ 1 - side];
         conversation.types[ 1 - side].push_back( op.data.type);
         if( over)
            conversation.control = side != 0;
      }

      void receive( Conversation& conversation, int side)
      {
         auto& op = add( number( conversation, side), xp::k_recv);
         op.reference = reference( conversation, side);
         op.output = source.chance( 30) ? xp::t_string : xp::t_octet;
         if( source.chance( 15))
         {
            op.flags |= F_noblock;
            op.value = 1; // until there is something
         }
         if( source.chance( 10))
            op.flags |= F_nochange;
         if( conversation.pending[ side])
         {
            --conversation.pending[ side];
            // a type that is not the wanted is refused, and the message is gone. Not for the last one, where it's not specified
            conversation.types[ side].erase( conversation.types[ side].begin());
         }
         else
            op.flags &= ~F_nochange;
      }

      void open( int number)
      {
         const bool refused = source.chance( 8);
         if( ! refused && quota <= 0)
            return;
         Conversation conversation;
         conversation.initiator = number;
         conversation.refused = refused;
         conversation.subordinate = refused ? -1 : allocate();
         if( ! refused)
            --quota;
         auto& op = add( number, xp::k_connect);
         conversation.op = shared.node[ number].count - 1;
         conversation.control = source.chance( 60);
         conversation.mode = source.weighted( { 40, 20, 15, 15, 10});
         op.node = conversation.subordinate;
         op.data = data( refused ? -1 : conversation.subordinate);
         op.flags = conversation.control ? F_sendonly : F_recvonly;
         if( source.chance( 15))
         {
            op.flags |= F_notran;
            conversation.no_transaction = true;
         }
         std::snprintf( op.service, sizeof( op.service), "%s_p", service_names[ conversation.mode]);
         if( refused)
         {
            switch( source.draw( 3))
            {
               case 0: op.flags &= ~( F_sendonly | F_recvonly); break;
               case 1: op.flags |= F_sendonly | F_recvonly; break;
               default: std::snprintf( op.service, sizeof( op.service), "missing"); break;
            }
            conversation.alive[ 0] = conversation.alive[ 1] = false;
         }
         conversations.push_back( conversation);
      }

      void call( int number)
      {
         auto leaf = allocate();
         auto& target = shared.node[ leaf];
         target.reply = data( -1);
         target.code = source.draw( 100);
         target.finish = source.chance( 80) ? xp::f_success : xp::f_fail;
         auto& op = add( number, xp::k_call);
         op.node = leaf;
         op.data = data( leaf);
         op.flags = F_notran;
         std::snprintf( op.service, sizeof( op.service), "none_q");
         callers[ leaf] = number;
      }

      //! a node is done
      void finish( int number)
      {
         auto& node = shared.node[ number];
         finished[ number] = true;
         for( auto& conversation : conversations)
         {
            if( conversation.initiator == number)
               conversation.alive[ 0] = false;
            if( conversation.subordinate == number)
               conversation.alive[ 1] = false;
         }
         node.code = source.draw( 200);
         bool initiator = false;
         for( auto& conversation : conversations)
            initiator = initiator || ( conversation.initiator == number && ! conversation.refused);
         // the other side of what a killed process has initiated is not informed, a known finding
         node.finish = std::vector< int>{ xp::f_success, xp::f_fail, xp::f_nothing, xp::f_throw, xp::f_kill}[ source.weighted( { 60, 25, 5, 5, kills < 1 && ( ! initiator || std::getenv( "VERIF_X02_DEAD")) ? 5u : 0u})];
         if( node.finish == xp::f_kill)
            ++kills;
         if( source.chance( 80))
            node.reply = data( -1);
         // who hasn't control should not send, both might wait for the other to receive
         for( auto& conversation : conversations)
            if( conversation.subordinate == number && ( conversation.control || conversation.pending[ 1]))
               node.reply.size = std::min( node.reply.size, 2000l);
      }

      void disconnect( Conversation& conversation, int side)
      {
         auto& op = add( number( conversation, side), xp::k_discon);
         op.reference = reference( conversation, side);
         // the subordinate can't
         if( side == 0)
            conversation.alive[ 0] = false;
      }

      void step( int root)
      {
         // what can be done with the open conversations
         std::vector< int> open_ones;
         for( int index = 0; index < int( conversations.size()); ++index)
            if( ! conversations[ index].refused && ( conversations[ index].alive[ 0] || conversations[ index].alive[ 1]))
               open_ones.push_back( index);
         if( open_ones.empty() || source.chance( 12))
         {
            // a new one, from any live node
            std::vector< int> nodes{ root};
            for( auto index : open_ones)
               if( conversations[ index].alive[ 1] && ! large)
                  nodes.push_back( conversations[ index].subordinate);
            auto number = nodes[ source.draw( nodes.size())];
            if( room( number))
               open( number);
            return;
         }
         auto& conversation = conversations[ open_ones[ source.draw( open_ones.size())]];
         const int controls = conversation.control ? 0 : 1;
         auto able = [&]( int side){ return conversation.alive[ side] && room( number( conversation, side));};

         switch( source.weighted( { 40, 28, 5, 5, 5, 6, 6}))
         {
            case 0: // send
               if( able( controls) && ! conversation.pending[ controls])
                  send( conversation, controls, source.chance( 40));
               else if( able( controls))
                  receive( conversation, controls);
               break;
            case 1: // receive what is sent
               for( int side : { 0, 1})
                  if( able( side) && conversation.pending[ side])
                     receive( conversation, side);
                  else if( able( side) && ! conversation.alive[ 1 - side] && side != controls)
                  {
                     // the other side is gone
                     receive( conversation, side);
                     if( side == 0)
                        conversation.alive[ 0] = false;
                  }
               break;
            case 2: // what the state doesn't admit
            {
               const int side = source.draw( 2);
               if( ! able( side))
                  break;
               // the control may be on its way
               const bool has = side == controls && ! conversation.pending[ side];
               auto& op = add( number( conversation, side), has ? xp::k_recv : xp::k_send);
               op.reference = reference( conversation, side);
               if( ! has)
                  op.data = data( -1);
               break;
            }
            case 3:
            {
               const int side = source.draw( 2);
               if( able( side))
                  disconnect( conversation, side);
               break;
            }
            case 4:
            {
               const int number = source.chance( 50) ? conversation.initiator : conversation.subordinate;
               if( ! finished[ number] && room( number))
                  call( number);
               break;
            }
            case 5: // the service is done
               if( conversation.alive[ 1])
               {
                  auto side0 = able( 0);
                  auto settle = side0 && source.chance( 60);
                  auto number = conversation.subordinate;
                  auto initiator = conversation.initiator;
                  auto reference = conversation.op;
                  const bool control = conversation.control;
                  const int pending = conversation.pending[ 0];
                  finish( number);
                  if( ! side0 || ! conversation.alive[ 0])
                     break;
                  if( settle)
                  {
                     auto& op = add( initiator, xp::k_settle);
                     op.node = number;
                     if( control)
                     {
                        // eventually it's known
                        auto& op = add( initiator, xp::k_send);
                        op.reference = reference;
                        op.value = 1;
                        conversation.alive[ 0] = false;
                     }
                  }
                  if( ! control)
                  {
                     for( int index = 0; index < pending && room( initiator); ++index)
                        receive( conversation, 0);
                     auto& op = add( initiator, xp::k_recv);
                     op.reference = reference;
                     conversation.alive[ 0] = false;
                  }
               }
               break;
            default:
            {
               // a descriptor that isn't open
               const int number = source.chance( 50) ? conversation.initiator : conversation.subordinate;
               if( finished[ number] || ! room( number))
                  break;
               for( int index = 0; index < int( conversations.size()); ++index)
                  if( conversations[ index].initiator == number && ! conversations[ index].alive[ 0])
                  {
                     auto& op = add( number, std::vector< int>{ xp::k_send, xp::k_recv, xp::k_discon}[ source.draw( 3)]);
                     op.reference = conversations[ index].op;
                     // only what can't block
                     if( op.kind == xp::k_recv)
                        op.flags = F_noblock;
                     break;
                  }
               break;
            }
         }
      }

      int generate()
      {
         conversations.clear();
         callers.clear();
         quota = 4;
         large = source.boolean();
         kills = 0;
         const auto root = allocate();
         const bool transaction = source.chance( 50);
         if( transaction)
            add( root, xp::k_begin);
         open( root);
         source.repeat( 2, 60, 18, [&]( auto){ step( root);});

         // a service that has control and is waited for goes on to its end
         std::vector< int> order;
         for( auto& conversation : conversations)
            if( ! conversation.refused)
               order.push_back( conversation.subordinate);
         // end what is left: the initiators disconnect, or leave it open (services)
         for( auto& conversation : conversations)
         {
            if( conversation.refused || ! conversation.alive[ 0])
               continue;
            if( conversation.initiator == root || source.chance( 60))
               disconnect( conversation, 0);
         }
         for( auto& conversation : conversations)
            if( ! conversation.refused && conversation.initiator == root)
            {
               auto& op = add( root, xp::k_discon);
               op.reference = conversation.op;
            }
         for( auto number : order)
            if( ! finished[ number])
               finish( number);
         if( transaction)
         {
            if( source.chance( 75))
               add( root, xp::k_commit);
            add( root, xp::k_rollback);
         }
         for( auto number : order)
         {
            auto& op = add( root, xp::k_settle);
            op.node = number;
         }
         return root;
      }
   };

   // ---------------------------------------------------------------- the oracle

   enum Truth : int { no, yes, maybe};

   struct Oracle
   {
      Program& program;
      std::map< std::pair< int, int>, xp::Entry*> entries;
      std::map< std::string, long> counts;

      xp::Node& node( int number) { return program.shared.node[ number];}

      void read()
      {
         auto& shared = program.shared;
         for( int index = 0; index < shared.entries.load(); ++index)
         {
            auto& entry = shared.entry[ index];
            if( ! entry.ready.load())
               continue;
            auto& slot = entries[ { entry.node, entry.op}];
            if( slot && slot != &entry)
               pbt::fail( "node ", entry.node, " op ", entry.op, ": a service is invoked twice");
            slot = &entry;
         }
      }

      xp::Entry* find( int number, int op)
      {
         auto found = entries.find( { number, op});
         return found == entries.end() ? nullptr : found->second;
      }

      std::string where( int number, int op)
      {
         static const char* names[] = { "tpconnect", "tpsend", "tprecv", "tpdiscon"};
         auto kind = op >= 0 ? node( number).ops[ op].kind : -1;
         return cat( "node ", number, " op ", op, " (", kind >= xp::k_connect && kind <= xp::k_discon ? names[ kind - xp::k_connect] : kind >= 0 ? xp::name( kind) : "begins", "): ");
      }

      template< typename... Ts>
      void check( bool condition, int number, int op, const Ts&... ts)
      {
         if( ! condition)
            pbt::fail( where( number, op), ts...);
      }

      //! the process of the service is killed, later or in the conversation
      bool dead( const Conversation& conversation)
      {
         auto begins = find( conversation.subordinate, -1);
         if( begins)
            for( auto& other : program.conversations)
               if( ! other.refused && node( other.subordinate).finish == xp::f_kill)
                  if( auto entry = find( other.subordinate, -1); entry && entry->pid == begins->pid)
                     return true;
         return false;
      }

      struct Terminal
      {
         Truth success = no;   // if it may be reported as such, or the like
         Truth error = no;
         Truth fail = no;
         bool pending = false; // conversations are left open
      };

      // what is known about nodes when they are done
      std::map< int, Truth> doomed;     // the transaction of a node
      std::map< int, Terminal> terminals;
      std::map< int, bool> left;        // node -> it left its conversations open, conversation by index
      std::map< int, bool> disconnected; // conversation -> by its initiator
      std::map< int, Truth> transaction_of; // conversation is part of the initiator's transaction

      std::vector< xp::Op*> stream( int number, int reference)
      {
         std::vector< xp::Op*> result;
         for( int index = 0; index < node( number).count; ++index)
         {
            auto& op = node( number).ops[ index];
            if( op.kind == xp::k_send && op.reference == reference)
               if( auto entry = find( number, index); entry && entry->result == 0)
                  result.push_back( &op);
         }
         return result;
      }

      void check_data( const xp::Entry& entry, const xp::Data& data, int number, int op)
      {
         if( data.type == xp::t_null)
         {
            check( entry.size == 0, number, op, "data of size ", entry.size, " where nothing is sent");
            return;
         }
         const auto value = xp::content( data);
         check( std::string{ entry.type} == ( data.type == xp::t_string ? "CSTRING" : "X_OCTET"), number, op, "type ", entry.type);
         check( entry.size == data.size && entry.hash == xp::hash( value.data(), value.size()), number, op, "the data is not what is sent: size ", entry.size, " of ", data.size);
      }

      void judge( int number)
      {
         struct View
         {
            int conversation;
            int side;
            bool open = true;
            bool control;
            std::size_t consumed = 0;
            int descriptor = -1;
         };
         std::map< int, View> views; // by reference
         auto& conversations = program.conversations;
         auto& self = node( number);
         Truth doom = no;
         bool in_transaction = false;
         bool shared_transaction = false; // the initiator's

         for( int index = 0; index < int( conversations.size()); ++index)
         {
            auto& conversation = conversations[ index];
            if( conversation.refused || conversation.subordinate != number)
               continue;
            auto begins = find( number, -1);
            auto connect = find( conversation.initiator, conversation.op);
            if( ! connect)
               return;
            auto& op = node( conversation.initiator).ops[ conversation.op];
            check( begins, number, -1, "the service is connected to, but not invoked");
            check_data( *begins, op.data, number, -1);
            check( std::string{ begins->service} == op.service, number, -1, "invoked as ", begins->service);
            const bool joins = connect->transaction == 1 && ! conversation.no_transaction;
            const bool expected = conversation.mode == s_none ? false : conversation.mode == s_join ? joins : true;
            check( begins->transaction == int( expected), number, -1, "transaction mode ", begins->transaction, ", expected ", expected);
            shared_transaction = joins && conversation.mode != s_atomic && conversation.mode != s_none;
            if( shared_transaction)
               check( begins->gtrid() == connect->gtrid(), number, -1, "not in the transaction of the initiator");
            else if( joins && begins->transaction)
               check( begins->gtrid() != connect->gtrid(), number, -1, "in the transaction of the initiator");
            const long flags = F_conv | ( op.flags & F_sendonly ? F_recvonly : F_sendonly) | ( begins->transaction == 1 ? F_tran : 0);
            check( begins->flags == flags, number, -1, "flags 0x", std::hex, begins->flags, ", expected 0x", flags);
            View view;
            view.conversation = index;
            view.side = 1;
            view.control = ! ( op.flags & F_sendonly);
            view.descriptor = begins->descriptor;
            views[ -1] = view;
            in_transaction = expected;
         }

         auto end = [&]( View& view, Truth dooms, bool discon = false)
         {
            view.open = false;
            auto& conversation = conversations[ view.conversation];
            if( view.side == 0 && transaction_of[ view.conversation] == yes)
            {
               if( dooms == yes || doom == yes)
                  doom = yes;
               else if( dooms == maybe)
                  doom = maybe;
            }
            ( void)conversation;
            ( void)discon;
         };

         bool orphan = false;

         auto terminated = [&]( View& view, xp::Entry& entry, int index, bool sending)
         {
            auto& conversation = conversations[ view.conversation];
            if( view.side == 1)
            {
               // the initiator may disconnect
               check( disconnected[ view.conversation], number, index, "event 0x", std::hex, entry.event, ", but the initiator has not disconnected");
               check( entry.event == EV_discon, number, index, "event 0x", std::hex, entry.event);
               ++counts[ "disconnect event"];
               end( view, no);
               return;
            }
            auto& peer = node( conversation.subordinate);
            auto& terminal = terminals[ conversation.subordinate];
            const bool part = conversation.mode != s_atomic && conversation.mode != s_none;
            // the process has owned the transaction, which is gone with the service that began it, and was disconnected from us
            if( auto begins = find( conversation.subordinate, -1); begins && begins->gtrid_size)
               for( auto& [ key, other] : entries)
                  if( key.first != conversation.subordinate && other->pid == begins->pid && other->gtrid_size && other->gtrid() == begins->gtrid())
                     orphan = true;
            const bool done = find( conversation.subordinate, -2);
            check( done, number, index, "event 0x", std::hex, entry.event, ", but the service is not done");
            switch( entry.event)
            {
               case EV_svcsucc:
                  check( ! sending, number, index, "service success when sending");
                  check( terminal.success != no, number, index, "success of a service that is not");
                  check( entry.user == peer.code, number, index, "user code ", entry.user, ", expected ", peer.code);
                  check_data( entry, peer.reply, number, index);
                  ++counts[ "success"];
                  end( view, no);
                  break;
               case EV_svcfail:
                  check( terminal.fail != no, number, index, "service fail of a service that didn't");
                  check( entry.user == peer.code, number, index, "user code ", entry.user, ", expected ", peer.code);
                  if( ! sending)
                     check_data( entry, peer.reply, number, index);
                  ++counts[ "fail"];
                  end( view, part && ! orphan ? yes : part || terminal.pending ? maybe : no);
                  break;
               case EV_svcerr:
                  check( terminal.error != no || sending, number, index, "service error of a service that is fine");
                  ++counts[ "error"];
                  // a service that returns success without control, and the initiator sends
                  end( view, terminal.error == yes && part && ! orphan ? yes : maybe);
                  break;
               default:
                  check( false, number, index, "event 0x", std::hex, entry.event);
            }
         };

         for( int index = 0; index < self.count; ++index)
         {
            auto entry = find( number, index);
            if( ! entry)
               pbt::fail( where( number, index), "not reached");
            auto& op = self.ops[ index];
            View* view = nullptr;
            if( auto found = views.find( op.reference); found != views.end())
               view = &found->second;
            auto proto = [&]()
            {
               check( entry->result == -1 && entry->error == E_proto, number, index, "result ", entry->result, " error ", entry->error, " event ", entry->event, " without control of the conversation");
               ++counts[ "protocol error"];
            };
            auto closed = [&]()
            {
               check( entry->result == -1 && entry->error == E_baddesc, number, index, "result ", entry->result, " error ", entry->error, " event ", entry->event, " for a descriptor that isn't open");
               ++counts[ "bad descriptor"];
            };

            switch( op.kind)
            {
               case xp::k_begin:
                  check( entry->result == TX_ok, number, index, "tx_begin -> ", entry->result);
                  in_transaction = true;
                  doom = no;
                  break;
               case xp::k_commit:
                  if( doom == no)
                     check( entry->result == TX_ok, number, index, "tx_commit -> ", entry->result, " though nothing has failed");
                  else if( doom == yes)
                     check( entry->result == TX_protocol, number, index, "tx_commit -> ", entry->result, " of a transaction that has to be rolled back");
                  else
                     check( entry->result == TX_protocol || entry->result == TX_ok, number, index, "tx_commit -> ", entry->result);
                  ++counts[ entry->result == TX_ok ? "committed" : "not committed"];
                  if( entry->result == TX_ok)
                  {
                     in_transaction = false;
                     doom = no;
                  }
                  break;
               case xp::k_rollback:
                  check( entry->result == ( in_transaction ? TX_ok : TX_protocol), number, index, "tx_rollback -> ", entry->result);
                  in_transaction = false;
                  doom = no;
                  break;
               case xp::k_call:
               {
                  auto& leaf = node( op.node);
                  const bool success = leaf.finish == xp::f_success;
                  check( success ? entry->result == 0 : entry->result == -1, number, index, "call -> ", entry->result, " error ", entry->error);
                  check( entry->user == leaf.code, number, index, "user code of a call");
                  check_data( *entry, leaf.reply, number, index);
                  break;
               }
               case xp::k_connect:
               {
                  int found = -1;
                  for( int i = 0; i < int( conversations.size()); ++i)
                     if( conversations[ i].initiator == number && conversations[ i].op == index)
                        found = i;
                  auto& conversation = conversations[ found];
                  if( conversation.refused)
                  {
                     const int expected = std::strcmp( op.service, "missing") == 0 ? E_noent : E_inval;
                     check( entry->result == -1 && entry->error == expected, number, index, "result ", entry->result, " error ", entry->error, ", expected ", expected);
                     ++counts[ "refused"];
                     break;
                  }
                  check( entry->result >= 0, number, index, "result ", entry->result, " error ", entry->error);
                  for( auto& [ reference, other] : views)
                     check( ! other.open || other.descriptor != entry->result, number, index, "the descriptor ", entry->result, " is in use");
                  View value;
                  value.conversation = found;
                  value.side = 0;
                  value.control = op.flags & F_sendonly;
                  value.descriptor = entry->result;
                  views[ index] = value;
                  transaction_of[ found] = in_transaction && ! conversation.no_transaction ? yes : no;
                  ++counts[ "connect"];
                  break;
               }
               case xp::k_send:
               {
                  if( ! view || ! view->open)
                  {
                     closed();
                     break;
                  }
                  if( ! view->control)
                  {
                     proto();
                     break;
                  }
                  auto& conversation = conversations[ view->conversation];
                  if( entry->result == 0)
                  {
                     check( ! op.value, number, index, "succeeds though the service is done");
                     if( op.flags & F_recvonly)
                        view->control = false;
                     ++counts[ "send"];
                     break;
                  }
                  if( entry->error == E_event)
                  {
                     terminated( *view, *entry, index, true);
                     ++counts[ "event on send"];
                     break;
                  }
                  // the other side is dead
                  check( view->side == 0 && dead( conversation), number, index, "error ", entry->error);
                  end( *view, maybe);
                  break;
               }
               case xp::k_recv:
               {
                  if( ! view || ! view->open)
                  {
                     closed();
                     break;
                  }
                  if( view->control)
                  {
                     proto();
                     break;
                  }
                  auto& conversation = conversations[ view->conversation];
                  auto messages = view->side == 0 ? stream( conversation.subordinate, -1) : stream( conversation.initiator, conversation.op);
                  if( view->side == 1 && disconnected[ view->conversation] && entry->result == -1 && entry->error == E_event && entry->event == EV_discon)
                  {
                     terminated( *view, *entry, index, false);
                     break;
                  }
                  if( view->consumed < messages.size())
                  {
                     auto& message = *messages[ view->consumed++];
                     const bool over = message.flags & F_recvonly;
                     if( ( op.flags & F_nochange) && op.output != message.data.type)
                     {
                        check( entry->result == -1 && entry->error == E_otype, number, index, "result ", entry->result, " error ", entry->error, " for another type");
                        view->control = over;
                        ++counts[ "another type"];
                        break;
                     }
                     if( over)
                        check( entry->result == -1 && entry->error == E_event && entry->event == EV_sendonly, number, index, "result ", entry->result, " error ", entry->error, " event 0x", std::hex, entry->event, " when control is given");
                     else
                        check( entry->result == 0, number, index, "result ", entry->result, " error ", entry->error, " event 0x", std::hex, entry->event);
                     check_data( *entry, message.data, number, index);
                     view->control = over;
                     ++counts[ over ? "control given" : "received"];
                     break;
                  }
                  if( view->side == 0 && ( op.flags & F_nochange) && entry->result == -1 && entry->error == E_otype)
                  {
                     // the data of the return has another type
                     end( *view, maybe);
                     break;
                  }
                  check( entry->result == -1 && entry->error == E_event, number, index, "result ", entry->result, " error ", entry->error, " when the other side is done");
                  terminated( *view, *entry, index, false);
                  break;
               }
               case xp::k_discon:
               {
                  if( ! view || ! view->open || view->side == 1)
                  {
                     closed();
                     break;
                  }
                  auto& conversation = conversations[ view->conversation];
                  check( entry->result == 0 || dead( conversation), number, index, "result ", entry->result, " error ", entry->error);
                  ++counts[ "disconnect"];
                  end( *view, yes);
                  break;
               }
               default: break;
            }
            check( entry->transaction == int( in_transaction), number, index, "transaction mode ", entry->transaction, ", expected ", in_transaction);
            if( in_transaction && doom != maybe)
               check( ( entry->state == 2) == ( doom == yes), number, index, "transaction state ", entry->state, ", expected ", doom == yes ? "rollback only" : "active");
            if( in_transaction && doom == maybe && entry->state == 2)
               doom = yes;
         }

         // how the service appears to the initiator
         Terminal terminal;
         Truth open_ones = no;
         for( auto& [ reference, view] : views)
            if( view.side == 0 && view.open)
            {
               ++counts[ "left open"];
               open_ones = in_transaction && transaction_of[ view.conversation] == yes ? yes : open_ones == yes ? yes : maybe;
            }
         switch( self.finish)
         {
            case xp::f_success:
               terminal.success = doom == yes || open_ones == yes ? no : yes;
               terminal.error = terminal.success == no ? yes : doom == maybe || open_ones == maybe ? maybe : no;
               // without control, the specification wants an error
               if( auto view = views.find( -1); view != views.end() && view->second.open && ! view->second.control && terminal.error == no)
                  terminal.error = maybe;
               break;
            case xp::f_fail: terminal.fail = yes; break;
            default: terminal.error = yes; break;
         }
         terminal.pending = open_ones != no;
         terminals[ number] = terminal;
      }

      //! who disconnects, which has to be known before the others are judged
      void prepare()
      {
         auto& conversations = program.conversations;
         for( int index = 0; index < int( conversations.size()); ++index)
         {
            auto& conversation = conversations[ index];
            if( conversation.refused)
               continue;
            auto& self = node( conversation.initiator);
            bool terminal = false;
            for( int op = 0; op < self.count; ++op)
               if( self.ops[ op].reference == conversation.op && self.ops[ op].kind >= xp::k_connect)
                  if( auto entry = find( conversation.initiator, op))
                  {
                     if( self.ops[ op].kind == xp::k_discon && entry->result == 0)
                        disconnected[ index] = true;
                     if( entry->result == -1 && entry->error == E_event && entry->event != EV_sendonly)
                        terminal = true;
                  }
            if( ! terminal && find( conversation.initiator, -2))
               disconnected[ index] = true; // left open
         }
      }

      void run( int root)
      {
         read();
         prepare();
         // subordinates first
         std::vector< int> order;
         for( auto& conversation : program.conversations)
            if( ! conversation.refused)
               order.push_back( conversation.subordinate);
         std::reverse( order.begin(), order.end());
         for( auto number : order)
            judge( number);
         judge( root);
         for( auto& [ leaf, caller] : program.callers)
         {
            auto begins = find( leaf, -1);
            pbt::require( begins, "the service of node ", leaf, " is not invoked");
         }
      }
   };

   void describe( Program& program, pbt::Source& source, int number, std::string indent)
   {
      auto& node = program.shared.node[ number];
      static const char* names[] = { "tpconnect", "tpsend", "tprecv", "tpdiscon"};
      for( int index = 0; index < node.count; ++index)
      {
         auto& op = node.ops[ index];
         source.log( indent, number, '.', index, ' ', op.kind >= xp::k_connect && op.kind <= xp::k_discon ? names[ op.kind - xp::k_connect] : xp::name( op.kind),
            op.service[ 0] ? cat( ' ', op.service) : std::string{}, op.node >= 0 ? cat( " node ", op.node) : std::string{}, op.reference >= 0 ? cat( " of op ", op.reference) : std::string{},
            op.flags ? cat( " flags 0x", std::hex, op.flags) : std::string{}, op.data.type != xp::t_null ? cat( " data type ", op.data.type, " size ", op.data.size) : std::string{});
         if( op.kind == xp::k_connect && op.node >= 0)
            describe( program, source, op.node, indent + "   ");
      }
      static const char* finishes[] = { "success", "fail", "nothing", "throw", "forward", "kill"};
      source.log( indent, number, " ends: ", finishes[ node.finish], " code ", node.code, " data type ", node.reply.type, " size ", node.reply.size);
   }

   void property( pbt::Source& source)
   {
      const auto scratch = source.scratch;
      auto resources = rm::map( scratch + "/rm", true);
      auto shared = xp::map( scratch + "/xp", true);
      pbt::require( resources && shared, "mmap");
      ::setenv( "VERIF_RM", ( scratch + "/rm").c_str(), 1);
      ::setenv( "VERIF_XP", ( scratch + "/xp").c_str(), 1);

      std::string servers;
      for( auto server : { 'p', 'q'})
         servers += cat( "      - path: ", std::getenv( "CASUAL_MAKE_SOURCE_ROOT"), "/harness/bin/xatmi_server\n        alias: server_", server, "\n        arguments: [ ", server, "]\n        instances: ", server == 'p' ? 4 : 2,
            "\n        restart: true\n        memberships: [ user]\n");
      const auto configured = cat( "domain:\n   transaction:\n      log: \"", scratch, "/log.db\"\n");
      auto domain = std::make_unique< domain::unittest::Manager>( std::vector< std::string_view>{ sys::base( "X", servers), configured});

      Program program{ *shared, source};
      std::map< std::string, long> counts;
      source.repeat( 1, 4, 2, [&]( auto)
      {
         if( program.next + 60 > xp::max_nodes)
            return;
         const auto root = program.generate();
         describe( program, source, root, "");
         xp::interpret( root, -1);
         xp::publish( xp::log( root, -2));
         Oracle oracle{ program};
         oracle.run( root);
         for( auto& [ name, count] : oracle.counts)
            counts[ name] += count;
      });
      for( auto& [ name, count] : counts)
         source.label( name);
      if( counts[ "received"] + counts[ "control given"] > 2 && counts[ "connect"] > 1)
         source.nontrivial();
      domain.reset();
   }
}

int main( int argc, char** argv)
{
   pbt::Options options;
   options.isolated = true;
   options.case_timeout = 60;
   options.quick_cap = 75;
   options.property = "X02";
   options.rule = "a case is one to four jointly generated programs of an initiator and up to four conversational services, nested or side by side, with sends, receives, control transfers, disconnects, calls and ends of the services; "
      "non-trivial: at least two conversations and three messages received";
   options.quick = 700;
   options.thorough = 10000;
   return pbt::run( argc, argv, options, property);
}
