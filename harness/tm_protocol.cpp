// T01: the transaction manager as coordinator. Concurrent transactions over local resource
// proxies (processes with the recorded xa switch of rm_switch.cpp) and external resources
// (this process), with generated outcomes, schedules, owners that die, resources that vanish,
// and upstream coordinators. Every resource's operations and every reply are judged.
#define CASUAL_NO_XATMI_UNDEFINE
#include "sys.h"
#include "rm.h"

#include "transaction/unittest/utility.h"
#include "transaction/manager/admin/server.h"

#include "common/message/transaction.h"
#include "common/message/event.h"
#include "common/communication/ipc.h"
#include "common/communication/instance.h"
#include "common/serialize/native/complete.h"
#include "common/code/xa.h"

#include "serviceframework/service/protocol/call.h"

#include <sqlite3.h>
#include <xa.h>

using namespace casual;
namespace message = casual::common::message;
namespace device = casual::common::communication::device;
using xa = common::code::xa;

namespace
{
   // the specification of severity (most severe first) and of the translation to TX_*

   const std::vector< int> severities{
      XA_HEURHAZ, XA_HEURMIX, XA_HEURCOM, XA_HEURRB, XAER_RMFAIL, XAER_RMERR, XA_RBINTEGRITY, XA_RBCOMMFAIL, XA_RBROLLBACK, XA_RBOTHER, XA_RBDEADLOCK,
      XAER_PROTO, XA_RBPROTO, XA_RBTIMEOUT, XA_RBTRANSIENT, XAER_INVAL, XA_NOMIGRATE, XAER_OUTSIDE, XAER_ASYNC, XA_RETRY, XAER_DUPID, XAER_NOTA, XA_OK, XA_RDONLY};

   int rank( int code)
   {
      auto found = std::find( severities.begin(), severities.end(), code);
      return found == severities.end() ? 5 : int( found - severities.begin());
   }

   int severest( int a, int b) { return rank( a) <= rank( b) ? a : b;}

   int to_tx( int code)
   {
      switch( code)
      {
         case XA_RDONLY: case XA_OK: return TX_OK;
         case XA_HEURCOM: case XA_HEURRB: case XA_HEURMIX: return TX_MIXED;
         case XA_HEURHAZ: case XA_NOMIGRATE: return TX_HAZARD;
         case XAER_NOTA: return TX_NO_BEGIN;
         case XAER_INVAL: case XAER_PROTO: return TX_PROTOCOL_ERROR;
         case XAER_RMERR: case XAER_RMFAIL: return TX_FAIL;
         case XA_RETRY: case XAER_ASYNC: case XAER_DUPID: return TX_EINVAL;
         case XAER_OUTSIDE: return TX_OUTSIDE;
      }
      if( code >= XA_RBBASE && code <= XA_RBEND)
         return TX_HAZARD;
      return TX_FAIL;
   }

   // what goes back to the one who asked: an unknown xid is not an error
   int outward( int code) { return code == XAER_NOTA ? XA_RDONLY : code;}

   std::string xa_name( int code) { return pbt::cat( common::code::description( xa( code)));}

   enum Kind : int { client_commit, client_rollback, owner_dies, upstream_two_phase, upstream_one_phase, upstream_rollback, commit_owner_dies};
   const char* kind_names[] = { "commit", "rollback", "owner dies", "upstream two phase", "upstream one phase", "upstream rollback", "commit, owner dies"};

   struct Operation
   {
      int operation;
      long flags;
      int code;
      int begin;
      int end;
      int pid;
   };

   // one resource of one branch
   struct Pair
   {
      int branch;
      int resource;   // index of the resources of the case
      int method;     // 0 involved request, 1 with the decision, 2 external
      bool told = false;   // the manager knows
      std::vector< Operation> operations;

      // how the resource answers, in the end
      int prepare = XA_OK, commit = XA_OK, rollback = XA_OK;
      // times a local resource is asked (it's reopened and asked again for XAER_RMFAIL)
      int prepare_calls = 1, commit_calls = 1, rollback_calls = 1;
   };

   struct Reply { std::string what; int code; int ticket;};

   struct Tx
   {
      int number;
      Kind kind;
      std::vector< common::transaction::ID> branches;
      std::vector< Pair> pairs;
      std::string gtrid;
      int owner = -1;       // index of child process
      bool inbound_branch = false;
      bool duplicate = false;
      bool decide_commit = true;   // upstream two phase
      bool undecided = false;      // upstream two phase

      std::vector< std::function< void()>> steps;
      std::size_t next = 0;
      bool decided = false; // the decision is sent
      bool dying = false;   // the owner is gone
      int upstream_stage = 0;
      std::vector< Reply> replies;
      int finals = 0;
      bool hurt = false;    // a resource of it vanished
      common::strong::correlation::id correlation;
      common::strong::correlation::id duplicate_correlation;
      int duplicate_replies = 0;

      bool done() const
      {
         switch( kind)
         {
            case owner_dies: return dying;
            case commit_owner_dies: return dying && decided;
            default: return finals > 0 && ( ! duplicate || duplicate_replies > 0);
         }
      }
   };

   struct Resource
   {
      bool external;
      int id = 0; // local: as configured
      int instances = 1;
      std::string name;
      std::unique_ptr< common::communication::ipc::inbound::Device> inbound; // external
      common::process::Handle process;
      bool destroyed = false;
   };

   struct Request // that an external resource has got
   {
      int resource;
      int operation;
      common::transaction::ID trid;
      long flags;
      common::strong::correlation::id correlation;
      common::strong::execution::id execution;
      common::strong::resource::id id;
      common::process::Handle process;
      int begin;
   };

   template< typename M>
   void tm( M&& value)
   {
      device::blocking::send( common::communication::instance::outbound::transaction::manager::device(), value);
   }

   int rows( const std::string& path, std::string_view gtrid)
   {
      ::sqlite3* db = nullptr;
      if( ::sqlite3_open_v2( path.c_str(), &db, SQLITE_OPEN_READONLY, nullptr) != SQLITE_OK)
         pbt::fail( "failed to open the transaction log ", path);
      ::sqlite3_busy_timeout( db, 5000);
      ::sqlite3_stmt* statement = nullptr;
      int result = -1;
      if( ::sqlite3_prepare_v2( db, gtrid.empty() ? "SELECT COUNT(*) FROM trans" : "SELECT COUNT(*) FROM trans WHERE gtrid = ?", -1, &statement, nullptr) == SQLITE_OK)
      {
         if( ! gtrid.empty())
            ::sqlite3_bind_blob( statement, 1, gtrid.data(), gtrid.size(), SQLITE_TRANSIENT);
         if( ::sqlite3_step( statement) == SQLITE_ROW)
            result = ::sqlite3_column_int( statement, 0);
      }
      ::sqlite3_finalize( statement);
      ::sqlite3_close( db);
      return result;
   }

   std::string global( const common::transaction::ID& trid)
   {
      auto range = common::transaction::id::range::global( trid);
      return std::string( reinterpret_cast< const char*>( std::data( range)), std::size( range));
   }

   std::string qualifier( const common::transaction::ID& trid)
   {
      auto range = common::transaction::id::range::branch( trid);
      return std::string( reinterpret_cast< const char*>( std::data( range)), std::size( range));
   }

   void property( pbt::Source& source)
   {
      const auto scratch = source.scratch;
      const auto shared_path = scratch + "/rm";
      auto shared = rm::map( shared_path, true);
      pbt::require( shared, "mmap");
      ::setenv( "VERIF_RM", shared_path.c_str(), 1);
      const auto log_path = scratch + "/log.db";

      std::vector< Resource> resources;
      std::string configuration = pbt::cat( R"(
system:
   resources:
      -  key: verif-rm
         server: )", std::getenv( "CASUAL_MAKE_SOURCE_ROOT"), R"(/harness/bin/rm_proxy
         xa_struct_name: verif_xa_switch_static
domain:
   transaction:
      log: ")", log_path, R"("
      resources:
)");
      const int locals = source.uniform( 1, 3);
      for( int index = 0; index < locals; ++index)
      {
         Resource resource;
         resource.external = false;
         resource.id = index + 1;
         resource.instances = source.uniform( 1, 3);
         resource.name = pbt::cat( "rm", index + 1);
         configuration += pbt::cat( "         - key: verif-rm\n           name: ", resource.name, "\n           instances: ", resource.instances, "\n");
         source.log( "resource ", resource.name, " instances ", resource.instances);
         resources.push_back( std::move( resource));
      }
      const int externals = source.uniform( 0, 3);

      auto domain = std::make_unique< domain::unittest::Manager>( std::vector< std::string_view>{ sys::base( "T01"), configuration});

      // processes that own transactions, and die
      std::vector< pid_t> owners;
      auto spawn = []()
      {
         auto pid = ::fork();
         if( pid == 0)
         {
            ::prctl( PR_SET_PDEATHSIG, SIGKILL);
            for( ;;)
               ::pause();
         }
         return pid;
      };
      const auto handle = common::process::handle();

      for( int index = 0; index < externals; ++index)
      {
         Resource resource;
         resource.external = true;
         resource.name = pbt::cat( "ext", index + 1);
         resource.inbound = std::make_unique< common::communication::ipc::inbound::Device>();
         resource.process = common::process::Handle{ handle.pid, resource.inbound->connector().handle().ipc()};
         message::transaction::resource::external::Instance instance{ resource.process};
         instance.alias = resource.name;
         tm( instance);
         resources.push_back( std::move( resource));
      }

      // ------------------------------------------------ the transactions

      bool vanish = externals > 0 && source.chance( 12); // an external resource goes away
      std::vector< std::unique_ptr< Tx>> txs;
      std::vector< Request> requests;

      auto plan_codes = [&]( Tx& tx)
      {
         // what every resource answers for this transaction
         std::map< int, std::array< int, 3>> codes;
         std::map< int, int> recovers;
         const bool faulty = tx.kind != commit_owner_dies && source.chance( 55);
         for( auto& pair : tx.pairs)
         {
            auto index = pair.resource;
            if( ! codes.contains( index))
            {
               std::array< int, 3> code{ XA_OK, XA_OK, XA_OK};
               if( source.chance( 20))
                  code[ 0] = XA_RDONLY;
               std::array< int, 3> calls{ 1, 1, 1};
               std::array< int, 3> failures{ -1, -1, -1};
               int delay[ 3] = {};
               for( auto& value : delay)
                  value = source.chance( 20) ? int( source.uniform( 50, 3000)) : 0;
               if( faulty && source.chance( 40))
               {
                  switch( source.weighted( { 5, 3, 3}))
                  {
                     case 0: code[ 0] = source.pick( { XA_RBROLLBACK, XA_RBDEADLOCK, XA_RBTIMEOUT, XAER_RMERR, XAER_NOTA, XAER_PROTO, XAER_RMFAIL, XA_RBINTEGRITY, XAER_INVAL, XAER_OUTSIDE, XAER_ASYNC}); break;
                     case 1: code[ 1] = source.pick( { XA_HEURCOM, XA_HEURRB, XA_HEURMIX, XA_HEURHAZ, XAER_RMERR, XAER_NOTA, XAER_RMFAIL, XA_RBROLLBACK, XAER_PROTO, XA_RETRY}); break;
                     case 2: code[ 2] = source.pick( { XA_HEURCOM, XA_HEURRB, XA_HEURMIX, XA_HEURHAZ, XAER_RMERR, XAER_NOTA, XAER_RMFAIL, XA_RBROLLBACK, XA_RBDEADLOCK, XAER_PROTO}); break;
                  }
               }

               auto& resource = resources[ index];
               if( ! resource.external)
               {
                  auto at = shared->plans.load();
                  auto& plan = shared->plan[ at];
                  plan.rm = resource.id;
                  plan.gtrid_size = tx.gtrid.size();
                  std::memcpy( plan.gtrid, tx.gtrid.data(), tx.gtrid.size());
                  const int operations[] = { rm::op_prepare, rm::op_commit, rm::op_rollback};
                  for( int i = 0; i < 3; ++i)
                  {
                     plan.code[ operations[ i]] = code[ i];
                     plan.delay_us[ operations[ i]] = delay[ i];
                     plan.failures[ operations[ i]] = -1;
                  }
                  plan.ready.store( 1);
                  shared->plans.store( at + 1);
               }
               codes[ index] = code;
            }
            auto& code = codes[ index];
            pair.prepare = code[ 0];
            pair.commit = code[ 1];
            pair.rollback = code[ 2];
            if( ! resources[ index].external)
            {
               // the resource is reopened and asked once more
               pair.prepare_calls = pair.prepare == XAER_RMFAIL ? 2 : 1;
               pair.commit_calls = pair.commit == XAER_RMFAIL ? 2 : 1;
               pair.rollback_calls = pair.rollback == XAER_RMFAIL ? 2 : 1;
            }
         }
      };

      auto send_decision = [&]( Tx& tx, auto message, const common::process::Handle& process)
      {
         message.process = process;
         message.trid = tx.branches[ 0];
         return message;
      };

      auto with_involved = [&]( Tx& tx, auto& message)
      {
         for( auto& pair : tx.pairs)
            if( pair.branch == 0 && pair.method == 1)
            {
               pair.told = true;
               message.involved.push_back( common::strong::resource::id{ resources[ pair.resource].id});
            }
      };

      auto make = [&]()
      {
         auto tx = std::make_unique< Tx>();
         auto& t = *tx;
         t.number = txs.size();
         t.kind = Kind( source.weighted( { 8, 3, 3, 5, 3, 2, 3}));
         if( t.kind == owner_dies || t.kind == commit_owner_dies)
         {
            // possibly one that has others in progress
            std::vector< int> alive;
            for( std::size_t index = 0; index < owners.size(); ++index)
               if( owners[ index] > 0)
                  alive.push_back( index);
            if( ! alive.empty() && source.chance( 60))
               t.owner = alive[ source.uniform( 0, alive.size() - 1)];
            else
            {
               t.owner = owners.size();
               owners.push_back( spawn());
            }
         }
         auto owner = t.owner >= 0 ? common::process::Handle{ common::strong::process::id{ owners[ t.owner]}} : handle;
         const bool upstream = t.kind == upstream_two_phase || t.kind == upstream_one_phase || t.kind == upstream_rollback;

         t.branches.push_back( common::transaction::ID{ common::uuid::make(), common::uuid::make(), owner});
         t.gtrid = global( t.branches[ 0]);
         t.inbound_branch = upstream && source.boolean();
         if( t.inbound_branch)
         {
            message::transaction::inbound::branch::Request request{ handle};
            request.gtrid = common::transaction::global::ID{ common::transaction::id::range::global( t.branches[ 0])};
            auto reply = common::communication::ipc::call( common::communication::instance::outbound::transaction::manager::device(), request);
            pbt::require( global( reply.trid) == t.gtrid, "inbound branch got another gtrid");
            t.branches[ 0] = reply.trid;
            // asked again, the same branch
            if( source.boolean())
            {
               auto again = common::communication::ipc::call( common::communication::instance::outbound::transaction::manager::device(), request);
               pbt::require( again.trid == reply.trid, "inbound branch asked twice gives two branches");
            }
         }
         const int branches = source.weighted( { 6, 2, 1}) + 1;
         for( int index = 1; index < branches; ++index)
            t.branches.push_back( common::transaction::id::branch( t.branches[ 0]));

         for( int branch = 0; branch < branches; ++branch)
         {
            for( std::size_t index = 0; index < resources.size(); ++index)
            {
               if( ! source.chance( branch == 0 ? 55 : 35) || resources[ index].destroyed)
                  continue;
               Pair pair;
               pair.branch = branch;
               pair.resource = index;
               const bool with_decision = branch == 0 && ( t.kind == client_commit || t.kind == client_rollback || t.kind == commit_owner_dies);
               pair.method = resources[ index].external ? 2 : ( with_decision && source.boolean() ? 1 : 0);
               t.pairs.push_back( pair);
            }
         }
         plan_codes( t);
         t.decide_commit = source.chance( 70);
         t.undecided = t.kind == upstream_two_phase && source.chance( 15);
         t.duplicate = ( t.kind == client_commit || t.kind == upstream_two_phase) && source.chance( 15);

         std::string what;
         for( auto& pair : t.pairs)
            what += pbt::cat( " b", pair.branch, ":", resources[ pair.resource].name, "(", pair.method, ") ", xa_name( pair.prepare), "/", xa_name( pair.commit), "/", xa_name( pair.rollback));
         source.log( "tx ", t.number, " ", kind_names[ t.kind], t.undecided ? " undecided" : ( t.decide_commit ? "" : " decides rollback"), t.duplicate ? " duplicate" : "", what);

         // the steps of it
         for( std::size_t index = 0; index < t.pairs.size(); ++index)
         {
            auto& pair = t.pairs[ index];
            if( pair.method == 0)
            {
               t.steps.push_back( [&, index]()
               {
                  auto& pair = t.pairs[ index];
                  pair.told = true;
                  message::transaction::resource::involved::Request request{ handle};
                  request.trid = t.branches[ pair.branch];
                  request.involved = { common::strong::resource::id{ resources[ pair.resource].id}};
                  if( index % 3 == 2)
                  {
                     // the reply tells what the branch had before
                     auto reply = common::communication::ipc::call( common::communication::instance::outbound::transaction::manager::device(), request);
                     std::set< int> expected, got;
                     std::size_t externals = 0;
                     for( std::size_t before = 0; before < index; ++before)
                        if( t.pairs[ before].branch == pair.branch && t.pairs[ before].method == 0)
                           expected.insert( resources[ t.pairs[ before].resource].id);
                     for( auto& id : reply.involved)
                     {
                        if( id.value() > 0)
                           got.insert( id.value());
                        else
                           ++externals;
                     }
                     pbt::require( expected == got, "tx ", t.number, ": the reply to involved does not tell what was involved");
                  }
                  else
                  {
                     request.reply = false;
                     tm( request);
                  }
                  // told twice is the same as once
                  if( index % 4 == 1)
                  {
                     request.reply = false;
                     tm( request);
                  }
               });
            }
            else if( pair.method == 2)
            {
               t.steps.push_back( [&, index]()
               {
                  auto& pair = t.pairs[ index];
                  pair.told = true;
                  if( resources[ pair.resource].destroyed)
                     return;
                  message::transaction::resource::external::Involved involved;
                  involved.process = resources[ pair.resource].process;
                  involved.trid = t.branches[ pair.branch];
                  tm( involved);
                  if( index % 4 == 1)
                     tm( involved);
               });
            }
         }

         auto commit = [&]()
         {
            message::transaction::commit::Request request;
            with_involved( t, request);
            t.correlation = common::strong::correlation::id{ common::uuid::make()};
            request.correlation = t.correlation;
            tm( send_decision( t, request, handle));
            t.decided = true;
            if( t.duplicate)
            {
               message::transaction::commit::Request again;
               t.duplicate_correlation = common::strong::correlation::id{ common::uuid::make()};
               again.correlation = t.duplicate_correlation;
               tm( send_decision( t, again, handle));
            }
         };
         auto die = [&]()
         {
            auto pid = owners[ t.owner];
            ::kill( pid, SIGKILL);
            ::waitpid( pid, nullptr, 0);
            message::event::process::Exit exit;
            exit.state.pid = common::strong::process::id{ pid};
            exit.state.reason = decltype( exit.state.reason)::core;
            tm( exit);
            owners[ t.owner] = -1;
            // and with it all it has in progress
            for( auto& other : txs)
            {
               if( other->owner != t.owner)
                  continue;
               other->dying = true;
               other->next = other->steps.size();
               if( ! other->decided)
               {
                  other->kind = owner_dies;
                  std::erase_if( other->pairs, []( auto& pair){ return ! pair.told;});
               }
               source.log( "owner of ", other->number, " dies");
            }
         };
         auto upstream_request = [&]( auto message, common::flag::xa::Flag flags = common::flag::xa::Flag::no_flags)
         {
            message.flags = flags;
            message.resource = common::strong::resource::id{ -42};
            t.correlation = common::strong::correlation::id{ common::uuid::make()};
            message.correlation = t.correlation;
            tm( send_decision( t, message, handle));
            t.decided = true;
         };

         switch( t.kind)
         {
            case client_commit: t.steps.push_back( commit); break;
            case client_rollback: t.steps.push_back( [&]()
            {
               message::transaction::rollback::Request request;
               with_involved( t, request);
               t.correlation = common::strong::correlation::id{ common::uuid::make()};
               request.correlation = t.correlation;
               tm( send_decision( t, request, handle));
               t.decided = true;
            });
            break;
            case owner_dies: t.steps.push_back( die); break;
            case commit_owner_dies:
               t.steps.push_back( commit);
               t.steps.push_back( die);
               break;
            case upstream_two_phase: t.steps.push_back( [&, upstream_request]()
            {
               upstream_request( message::transaction::resource::prepare::Request{});
               if( t.duplicate)
               {
                  message::transaction::resource::prepare::Request again;
                  t.duplicate_correlation = common::strong::correlation::id{ common::uuid::make()};
                  again.correlation = t.duplicate_correlation;
                  tm( send_decision( t, again, handle));
               }
            });
            break;
            case upstream_one_phase: t.steps.push_back( [&, upstream_request]()
            {
               upstream_request( message::transaction::resource::commit::Request{}, common::flag::xa::Flag::one_phase);
            });
            break;
            case upstream_rollback: t.steps.push_back( [&, upstream_request]()
            {
               upstream_request( message::transaction::resource::rollback::Request{});
            });
            break;
         }
         txs.push_back( std::move( tx));
      };

      // ------------------------------------------------ what comes back

      auto find = [&]( const common::transaction::ID& trid) -> Tx*
      {
         auto gtrid = global( trid);
         for( auto& tx : txs)
            if( tx->gtrid == gtrid)
               return tx.get();
         return nullptr;
      };

      auto upstream_next = [&]( Tx& tx, int code)
      {
         if( tx.kind != upstream_two_phase || tx.upstream_stage != 0)
         {
            ++tx.finals;
            return;
         }
         tx.upstream_stage = 1;
         if( code == XA_RDONLY)
         {
            ++tx.finals;
            return;
         }
         if( code == XA_OK)
         {
            // it is in the log, for every branch that still has something to do
            std::set< int> branches;
            for( auto& pair : tx.pairs)
               if( pair.prepare != XA_RDONLY)
                  branches.insert( pair.branch);
            auto logged = rows( log_path, tx.gtrid);
            if( ! tx.hurt)
               pbt::require( logged == int( branches.size()), "tx ", tx.number, " is prepared, but the log has ", logged, " branches of it, expected ", branches.size());
            if( tx.undecided)
            {
               ++tx.finals;
               return;
            }
         }
         const bool commit = code == XA_OK && tx.decide_commit;
         auto send = [&]( auto message)
         {
            message.resource = common::strong::resource::id{ -42};
            tx.correlation = common::strong::correlation::id{ common::uuid::make()};
            message.correlation = tx.correlation;
            tm( send_decision( tx, message, handle));
         };
         tx.undecided = false;
         if( commit)
            send( message::transaction::resource::commit::Request{});
         else
            send( message::transaction::resource::rollback::Request{});
      };

      auto consume = [&]() // replies to this process
      {
         bool any = false;
         auto receive = [&]< typename M>( M message, auto handle)
         {
            while( device::non::blocking::receive( common::communication::ipc::inbound::device(), message))
            {
               any = true;
               auto tx = find( message.trid);
               pbt::require( tx, "a reply for a transaction nobody has");
               if( tx->duplicate && message.correlation == tx->duplicate_correlation)
               {
                  source.log( "duplicate reply ", tx->number, " ", message.state);
                  ++tx->duplicate_replies;
                  if constexpr( std::same_as< M, message::transaction::resource::prepare::Reply>)
                     pbt::require( message.state == xa::read_only, "tx ", tx->number, ": second prepare got ", message.state);
                  if constexpr( std::same_as< M, message::transaction::commit::Reply>)
                     pbt::require( message.state == common::code::tx::protocol || message.state == common::code::tx::ok, "tx ", tx->number, ": second commit got ", message.state);
                  continue;
               }
               pbt::require( message.correlation == tx->correlation, "tx ", tx->number, ": reply with an unknown correlation");
               handle( *tx, message);
            }
         };
         auto add = [&]( Tx& tx, std::string what, int code)
         {
            tx.replies.push_back( { what, code, shared->ticket.fetch_add( 1)});
            source.log( "reply ", tx.number, " ", what, " ", code);
         };
         receive( message::transaction::commit::Reply{}, [&]( Tx& tx, auto& message)
         {
            add( tx, std::string( description( message.stage)), std::to_underlying( message.state));
            if( message.stage != decltype( message.stage)::prepare)
               ++tx.finals;
         });
         receive( message::transaction::rollback::Reply{}, [&]( Tx& tx, auto& message)
         {
            add( tx, "rolledback", std::to_underlying( message.state));
            ++tx.finals;
         });
         auto resource_reply = [&]( std::string what)
         {
            return [&, what]( Tx& tx, auto& message)
            {
               add( tx, what, std::to_underlying( message.state));
               pbt::require( message.resource.value() == -42, "tx ", tx.number, ": the reply to the upstream has another resource");
               pbt::require( message.trid == tx.branches[ 0], "tx ", tx.number, ": the reply to the upstream has another branch");
               upstream_next( tx, std::to_underlying( message.state));
            };
         };
         receive( message::transaction::resource::prepare::Reply{}, resource_reply( "resource prepare"));
         receive( message::transaction::resource::commit::Reply{}, resource_reply( "resource commit"));
         receive( message::transaction::resource::rollback::Reply{}, resource_reply( "resource rollback"));

         for( std::size_t index = 0; index < resources.size(); ++index)
         {
            auto& resource = resources[ index];
            if( ! resource.external || resource.destroyed)
               continue;
            auto take = [&]< typename M>( M message, int operation)
            {
               while( device::non::blocking::receive( *resource.inbound, message))
               {
                  any = true;
                  requests.push_back( Request{ int( index), operation, message.trid, long( std::to_underlying( message.flags)), message.correlation, message.execution, message.resource, message.process, shared->ticket.fetch_add( 1)});
               }
            };
            take( message::transaction::resource::prepare::Request{}, rm::op_prepare);
            take( message::transaction::resource::commit::Request{}, rm::op_commit);
            take( message::transaction::resource::rollback::Request{}, rm::op_rollback);
         }
         return any;
      };

      auto answer = [&]( std::size_t at)
      {
         auto request = requests[ at];
         requests.erase( requests.begin() + at);
         auto tx = find( request.trid);
         pbt::require( tx, "an external resource is asked about a transaction nobody has");
         Pair* pair = nullptr;
         for( auto& candidate : tx->pairs)
            if( candidate.resource == request.resource && tx->branches[ candidate.branch] == request.trid)
               pair = &candidate;
         pbt::require( pair, "tx ", tx->number, ": ", resources[ request.resource].name, " is asked to ", rm::name( request.operation), " a branch it is not involved in");
         int code = request.operation == rm::op_prepare ? pair->prepare : request.operation == rm::op_commit ? pair->commit : pair->rollback;
         if( resources[ request.resource].destroyed)
            return;
         pair->operations.push_back( Operation{ request.operation, request.flags, code, request.begin, shared->ticket.fetch_add( 1), 0});
         auto reply = [&]( auto reply)
         {
            reply.correlation = request.correlation;
            reply.execution = request.execution;
            reply.process = resources[ request.resource].process;
            reply.resource = request.id;
            reply.trid = request.trid;
            reply.state = xa( code);
            reply.statistics.start = reply.statistics.end = platform::time::clock::type::now();
            tm( reply);
         };
         switch( request.operation)
         {
            case rm::op_prepare: reply( message::transaction::resource::prepare::Reply{}); break;
            case rm::op_commit: reply( message::transaction::resource::commit::Reply{}); break;
            case rm::op_rollback: reply( message::transaction::resource::rollback::Reply{}); break;
         }
      };

      // ------------------------------------------------ the schedule

      const int total = source.uniform( 1, 14);
      bool scaled = false;
      auto all_done = [&]()
      {
         return int( txs.size()) == total && std::all_of( txs.begin(), txs.end(), []( auto& tx){ return tx->next == tx->steps.size() && tx->done();});
      };

      for( int round = 0; round < 600; ++round)
      {
         consume();
         switch( source.weighted( { 3, 10, 6, 2, 1, 1}))
         {
            case 0:
               if( int( txs.size()) < total)
                  make();
               break;
            case 1: // a step
            {
               std::vector< Tx*> ready;
               for( auto& tx : txs)
                  if( tx->next < tx->steps.size())
                     ready.push_back( tx.get());
               if( ready.empty())
               {
                  if( int( txs.size()) == total)
                     goto drain;
                  break;
               }
               auto& tx = *source.pick( ready);
               tx.steps[ tx.next++]();
               break;
            }
            case 2:
               if( ! requests.empty())
                  answer( source.draw( requests.size()));
               break;
            case 3: ::usleep( source.uniform( 0, 1500)); break;
            case 4:
               if( source.chance( 40))
               {
                  auto& resource = resources[ source.draw( locals)];
                  resource.instances = source.uniform( 1, 3);
                  using Instances = casual::transaction::manager::admin::model::scale::resource::proxy::Instances;
                  source.log( "scale ", resource.name, " to ", resource.instances);
                  serviceframework::service::protocol::binary::Call{}( casual::transaction::manager::admin::service::name::scale::resource::proxies,
                     serviceframework::service::protocol::binary::Call::Flag{}, std::vector< Instances>{ { resource.name, resource.instances}});
                  scaled = true;
               }
               break;
            case 5:
               if( vanish && ! txs.empty() && source.chance( 40))
               {
                  vanish = false;
                  auto index = locals + source.draw( externals);
                  auto& resource = resources[ index];
                  source.log( resource.name, " vanishes");
                  resource.destroyed = true;
                  // whoever has anything to do with it
                  for( auto& tx : txs)
                     for( auto& pair : tx->pairs)
                        if( pair.resource == int( index) && ( tx->owner >= 0 || ! ( tx->next == tx->steps.size() && tx->done())))
                           tx->hurt = true;
                  resource.inbound.reset();
                  message::event::ipc::Destroyed event{ resource.process};
                  tm( event);
                  source.label( "vanished");
               }
               break;
         }
      }
drain:
      while( int( txs.size()) < total)
         make();
      for( auto& tx : txs)
         while( tx->next < tx->steps.size())
            tx->steps[ tx->next++]();

      {
         auto since = pbt::detail::clock::now();
         double idle = 0;
         for( ;;)
         {
            bool any = consume();
            while( ! requests.empty())
            {
               answer( requests.size() > 1 ? source.draw( requests.size()) : 0);
               any = true;
            }
            if( any)
            {
               since = pbt::detail::clock::now();
               continue;
            }
            idle = pbt::detail::seconds( since);
            if( all_done() && idle > 0.002)
            {
               // those whose owner is dead have nobody to answer, the manager tells when it's done
               auto state = casual::transaction::unittest::state();
               std::size_t expected = 0;
               for( auto& tx : txs)
                  if( tx->undecided)
                     ++expected;
               auto waiting = 0;
               for( auto& transaction : state.transactions)
               {
                  if( transaction.stage == decltype( transaction.stage)::involved)
                     continue;
                  ++waiting;
               }
               // what is kept, since it could not be rolled back
               std::size_t kept = 0;
               for( auto& tx : txs)
               {
                  if( tx->kind == commit_owner_dies && tx->hurt)
                     ++kept;
                  if( tx->kind != owner_dies)
                     continue;
                  int code = XA_RDONLY;
                  for( auto& pair : tx->pairs)
                     code = severest( code, pair.rollback);
                  if( tx->hurt || to_tx( outward( code)) != TX_OK)
                     ++kept;
               }
               if( state.transactions.size() <= expected + kept && requests.empty() && ! consume())
               {
                  bool busy = false;
                  for( auto& proxy : state.resources)
                     for( auto& instance : proxy.instances)
                        busy = busy || instance.state == decltype( instance.state)::busy;
                  if( ! busy && state.pending.requests.empty())
                     break;
               }
               if( idle > 6)
               {
                  std::string what;
                  for( auto& transaction : state.transactions)
                     for( auto& tx : txs)
                        if( common::transcode::hex::encode( common::transaction::id::range::global( tx->branches[ 0])) == transaction.global.id)
                           what += pbt::cat( " ", tx->number, "(stage ", transaction.stage, ")");
                  pbt::fail( "the transaction manager still has ", state.transactions.size(), " transactions:", what, ", pending requests: ", state.pending.requests.size());
               }
            }
            if( idle > 6)
            {
               std::string what;
               for( auto& tx : txs)
                  if( ! tx->done())
                     what += pbt::cat( " ", tx->number);
               pbt::fail( "no final reply for transactions:", what);
            }
            ::usleep( 300);
         }
      }

      // ------------------------------------------------ the verdict

      const int entries = std::min< int>( shared->entries.load(), std::size( shared->entry));
      for( int index = 0; index < entries; ++index)
      {
         auto& entry = shared->entry[ index];
         if( entry.operation != rm::op_prepare && entry.operation != rm::op_commit && entry.operation != rm::op_rollback)
            continue;
         pbt::require( entry.ready.load() == 2, "resource ", entry.rm, " was not done");
         Pair* found = nullptr;
         for( auto& tx : txs)
            if( tx->gtrid == entry.gtrid())
               for( auto& pair : tx->pairs)
                  if( ! resources[ pair.resource].external && resources[ pair.resource].id == entry.rm && qualifier( tx->branches[ pair.branch]) == entry.bqual())
                     found = &pair;
         pbt::require( found, "resource ", entry.rm, " was asked to ", rm::name( entry.operation), " a branch it was not involved in");
         found->operations.push_back( Operation{ entry.operation, entry.flags, entry.code, entry.begin, entry.end, entry.pid});
      }

      // an instance does one thing at a time
      {
         std::map< int, int> last;
         for( int index = 0; index < entries; ++index)
         {
            auto& entry = shared->entry[ index];
            if( entry.operation == rm::op_start || entry.operation == rm::op_end)
               pbt::fail( "a proxy was asked to ", rm::name( entry.operation));
            if( last.contains( entry.pid))
               pbt::require( last[ entry.pid] < entry.begin, "a proxy does two things at a time");
            last[ entry.pid] = entry.end;
         }
      }

      int tpc = 0, rolledback = 0, concurrent = 0;
      for( auto& pointer : txs)
      {
         auto& tx = *pointer;
         std::string story = pbt::cat( "tx ", tx.number, " (", kind_names[ tx.kind], ")");
         for( auto& pair : tx.pairs)
         {
            std::sort( pair.operations.begin(), pair.operations.end(), []( auto& l, auto& r){ return l.begin < r.begin;});
            story += pbt::cat( " [b", pair.branch, ":", resources[ pair.resource].name);
            for( auto& operation : pair.operations)
               story += pbt::cat( " ", rm::name( operation.operation), "=", xa_name( operation.code));
            story += "]";
         }
         for( auto& reply : tx.replies)
            story += pbt::cat( " ", reply.what, "=", reply.code);

         auto count = []( const Pair& pair, int operation){ return std::count_if( pair.operations.begin(), pair.operations.end(), [=]( auto& o){ return o.operation == operation;});};

         // never commit on one and rollback on another, never before all have prepared
         {
            bool committed = false, aborted = false;
            int last_prepare = 0, first_commit = 1 << 30;
            for( auto& pair : tx.pairs)
            {
               for( auto& operation : pair.operations)
               {
                  if( operation.operation == rm::op_commit)
                  {
                     committed = true;
                     first_commit = std::min( first_commit, operation.begin);
                     break;
                  }
                  if( operation.operation == rm::op_rollback)
                  {
                     aborted = true;
                     break;
                  }
               }
               for( auto& operation : pair.operations)
                  if( operation.operation == rm::op_prepare)
                     last_prepare = std::max( last_prepare, operation.end);
               if( count( pair, rm::op_prepare) && std::any_of( pair.operations.begin(), pair.operations.end(), []( auto& o){ return o.operation == rm::op_prepare && o.code == XA_RDONLY;}))
                  pbt::require( count( pair, rm::op_commit) == 0 && ( count( pair, rm::op_rollback) == 0 || tx.kind == commit_owner_dies), story, ": a read only resource has to do with the outcome");
            }
            pbt::require( ! ( committed && aborted), story, ": committed and rolled back");
            pbt::require( last_prepare < first_commit, story, ": commit before all are prepared");
         }

         if( tx.hurt)
         {
            source.label( "hurt");
            pbt::require( tx.kind == owner_dies || tx.kind == commit_owner_dies || tx.finals == 1, story, ": ", tx.finals, " final replies");
            // the others are prepared at most once, and then decided once
            for( auto& pair : tx.pairs)
            {
               if( resources[ pair.resource].destroyed || tx.kind == commit_owner_dies || tx.undecided)
                  continue;
               pbt::require( count( pair, rm::op_prepare) <= pair.prepare_calls, story, ": prepared more than once");
               if( count( pair, rm::op_prepare) && pair.prepare == XA_OK)
                  pbt::require( count( pair, rm::op_commit) + count( pair, rm::op_rollback) >= 1, story, ": prepared but not decided");
            }
            continue;
         }

         if( tx.kind == commit_owner_dies)
            continue;

         // the exact protocol
         enum class Expect { nothing, one_phase, two_phase, rollback};
         const auto n = tx.pairs.size();
         bool any_prepared = false;
         int prepared = XA_RDONLY, all_commit = XA_RDONLY, all_rollback = XA_RDONLY;
         for( auto& pair : tx.pairs)
         {
            prepared = severest( prepared, pair.prepare);
            all_commit = severest( all_commit, pair.commit);
            all_rollback = severest( all_rollback, pair.rollback);
            any_prepared = any_prepared || pair.prepare == XA_OK;
         }
         auto expect = [&]( const Pair& pair, bool prepare, bool commit, bool rollback, long commit_flags = 0)
         {
            pbt::require( count( pair, rm::op_prepare) == ( prepare ? pair.prepare_calls : 0), story, ": prepare of ", resources[ pair.resource].name);
            pbt::require( count( pair, rm::op_commit) == ( commit ? pair.commit_calls : 0), story, ": commit of ", resources[ pair.resource].name);
            pbt::require( count( pair, rm::op_rollback) == ( rollback ? pair.rollback_calls : 0), story, ": rollback of ", resources[ pair.resource].name);
            for( auto& operation : pair.operations)
               pbt::require( operation.flags == ( operation.operation == rm::op_commit ? commit_flags : 0), story, ": flags ", operation.flags, " to ", rm::name( operation.operation), " of ", resources[ pair.resource].name);
         };
         auto replies = [&]( std::vector< std::pair< std::string, int>> expected)
         {
            bool same = expected.size() == tx.replies.size();
            for( std::size_t index = 0; same && index < expected.size(); ++index)
               same = expected[ index].first == tx.replies[ index].what && expected[ index].second == tx.replies[ index].code;
            if( same)
               return;
            std::string what;
            for( auto& reply : expected)
               what += pbt::cat( " ", reply.first, "=", reply.second);
            pbt::fail( story, ": expected replies", what);
         };
         // every final reply comes after all the resources are done
         auto last_operation = 0;
         for( auto& pair : tx.pairs)
            for( auto& operation : pair.operations)
               last_operation = std::max( last_operation, operation.end);

         switch( tx.kind)
         {
            case client_commit:
               if( n == 0)
                  replies( { { "commit", TX_OK}});
               else if( n == 1)
               {
                  expect( tx.pairs[ 0], false, true, false, TMONEPHASE);
                  replies( { { "commit", to_tx( outward( all_commit))}});
               }
               else
               {
                  ++tpc;
                  if( prepared == XA_RDONLY)
                  {
                     for( auto& pair : tx.pairs)
                        expect( pair, true, false, false);
                     replies( { { "commit", TX_OK}});
                  }
                  else if( prepared == XA_OK)
                  {
                     int code = XA_OK;
                     for( auto& pair : tx.pairs)
                     {
                        expect( pair, true, pair.prepare == XA_OK, false);
                        if( pair.prepare == XA_OK)
                           code = severest( code, pair.commit);
                     }
                     replies( { { "prepare", TX_OK}, { "commit", to_tx( outward( code))}});
                  }
                  else
                  {
                     ++rolledback;
                     int code = prepared;
                     for( auto& pair : tx.pairs)
                     {
                        expect( pair, true, false, pair.prepare != XA_RDONLY);
                        if( pair.prepare != XA_RDONLY)
                           code = severest( code, pair.rollback);
                     }
                     replies( { { "rollback", to_tx( outward( code))}});
                  }
               }
               pbt::require( tx.replies.back().ticket > last_operation, story, ": answered before the resources were done");
               break;
            case client_rollback:
               for( auto& pair : tx.pairs)
                  expect( pair, false, false, true);
               replies( { { "rolledback", to_tx( outward( all_rollback))}});
               pbt::require( tx.replies.back().ticket > last_operation, story, ": answered before the resources were done");
               break;
            case owner_dies:
               // possibly more than once, the resources that get involved after the owner is gone give a rollback of their own
               for( auto& pair : tx.pairs)
               {
                  pbt::require( count( pair, rm::op_prepare) == 0 && count( pair, rm::op_commit) == 0, story, ": a transaction with a dead owner is committed");
                  pbt::require( count( pair, rm::op_rollback) >= pair.rollback_calls, story, ": no rollback of ", resources[ pair.resource].name);
                  for( auto& operation : pair.operations)
                     pbt::require( operation.flags == 0, story, ": flags ", operation.flags, " to rollback");
               }
               ++rolledback;
               break;
            case upstream_two_phase:
               if( n == 0)
                  replies( { { "resource prepare", XA_RDONLY}});
               else if( prepared == XA_RDONLY)
               {
                  for( auto& pair : tx.pairs)
                     expect( pair, true, false, false);
                  replies( { { "resource prepare", XA_RDONLY}});
               }
               else if( prepared == XA_OK && tx.undecided)
               {
                  for( auto& pair : tx.pairs)
                     expect( pair, true, false, false);
                  replies( { { "resource prepare", XA_OK}});
               }
               else
               {
                  ++tpc;
                  bool commit = prepared == XA_OK && tx.decide_commit;
                  int code = XA_RDONLY;
                  // an unknown xid is the same as read only, if there is nobody that has prepared
                  bool read_only_reply = prepared == XAER_NOTA && ! any_prepared;
                  if( prepared == XAER_NOTA)
                     prepared = XA_RBROLLBACK;
                  for( auto& pair : tx.pairs)
                  {
                     auto active = pair.prepare != XA_RDONLY && ! read_only_reply;
                     expect( pair, true, commit && active, ! commit && active);
                     if( active)
                        code = severest( code, commit ? pair.commit : pair.rollback);
                  }
                  if( read_only_reply)
                     replies( { { "resource prepare", XA_RDONLY}});
                  else
                     replies( { { "resource prepare", prepared}, { commit ? "resource commit" : "resource rollback", outward( code)}});
               }
               break;
            case upstream_one_phase:
               if( n == 0)
                  replies( { { "resource commit", XA_RDONLY}});
               else
               {
                  ++tpc;
                  bool read_only_reply = prepared == XAER_NOTA && ! any_prepared;
                  if( prepared == XAER_NOTA)
                     prepared = read_only_reply ? XA_RDONLY : XA_RBROLLBACK;
                  int code = prepared;
                  for( auto& pair : tx.pairs)
                  {
                     auto active = pair.prepare != XA_RDONLY && ! read_only_reply;
                     bool commit = prepared == XA_OK;
                     expect( pair, true, commit && active, ! commit && active);
                     if( active)
                        code = severest( code, commit ? pair.commit : pair.rollback);
                  }
                  replies( { { "resource commit", outward( code)}});
               }
               break;
            case upstream_rollback:
               for( auto& pair : tx.pairs)
                  expect( pair, false, false, true);
               replies( { { "resource rollback", outward( all_rollback)}});
               break;
            case commit_owner_dies: break;
         }
         if( tx.duplicate)
            pbt::require( tx.duplicate_replies == 1, story, ": the second request has ", tx.duplicate_replies, " replies");
      }

      // what is left in the log is what is prepared and not decided
      {
         std::size_t expected = 0;
         bool exact = true;
         for( auto& tx : txs)
         {
            if( tx->hurt)
               exact = false;
            if( ! tx->undecided)
               continue;
            std::set< int> branches;
            for( auto& pair : tx->pairs)
               if( pair.prepare != XA_RDONLY)
                  branches.insert( pair.branch);
            bool ok = true;
            int prepared = XA_RDONLY;
            for( auto& pair : tx->pairs)
               prepared = severest( prepared, pair.prepare);
            if( prepared == XA_OK)
               expected += branches.size();
         }
         domain.reset();
         if( exact)
            pbt::require( rows( log_path, {}) == int( expected), "the log has ", rows( log_path, {}), " branches after shutdown, expected ", expected);
      }

      if( scaled) source.label( "scaled");
      source.nontrivial( tpc > 0 && txs.size() > 2 && rolledback > 0);
   }
}

int main( int argc, char** argv)
{
   pbt::Options options;
   options.property = "T01";
   options.rule = "a case is up to 14 concurrent transactions (clients, dead owners, upstream coordinators) over up to three local resources with proxies and three external ones, generated answers and schedule; "
      "non-trivial: more than two transactions, at least one two-phase commit and at least one rolled back";
   options.isolated = true;
   options.quick = 800;
   options.thorough = 12000;
   options.quick_cap = 120;
   options.case_timeout = 60;
   options.assumptions = { "resource proxies do not crash"};
   return pbt::run( argc, argv, options, property);
}
