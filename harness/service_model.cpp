// S01 (--mode schedule) and S02 (--mode contract): the service manager against a model.
// Servers, remote instances, callers and the one who shuts servers down are devices of this
// process (servers have a process of their own to be killed), the service manager is the real
// one. The model says what every message has to lead to, and tolerates what it may choose
// (which of the idle instances, when a timeout that is due is noticed).
#include "sys.h"

#include "service/unittest/utility.h"

#include "common/message/service.h"
#include "common/message/domain.h"
#include "common/message/event.h"
#include "common/message/transaction.h"
#include "common/communication/ipc.h"
#include "common/communication/instance.h"
#include "domain/discovery/api.h"
#include "domain/message/discovery.h"

#include <signal.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <deque>
#include <set>

using namespace casual;
namespace message = casual::common::message;
namespace device = casual::common::communication::device;
namespace discovery_message = casual::domain::message::discovery;
using Inbound = common::communication::ipc::inbound::Device;
using clk = platform::time::clock::type;
using point = platform::time::point::type;
using Semantic = message::service::lookup::request::context::Semantic;
using Requester = message::service::lookup::request::context::Requester;

namespace
{
   constexpr auto slack = std::chrono::seconds{ 6};

   template< typename C>
   std::string list( const C& values)
   {
      std::ostringstream out;
      out << '[';
      for( auto& value : values)
         out << ' ' << value;
      out << " ]";
      return out.str();
   }

   template< typename M>
   void sm( M&& value)
   {
      device::blocking::send( common::communication::instance::outbound::service::manager::device(), value);
   }

   enum struct Contract { linger, kill, terminate};

   // ------------------------------------------------ what is observed

   struct Observed
   {
      enum Kind { served, absent, timed_out, forwarded, call_error, call_timeout, discarded, replied, shutdown};
      Kind kind;
      std::string correlation;
      int client = -1;
      common::process::Handle process;
      std::string name, requested;
      std::optional< platform::time::unit> remaining;
      platform::time::unit pending{};
      std::vector< common::process::Handle> processes;
      point when;
      bool used = false;
   };

   const char* kind_name( Observed::Kind kind)
   {
      const char* names[] = { "served", "absent", "timed out", "forwarded", "call error", "call timeout", "discarded", "replied", "shutdown reply"};
      return names[ kind];
   }

   // ------------------------------------------------ the model

   struct Remote { int order = 0; int hops = 0;};

   struct Service
   {
      std::string origin;
      std::optional< platform::time::unit> timeout;
      Contract contract = Contract::linger;
      std::optional< bool> discoverable; // configured, or the first that advertised
      std::vector< int> servers;
      std::map< int, int> remotes;       // remote -> hops
   };

   struct Lookup
   {
      std::string id;
      int client;
      std::string requested;
      Semantic semantic;
      Requester requester;
      std::optional< point> deadline;
      std::string gtrid;
      point sent;
   };

   struct Due { point low, high;};

   struct Call
   {
      Lookup lookup;
      int service;
      bool consumed = false;  // the caller knows, or does not care
      bool late = false;      // timed out
      bool discarded = false;
   };

   struct Server
   {
      bool alive = true;
      bool known = false;
      bool shutting = false;
      bool doomed = false;    // it will be killed
      std::set< int> services;
      std::optional< Call> call;
   };

   struct Shutdown
   {
      std::string id;
      std::set< int> waits;
      std::set< int> acked;
   };

   struct Model
   {
      std::vector< Service> services;
      std::map< std::string, int> exposed;
      std::map< std::string, std::vector< std::string>> routes;
      std::vector< Server> servers;
      std::map< int, Remote> remotes;              // connected ones, order
      std::map< int, std::map< int, int>> unused;
      std::vector< Lookup> pending;
      std::map< std::string, Due> due;             // deadlines, of pending lookups and of calls
      std::map< std::string, std::set< int>> associations;
      std::vector< Shutdown> shutdowns;
      std::map< std::string, int> acked;           // name -> calls
      std::optional< platform::time::unit> global_timeout;
      Contract global_contract = Contract::linger;
      std::set< std::string> rollbacks;            // transactions that have to be rolled back
   };

   struct Mismatch { std::string what;};

   template< typename... Ts>
   [[noreturn]] void mismatch( Ts&&... ts) { throw Mismatch{ pbt::cat( std::forward< Ts>( ts)...)};}

   struct World
   {
      pbt::Source& source;
      bool contract_mode;

      struct Actor
      {
         std::unique_ptr< Inbound> inbound;
         common::process::Handle process;
         pid_t pid = -1;
         bool alive = true;
      };

      std::vector< Actor> clients;
      std::vector< Actor> servers;
      std::vector< Actor> remotes;
      std::vector< std::string> aliases; // of servers
      Actor shutdowner;
      Actor spy;                         // an external resource, sees what is rolled back

      Model model;
      std::deque< Observed> observed; // (references survive when it grows)
      std::set< std::string> rolledback;
      std::map< std::string, common::transaction::ID> trids;
      std::set< std::string> expected_rollbacks;
      std::vector< std::string> restricted; // expressions for the alias "restricted"
      bool restriction = false;

      // ------------------------------------------------ actors

      Actor make( pid_t pid)
      {
         Actor result;
         result.inbound = std::make_unique< Inbound>();
         result.pid = pid;
         result.process = common::process::Handle{ common::strong::process::id{ pid}, result.inbound->connector().handle().ipc()};
         return result;
      }

      static pid_t spawn()
      {
         auto pid = ::fork();
         if( pid == 0)
         {
            ::prctl( PR_SET_PDEATHSIG, SIGKILL);
            for( int signal : { SIGINT, SIGTERM, SIGABRT, SIGQUIT, SIGUSR1, SIGHUP})
               ::signal( signal, SIG_DFL);
            ::sigset_t set;
            ::sigemptyset( &set);
            ::sigprocmask( SIG_SETMASK, &set, nullptr);
            for( ;;)
               ::pause();
         }
         return pid;
      }

      static std::string text( const common::strong::correlation::id& id) { return pbt::cat( id);}

      int server_of( const common::process::Handle& process) const
      {
         for( std::size_t index = 0; index < servers.size(); ++index)
            if( servers[ index].process == process)
               return index;
         return -1;
      }
      int remote_of( const common::process::Handle& process) const
      {
         for( std::size_t index = 0; index < remotes.size(); ++index)
            if( remotes[ index].process == process)
               return index;
         return -1;
      }

      void drain()
      {
         for( std::size_t client = 0; client < clients.size(); ++client)
         {
            if( ! clients[ client].inbound)
               continue;
            auto& inbound = *clients[ client].inbound;
            {
               message::service::lookup::Reply reply;
               while( device::non::blocking::receive( inbound, reply))
               {
                  Observed value{};
                  value.correlation = text( reply.correlation);
                  value.client = client;
                  value.process = reply.process;
                  value.name = reply.service.name;
                  value.requested = reply.service.logical_name();
                  value.remaining = reply.deadline.remaining;
                  value.pending = reply.pending;
                  value.when = clk::now();
                  switch( reply.state)
                  {
                     case decltype( reply.state)::absent: value.kind = Observed::absent; break;
                     case decltype( reply.state)::timeout: value.kind = Observed::timed_out; break;
                     case decltype( reply.state)::idle:
                        value.kind = server_of( reply.process) >= 0 || remote_of( reply.process) >= 0 ? Observed::served : Observed::forwarded;
                        break;
                  }
                  add( std::move( value));
                  reply = {};
               }
            }
            {
               message::service::call::Reply reply;
               while( device::non::blocking::receive( inbound, reply))
               {
                  Observed value{};
                  value.correlation = text( reply.correlation);
                  value.client = client;
                  value.when = clk::now();
                  if( reply.code.result == common::code::xatmi::service_error)
                     value.kind = Observed::call_error;
                  else if( reply.code.result == common::code::xatmi::timeout)
                     value.kind = Observed::call_timeout;
                  else
                     pbt::fail( "a call reply from the service manager with ", reply.code.result);
                  add( std::move( value));
                  reply = {};
               }
            }
            {
               message::service::lookup::discard::Reply reply;
               while( device::non::blocking::receive( inbound, reply))
               {
                  Observed value{};
                  value.correlation = text( reply.correlation);
                  value.client = client;
                  value.when = clk::now();
                  value.kind = reply.state == decltype( reply.state)::discarded ? Observed::discarded : Observed::replied;
                  add( std::move( value));
                  reply = {};
               }
            }
         }
         {
            message::domain::process::prepare::shutdown::Reply reply;
            while( device::non::blocking::receive( *shutdowner.inbound, reply))
            {
               Observed value{};
               value.kind = Observed::shutdown;
               value.correlation = text( reply.correlation);
               value.processes = reply.processes;
               value.when = clk::now();
               add( std::move( value));
               reply = {};
            }
         }
         if( spy.inbound)
         {
            message::transaction::resource::rollback::Request request;
            while( device::non::blocking::receive( *spy.inbound, request))
            {
               auto range = common::transaction::id::range::global( request.trid);
               std::string gtrid( reinterpret_cast< const char*>( std::data( range)), std::size( range));
               source.log( "rollback of a transaction");
               rolledback.insert( gtrid);
               message::transaction::resource::rollback::Reply reply;
               reply.correlation = request.correlation;
               reply.execution = request.execution;
               reply.resource = request.resource;
               reply.trid = request.trid;
               reply.state = common::code::xa::ok;
               device::blocking::send( common::communication::instance::outbound::transaction::manager::device(), reply);
               request = {};
            }
         }
      }

      void add( Observed value)
      {
         source.log( "   ", kind_name( value.kind), " ", tag( value.correlation), value.kind == Observed::served ? pbt::cat( " by ", who( value.process)) : std::string{},
            value.remaining ? pbt::cat( " remaining ", value.remaining->count() / 1000, "us") : std::string{});
         observed.push_back( std::move( value));
      }

      std::string who( const common::process::Handle& process) const
      {
         if( auto index = server_of( process); index >= 0)
            return pbt::cat( "server ", index);
         if( auto index = remote_of( process); index >= 0)
            return pbt::cat( "remote ", index);
         return "the forward";
      }

      std::map< std::string, int> numbers;
      std::string tag( const std::string& id)
      {
         auto found = numbers.find( id);
         return found == numbers.end() ? "?" : pbt::cat( '#', found->second);
      }
      common::strong::correlation::id correlation()
      {
         common::strong::correlation::id result{ common::uuid::make()};
         int number = numbers.size() + 1;
         numbers[ text( result)] = number;
         ids.emplace( text( result), result);
         return result;
      }

      // everything sent so far is handled when this returns
      void sync()
      {
         static const std::vector< std::string> universe{ "a", "b", "c", "d", "e", "x", "y", "z"};
         discovery_message::lookup::Request request{ shutdowner.process};
         for( auto& name : universe)
            request.content.services.push_back( name);
         request.scope = decltype( request.scope)::extended;
         request.correlation = common::strong::correlation::id{ common::uuid::make()};
         sm( request);
         discovery_message::lookup::Reply reply;
         auto since = clk::now();
         while( ! device::non::blocking::receive( *shutdowner.inbound, reply, request.correlation))
         {
            pbt::require( clk::now() - since < std::chrono::seconds{ 20}, "the service manager does not answer");
            ::usleep( 30);
         }
         visible.clear();
         for( auto& service : reply.content.services)
            visible[ service.name] = service.property.hops;
         drain();
      }
      std::map< std::string, int> visible;

      // ------------------------------------------------ the model at work

      Observed* take( Model&, const std::string& id, std::vector< Observed*>& list, std::initializer_list< Observed::Kind> kinds)
      {
         for( auto* value : list)
            if( ! value->used && value->correlation == id && std::find( kinds.begin(), kinds.end(), value->kind) != kinds.end())
            {
               value->used = true;
               return value;
            }
         return nullptr;
      }

      struct Step
      {
         std::vector< Observed*> list;   // what is to be explained
         std::vector< std::string> late; // lookups that will get an absent reply, later
         point begin, end;
      };

      std::optional< Due> due_of( const Model& model, const Lookup& lookup, const Service& service, point low, point high) const
      {
         std::optional< Due> result;
         if( lookup.deadline)
            result = Due{ *lookup.deadline, *lookup.deadline};
         if( service.timeout && service.timeout->count() > 0)
         {
            if( ! result || result->low > low + *service.timeout)
            {
               auto latest = high + *service.timeout;
               result = Due{ low + *service.timeout, result ? std::min( result->high, latest) : latest};
            }
            else if( result->low > low + *service.timeout)
               result->low = low + *service.timeout;
         }
         return result;
      }

      static bool silent( const Lookup& lookup) { return lookup.semantic == Semantic::no_reply || lookup.semantic == Semantic::forward_request;}

      void check_names( const Lookup& lookup, const Service& service, const Observed& value)
      {
         if( value.client != lookup.client) mismatch( tag( lookup.id), ": the reply went to another caller");
         if( value.name != service.origin) mismatch( tag( lookup.id), ": asked for ", lookup.requested, ", that is ", service.origin, ", got ", value.name);
         if( value.requested != lookup.requested) mismatch( tag( lookup.id), ": asked for ", lookup.requested, ", the reply says ", value.requested);
      }

      void discover( Model& model, World::Step& step, Lookup lookup)
      {
         if( lookup.semantic == Semantic::wait)
         {
            model.pending.push_back( std::move( lookup));
            return;
         }
         // there is nobody else to ask
         step.late.push_back( lookup.id);
      }

      void absent( Model& model, World::Step& step, const Lookup& lookup)
      {
         if( ! clients[ lookup.client].alive)
            return;
         auto value = take( model, lookup.id, step.list, { Observed::absent});
         if( ! value) mismatch( tag( lookup.id), ": ", lookup.requested, " is absent, and that is not told");
         if( value->client != lookup.client) mismatch( tag( lookup.id), ": the reply went to another caller");
         if( value->name != lookup.requested) mismatch( tag( lookup.id), ": absent ", lookup.requested, ", the reply says ", value->name);
      }

      // @param waited: it has been pending
      void lookup( Model& model, World::Step& step, Lookup lookup, bool waited)
      {
         auto found = model.exposed.find( lookup.requested);
         if( found == model.exposed.end())
         {
            if( lookup.requester == Requester::internal)
               discover( model, step, std::move( lookup));
            else
               absent( model, step, lookup);
            return;
         }
         auto index = found->second;
         auto& service = model.services[ index];

         if( ! service.servers.empty())
         {
            bool idle = false;
            for( auto server : service.servers)
               idle = idle || ( ! model.servers[ server].call && ! model.servers[ server].doomed);
            if( idle)
            {
               auto value = take( model, lookup.id, step.list, { Observed::served});
               if( ! value) mismatch( tag( lookup.id), ": there is an idle instance for ", lookup.requested, ", and the caller is not served");
               auto server = server_of( value->process);
               if( server < 0) mismatch( tag( lookup.id), ": ", lookup.requested, " has local instances, but ", who( value->process), " serves");
               if( std::find( service.servers.begin(), service.servers.end(), server) == service.servers.end())
                  mismatch( tag( lookup.id), ": ", lookup.requested, " is served by server ", server, ", that does not have it");
               auto& state = model.servers[ server];
               if( state.call) mismatch( tag( lookup.id), ": served by server ", server, ", that is busy with ", tag( state.call->lookup.id));
               if( state.doomed) mismatch( tag( lookup.id), ": served by server ", server, ", that is about to be killed");
               check_names( lookup, service, *value);
               if( ! waited && value->pending.count() != 0) mismatch( tag( lookup.id), ": served directly, but it is said to have been pending");
               if( waited && lookup.semantic != Semantic::wait && value->pending.count() <= 0) mismatch( tag( lookup.id), ": has been pending, and that is not told");

               if( ! model.due.contains( lookup.id))
                  if( auto due = due_of( model, lookup, service, waited ? step.begin : lookup.sent, step.end))
                     model.due[ lookup.id] = *due;
               remaining( model, lookup, *value, step);
               auto call = Call{ lookup, index};
               call.consumed = silent( lookup);
               if( call.consumed)
                  model.due.erase( lookup.id);
               state.call = std::move( call);
               return;
            }
            if( lookup.semantic == Semantic::no_reply)
            {
               if( ! clients[ lookup.client].alive)
                  return;
               auto value = take( model, lookup.id, step.list, { Observed::forwarded});
               if( ! value) mismatch( tag( lookup.id), ": a call without reply is not given to the forward");
               check_names( lookup, service, *value);
               return;
            }
            if( lookup.semantic != Semantic::wait && ! model.due.contains( lookup.id))
               if( auto due = due_of( model, lookup, service, lookup.sent, step.end))
                  model.due[ lookup.id] = *due;
            model.pending.push_back( std::move( lookup));
            return;
         }

         if( lookup.requester == Requester::external)
         {
            absent( model, step, lookup);
            return;
         }

         if( ! service.remotes.empty())
         {
            std::optional< std::pair< int, int>> best;
            for( auto& [ remote, hops] : service.remotes)
            {
               auto rank = std::pair{ model.remotes.at( remote).order, hops};
               if( ! best || rank < *best)
                  best = rank;
            }
            std::set< int> allowed;
            for( auto& [ remote, hops] : service.remotes)
               if( std::pair{ model.remotes.at( remote).order, hops} == *best)
                  allowed.insert( remote);
            if( ! lookup.gtrid.empty())
            {
               std::set< int> preferred;
               for( auto remote : model.associations[ lookup.gtrid])
                  if( allowed.contains( remote))
                     preferred.insert( remote);
               if( ! preferred.empty())
                  allowed = preferred;
            }
            if( ! clients[ lookup.client].alive)
               return;
            auto value = take( model, lookup.id, step.list, { Observed::served});
            if( ! value) mismatch( tag( lookup.id), ": there is a remote instance for ", lookup.requested, ", and the caller is not served");
            auto remote = remote_of( value->process);
            if( remote < 0) mismatch( tag( lookup.id), ": ", lookup.requested, " has no local instances, but ", who( value->process), " serves");
            if( ! service.remotes.contains( remote)) mismatch( tag( lookup.id), ": ", lookup.requested, " is served by remote ", remote, ", that does not have it");
            if( ! allowed.contains( remote)) mismatch( tag( lookup.id), ": ", lookup.requested, " is served by remote ", remote, ", there is a better one");
            check_names( lookup, service, *value);
            if( ! lookup.gtrid.empty())
               model.associations[ lookup.gtrid].insert( remote);
            if( auto due = due_of( model, lookup, service, waited ? step.begin : lookup.sent, step.end))
            {
               model.due[ lookup.id] = *due;
               remaining( model, lookup, *value, step);
               model.due.erase( lookup.id);
            }
            else if( value->remaining)
               mismatch( tag( lookup.id), ": a deadline, and there is none");
            return;
         }
         discover( model, step, std::move( lookup));
      }

      void remaining( Model& model, const Lookup& lookup, const Observed& value, Step& step)
      {
         auto found = model.due.find( lookup.id);
         if( found == model.due.end())
         {
            if( value.remaining) mismatch( tag( lookup.id), ": a deadline, and there is none");
            return;
         }
         if( ! value.remaining) mismatch( tag( lookup.id), ": the reply has no deadline");
         // the manager had a now between the begin and the end of the step
         auto low = found->second.low - step.end;
         auto high = found->second.high - step.begin;
         auto some = std::chrono::microseconds{ 2};
         if( *value.remaining < low - some || *value.remaining > high + some)
            mismatch( tag( lookup.id), ": the remaining time is ", value.remaining->count() / 1000, "us, expected between ", ( low.count() / 1000), "us and ", ( high.count() / 1000), "us");
      }

      // one has become idle, whom does it serve? The one that has waited longest (those with the
      // semantic wait keep their order, but may be passed by others)
      void next( Model& model, World::Step& step, int server)
      {
         auto& state = model.servers[ server];
         if( state.call || state.doomed || state.shutting || ! state.alive || ! state.known)
            return;
         std::vector< std::size_t> candidates;
         std::set< std::string> heads;
         bool regular = false;
         for( std::size_t index = 0; index < model.pending.size(); ++index)
         {
            auto& pending = model.pending[ index];
            auto exposed = model.exposed.find( pending.requested);
            if( exposed == model.exposed.end() || ! state.services.contains( exposed->second))
               continue;
            const bool wait = pending.semantic == Semantic::wait;
            if( wait ? heads.insert( pending.requested).second : ! std::exchange( regular, true))
               candidates.push_back( index);
         }
         if( candidates.empty())
            return;
         auto chosen = candidates.front();
         for( auto index : candidates)
            for( auto* value : step.list)
               if( ! value->used && value->kind == Observed::served && value->correlation == model.pending[ index].id && server_of( value->process) == server)
               {
                  chosen = index;
                  goto found;
               }
         found:
         auto pending = model.pending[ chosen];
         model.pending.erase( model.pending.begin() + chosen);
         lookup( model, step, std::move( pending), true);
      }

      // those that wait for something no local instance has any more
      void reconsider( Model& model, World::Step& step)
      {
         auto all = std::exchange( model.pending, {});
         for( auto& pending : all)
         {
            auto exposed = model.exposed.find( pending.requested);
            const bool local = exposed != model.exposed.end() && ! model.services[ exposed->second].servers.empty();
            if( local)
               model.pending.push_back( pending);
            else
            {
               const auto id = pending.id;
               lookup( model, step, pending, true);
               // (those that are looked for elsewhere can still reach their deadline)
               if( std::none_of( model.pending.begin(), model.pending.end(), [&]( auto& value){ return value.id == id;})
                  && std::find( step.late.begin(), step.late.end(), id) == step.late.end())
                  model.due.erase( id);
            }
         }
      }

      int service_of( Model& model, const std::string& origin, std::optional< platform::time::unit> timeout, Contract contract)
      {
         for( std::size_t index = 0; index < model.services.size(); ++index)
            if( model.services[ index].origin == origin)
               return index;
         Service service;
         service.origin = origin;
         service.timeout = timeout;
         service.contract = contract;
         model.services.push_back( service);
         int index = model.services.size() - 1;
         if( auto found = model.routes.find( origin); found != model.routes.end())
            for( auto& name : found->second)
               model.exposed[ name] = index;
         else
            model.exposed[ origin] = index;
         return index;
      }

      void advertise( Model& model, World::Step& step, int server, const std::vector< std::pair< std::string, bool>>& add, const std::vector< std::string>& remove)
      {
         auto& state = model.servers[ server];
         if( state.shutting || state.doomed)
            return; // it's on its way out
         state.known = true;
         for( auto& [ name, discoverable] : add)
         {
            auto service = service_of( model, name, model.global_timeout, model.global_contract);
            if( ! model.services[ service].discoverable)
               model.services[ service].discoverable = discoverable;
            if( state.services.insert( service).second)
               model.services[ service].servers.push_back( server);
         }
         for( auto& name : remove)
            for( std::size_t service = 0; service < model.services.size(); ++service)
               if( model.services[ service].origin == name && state.services.erase( service))
                  std::erase( model.services[ service].servers, server);
         next( model, step, server);
         reconsider( model, step);
      }

      void forget( Model& model, int server)
      {
         auto& state = model.servers[ server];
         for( auto service : state.services)
            std::erase( model.services[ service].servers, server);
         state.services.clear();
         state.known = false;
      }

      void shutdown_done( Model& model, World::Step& step)
      {
         for( auto& shutdown : model.shutdowns)
         {
            if( ! shutdown.waits.empty() || shutdown.id.empty())
               continue;
            auto value = take( model, shutdown.id, step.list, { Observed::shutdown});
            if( ! value) mismatch( tag( shutdown.id), ": all servers to shut down are done, and there is no reply");
            std::set< int> got;
            for( auto& process : value->processes)
               got.insert( server_of( process));
            if( got != shutdown.acked) mismatch( tag( shutdown.id), ": the reply of the shutdown has other servers: ", list( got), ", expected ", list( shutdown.acked));
            shutdown.id.clear();
         }
         std::erase_if( model.shutdowns, []( auto& value){ return value.id.empty();});
      }

      void exit( Model& model, World::Step& step, int server)
      {
         auto& state = model.servers[ server];
         for( auto& shutdown : model.shutdowns)
            shutdown.waits.erase( server);
         shutdown_done( model, step);
         if( state.call && ! state.call->consumed && clients[ state.call->lookup.client].alive)
         {
            auto value = take( model, state.call->lookup.id, step.list, { Observed::call_error});
            if( ! value) mismatch( tag( state.call->lookup.id), ": the server that served died, and the caller is not told");
            if( value->client != state.call->lookup.client) mismatch( tag( state.call->lookup.id), ": the error went to another caller");
         }
         if( state.call)
            model.due.erase( state.call->lookup.id);
         state.call.reset();
         forget( model, server);
         state.alive = false;
         reconsider( model, step);
      }

      void ack( Model& model, World::Step& step, int server)
      {
         auto& state = model.servers[ server];
         auto call = *std::exchange( state.call, {});
         model.due.erase( call.lookup.id);
         ++model.acked[ call.lookup.requested];
         if( call.late && ! call.lookup.gtrid.empty())
            model.rollbacks.insert( call.lookup.gtrid);
         if( state.shutting)
         {
            for( auto& shutdown : model.shutdowns)
               if( shutdown.waits.erase( server))
                  shutdown.acked.insert( server);
            shutdown_done( model, step);
            return;
         }
         next( model, step, server);
      }

      void discard( Model& model, World::Step& step, const std::string& id, int client, bool reply, const std::string& reply_id)
      {
         auto found = std::find_if( model.pending.begin(), model.pending.end(), [&]( auto& value){ return value.id == id;});
         const bool waiting = found != model.pending.end();
         if( waiting)
         {
            model.pending.erase( found);
            model.due.erase( id);
         }
         if( reply)
         {
            auto value = take( model, reply_id, step.list, { Observed::discarded, Observed::replied});
            if( ! value) mismatch( tag( id), ": no reply when discarded");
            if( ( value->kind == Observed::discarded) != waiting) mismatch( tag( id), ": discarded, the reply is ", kind_name( value->kind));
            if( value->client != client) mismatch( tag( id), ": the reply of discard went to another");
         }
         if( waiting)
            return;
         for( std::size_t server = 0; server < model.servers.size(); ++server)
            if( model.servers[ server].call && model.servers[ server].call->lookup.id == id)
            {
               model.servers[ server].call.reset();
               model.due.erase( id);
               if( model.servers[ server].shutting)
               {
                  for( auto& shutdown : model.shutdowns)
                     if( shutdown.waits.erase( server))
                        shutdown.acked.insert( server);
                  shutdown_done( model, step);
                  continue;
               }
               next( model, step, server);
            }
      }

      void prepare_shutdown( Model& model, World::Step& step, const std::set< int>& targets, const std::set< common::process::Handle>& unknown, const std::string& id)
      {
         std::set< int> direct, busy;
         for( auto server : targets)
         {
            auto& state = model.servers[ server];
            if( ! state.known)
            {
               direct.insert( server);
               continue;
            }
            for( auto service : state.services)
               std::erase( model.services[ service].servers, server);
            state.shutting = true;
            if( state.call)
               busy.insert( server);
            else
               direct.insert( server);
         }
         if( ! direct.empty() || ! unknown.empty())
         {
            auto value = take( model, id, step.list, { Observed::shutdown});
            if( ! value) mismatch( tag( id), ": no reply for the idle servers to shut down");
            std::set< int> got;
            std::size_t others = 0;
            for( auto& process : value->processes)
            {
               if( unknown.contains( process))
                  ++others;
               else
                  got.insert( server_of( process));
            }
            if( got != direct || others != unknown.size()) mismatch( tag( id), ": the reply of the shutdown has servers ", list( got), ", expected ", list( direct));
         }
         if( ! busy.empty())
            model.shutdowns.push_back( { id, busy, {}});
         reconsider( model, step);
      }

      void timeout( Model& model, Step& step, const Observed& value)
      {
         auto due = model.due.find( value.correlation);
         if( due == model.due.end()) mismatch( tag( value.correlation), ": timed out, and has no deadline");
         if( value.when < due->second.low) mismatch( tag( value.correlation), ": timed out ", ( due->second.low - value.when).count() / 1000, "us too early");
         if( value.kind == Observed::timed_out)
         {
            auto found = std::find_if( model.pending.begin(), model.pending.end(), [&]( auto& pending){ return pending.id == value.correlation;});
            if( found == model.pending.end() && std::erase( step.late, value.correlation))
            {
               model.due.erase( value.correlation);
               return;
            }
            if( found == model.pending.end()) mismatch( tag( value.correlation), ": told that the lookup timed out, but it does not wait");
            if( found->client != value.client) mismatch( tag( value.correlation), ": the timeout went to another");
            model.pending.erase( found);
            model.due.erase( value.correlation);
            return;
         }
         for( std::size_t server = 0; server < model.servers.size(); ++server)
         {
            auto& state = model.servers[ server];
            if( ! state.call || state.call->lookup.id != value.correlation || state.call->consumed)
               continue;
            if( state.call->lookup.client != value.client) mismatch( tag( value.correlation), ": the timeout went to another");
            state.call->consumed = true;
            state.call->late = true;
            model.due.erase( value.correlation);
            if( model.services[ state.call->service].contract != Contract::linger)
               state.doomed = true;
            return;
         }
         mismatch( tag( value.correlation), ": told that the call timed out, but nobody serves it");
      }

      // ------------------------------------------------ operations

      using Operation = std::function< void( Model&, Step&)>;
      std::vector< Operation> burst;
      point begin;

      void start()
      {
         burst.clear();
         begin = clk::now();
      }

      //! explains what has been observed with what has been sent
      void settle()
      {
         sync();
         auto end = clk::now();

         std::vector< std::size_t> timeouts, rest;
         for( std::size_t index = 0; index < observed.size(); ++index)
            ( observed[ index].kind == Observed::timed_out || observed[ index].kind == Observed::call_timeout ? timeouts : rest).push_back( index);

         const std::size_t positions = burst.size() + 1;
         std::size_t combinations = 1;
         for( std::size_t index = 0; index < timeouts.size() && combinations < 4000; ++index)
            combinations *= positions;

         std::optional< std::pair< long, std::string>> problem;
         for( std::size_t combination = 0; combination < combinations; ++combination)
         {
            Model attempt = model;
            std::size_t done = 0;
            Step step;
            step.begin = begin;
            step.end = end;
            for( auto& value : observed)
               value.used = false;
            for( auto index : rest)
               step.list.push_back( &observed[ index]);
            try
            {
               for( std::size_t position = 0; position < positions; ++position)
               {
                  done = position;
                  auto code = combination;
                  for( auto index : timeouts)
                  {
                     if( code % positions == position)
                     {
                        timeout( attempt, step, observed[ index]);
                        observed[ index].used = true;
                     }
                     code /= positions;
                  }
                  if( position < burst.size())
                     burst[ position]( attempt, step);
               }
               // what will be told, when nobody else turns out to have it
               for( auto& id : step.late)
               {
                  late( attempt, id);
                  attempt.due.erase( id);
               }
               for( auto* value : step.list)
                  if( ! value->used)
                     mismatch( tag( value->correlation), ": ", kind_name( value->kind), value->kind == Observed::served ? pbt::cat( " by ", who( value->process)) : std::string{}, ", and it should not");
               check_visible( attempt);
               model = std::move( attempt);
               // others may have come while waiting
               std::erase_if( observed, []( auto& value){ return value.used;});
               start();
               return;
            }
            catch( const Mismatch& error)
            {
               // the one that explains most is told
               auto count = std::count_if( observed.begin(), observed.end(), []( auto& value){ return value.used;}) + 100 * done;
               if( ! problem || count > problem->first)
                  problem.emplace( count, error.what);
            }
         }
         pbt::fail( problem->second);
      }

      std::map< std::string, Lookup> lookups;

      void late( const Model& model, const std::string& id)
      {
         auto& lookup = lookups.at( id);
         if( ! clients[ lookup.client].alive)
            return;
         auto since = clk::now();
         while( true)
         {
            for( auto& value : observed)
               if( ! value.used && value.correlation == id && value.kind == Observed::absent)
               {
                  value.used = true;
                  if( value.name != lookup.requested || value.client != lookup.client) mismatch( tag( id), ": absent ", lookup.requested, ", the reply says ", value.name);
                  return;
               }
            for( auto& value : observed)
               if( ! value.used && value.correlation == id && value.kind == Observed::timed_out)
                  if( auto due = model.due.find( id); due != model.due.end() && due->second.low <= value.when)
                  {
                     value.used = true;
                     return;
                  }
            if( clk::now() - since > slack)
               mismatch( tag( id), ": ", lookup.requested, " is absent, and that is not told");
            ::usleep( 50);
            drain();
         }
      }

      void send_lookup( int client, const std::string& name, Semantic semantic, Requester requester, std::optional< platform::time::unit> in, int transaction)
      {
         message::service::lookup::Request request{ clients[ client].process};
         request.correlation = correlation();
         request.requested = name;
         request.context = { semantic, requester};
         Lookup value{ text( request.correlation), client, name, semantic, requester, {}, {}, {}};
         if( in)
            request.deadline = value.deadline = clk::now() + *in;
         if( transaction >= 0)
         {
            auto& trid = transactions[ transaction];
            request.gtrid = common::transaction::global::ID{ common::transaction::id::range::global( trid)};
            auto range = common::transaction::id::range::global( trid);
            value.gtrid.assign( reinterpret_cast< const char*>( std::data( range)), std::size( range));
            trids.emplace( value.gtrid, trid);
         }
         value.sent = clk::now();
         source.log( "client ", client, " ", tag( value.id), " lookup ", name, " ", description( semantic), " ", description( requester), in ? pbt::cat( " within ", in->count() / 1000, "us") : std::string{}, transaction >= 0 ? pbt::cat( " transaction ", transaction) : std::string{});
         sm( request);
         lookups[ value.id] = value;
         burst.push_back( [ this, value]( Model& model, World::Step& step){ lookup( model, step, value, false);});
      }

      std::vector< common::transaction::ID> transactions;

      void send_ack( int server)
      {
         auto& call = *model.servers[ server].call;
         message::service::call::ACK ack;
         // the correlation of the lookup is the one of the call
         ack.correlation = ids.at( call.lookup.id);
         ack.metric.correlation = ack.correlation;
         ack.metric.service = call.lookup.requested;
         ack.metric.process = servers[ server].process;
         ack.metric.start = clk::now() - std::chrono::microseconds{ 50};
         ack.metric.end = clk::now();
         if( ! call.lookup.gtrid.empty())
         {
            ack.metric.trid = trids.at( call.lookup.gtrid);
            // the transaction has something to roll back
            if( spy.inbound)
            {
               message::transaction::resource::external::Involved involved;
               involved.process = spy.process;
               involved.trid = ack.metric.trid;
               device::blocking::send( common::communication::instance::outbound::transaction::manager::device(), involved);
            }
         }
         source.log( "server ", server, " is done with ", tag( call.lookup.id));
         sm( ack);
         burst.push_back( [ this, server]( Model& model, World::Step& step){ ack_guard( model, step, server);});
      }

      void ack_guard( Model& model, World::Step& step, int server) { ack( model, step, server);}

      std::map< std::string, common::strong::correlation::id> ids;

      // ------------------------------------------------ the generator

      std::vector< std::string> origins{ "a", "b", "c", "d"};

      std::string name()
      {
         std::vector< std::string> names = origins;
         if( contract_mode)
            for( auto& [ origin, routes] : model.routes)
               for( auto& name : routes)
                  names.insert( names.end(), 2, name);
         names.push_back( "e");
         return source.pick( names);
      }

      int client()
      {
         std::vector< int> alive;
         for( std::size_t index = 0; index < clients.size(); ++index)
            if( clients[ index].alive)
               alive.push_back( index);
         return source.pick( alive);
      }

      std::vector< int> select( auto predicate)
      {
         std::vector< int> result;
         for( std::size_t index = 0; index < servers.size(); ++index)
            if( model.servers[ index].alive && predicate( model.servers[ index]))
               result.push_back( index);
         return result;
      }

      void send_advertise( int server, int adds, int removes)
      {
         message::service::Advertise message{ servers[ server].process};
         message.alias = aliases[ server];
         std::vector< std::pair< std::string, bool>> add;
         std::vector< std::string> remove;
         auto names = origins;
         std::string what;
         for( int index = 0; index < adds + removes && ! names.empty(); ++index)
         {
            auto at = source.draw( names.size());
            auto name = names[ at];
            names.erase( names.begin() + at);
            if( index < adds)
            {
               const bool discoverable = ! contract_mode || source.chance( 75);
               message::service::advertise::Service service;
               service.name = name;
               if( ! discoverable)
                  service.visibility = common::service::visibility::Type::undiscoverable;
               message.services.add.push_back( service);
               what += pbt::cat( " +", name, discoverable ? "" : "(undiscoverable)");
               if( ! restriction || aliases[ server] != "restricted" || std::find( restricted.begin(), restricted.end(), name) != restricted.end())
                  add.emplace_back( name, discoverable);
            }
            else
            {
               message.services.remove.push_back( name);
               remove.push_back( name);
               what += pbt::cat( " -", name);
            }
         }
         source.log( "server ", server, " advertises", what);
         sm( message);
         burst.push_back( [ this, server, add, remove]( Model& model, World::Step& step){ advertise( model, step, server, add, remove);});
      }

      void new_server()
      {
         auto pid = spawn();
         servers.push_back( make( pid));
         model.servers.emplace_back();
         aliases.push_back( restriction && source.chance( 50) ? std::string( "restricted") : pbt::cat( "server", servers.size()));
      }

      void send_exit( int server)
      {
         auto& actor = servers[ server];
         ::kill( actor.pid, SIGKILL);
         int status;
         ::waitpid( actor.pid, &status, 0);
         actor.pid = -1;
         actor.alive = false;
         message::event::process::Exit event;
         event.state.pid = actor.process.pid;
         event.state.reason = decltype( event.state.reason)::core;
         source.log( "server ", server, " dies");
         sm( event);
         burst.push_back( [ this, server]( Model& model, World::Step& step){ exit( model, step, server);});
      }

      void send_discard( int client, const std::string& id, bool reply)
      {
         message::service::lookup::discard::Request request{ clients[ client].process};
         // the lookup and the discard have the same correlation
         request.correlation = ids.at( id);
         request.requested = lookups.at( id).requested;
         request.reply = reply;
         source.log( "client ", client, " discards ", tag( id), reply ? " with reply" : "");
         sm( request);
         burst.push_back( [ this, id, client, reply]( Model& model, World::Step& step){ discard( model, step, id, client, reply, id);});
      }

      void send_shutdown( const std::set< int>& targets, int strangers)
      {
         message::domain::process::prepare::shutdown::Request request{ shutdowner.process};
         request.correlation = correlation();
         auto id = text( request.correlation);
         std::string what;
         for( auto server : targets)
         {
            request.processes.push_back( servers[ server].process);
            what += pbt::cat( ' ', server);
         }
         std::set< common::process::Handle> unknown;
         for( int index = 0; index < strangers; ++index)
         {
            common::process::Handle process{ common::strong::process::id{ 999000 + index}, common::strong::ipc::id{ common::uuid::make()}};
            unknown.insert( process);
            request.processes.push_back( process);
         }
         source.log( tag( id), " prepare shutdown of", what, strangers ? " and strangers" : "");
         sm( request);
         burst.push_back( [ this, targets, unknown, id]( Model& model, World::Step& step){ prepare_shutdown( model, step, targets, unknown, id);});
      }

      void send_remote( int remote, message::service::concurrent::advertise::Directive directive, int order, std::vector< std::tuple< std::string, int, std::optional< platform::time::unit>>> add, std::vector< std::string> remove)
      {
         using Directive = message::service::concurrent::advertise::Directive;
         message::service::concurrent::Advertise message{ remotes[ remote].process};
         message.alias = pbt::cat( "remote", remote);
         message.order = order;
         message.directive = directive;
         std::string what;
         for( auto& [ name, hops, timeout] : add)
         {
            message::service::concurrent::advertise::Service service;
            service.name = name;
            service.property.hops = hops;
            if( timeout)
               service.timeout.duration = *timeout;
            message.services.add.push_back( service);
            what += pbt::cat( " +", name, "(", hops, ")");
         }
         for( auto& name : remove)
         {
            message.services.remove.push_back( name);
            what += pbt::cat( " -", name);
         }
         source.log( "remote ", remote, " ", description( directive), " order ", order, what);
         sm( message);
         burst.push_back( [ this, remote, directive, order, add, remove]( Model& model, World::Step& step)
         {
            if( directive == Directive::instance)
            {
               if( auto found = model.remotes.find( remote); found != model.remotes.end())
                  found->second.order = order;
               return;
            }
            if( directive == Directive::reset)
            {
               model.remotes.erase( remote);
               for( auto& service : model.services)
                  service.remotes.erase( remote);
               return;
            }
            model.remotes[ remote].order = order;
            for( auto& [ name, hops, timeout] : add)
            {
               auto index = service_of( model, name, timeout, Contract::linger);
               model.services[ index].remotes[ remote] = hops;
               if( ! model.services[ index].discoverable)
                  model.services[ index].discoverable = true;
            }
            for( auto& name : remove)
               for( auto& service : model.services)
                  if( service.origin == name)
                     service.remotes.erase( remote);
            reconsider( model, step);
         });
      }

      // what the manager tells about itself
      void check_state( bool end)
      {
         auto state = casual::service::unittest::state();
         std::multiset< std::string> pending, expected_pending;
         for( auto& value : state.pending)
            pending.insert( value.requested);
         const auto now = clk::now();
         for( auto& value : model.pending)
         {
            // could be timed out already, we have not seen it yet
            if( auto due = model.due.find( value.id); due != model.due.end() && due->second.low <= now)
               if( pending.count( value.requested) <= expected_pending.count( value.requested))
                  continue;
            expected_pending.insert( value.requested);
         }
         if( std::all_of( clients.begin(), clients.end(), []( auto& client){ return client.alive;}))
            pbt::require( pending == expected_pending, "the manager has other pending lookups: ", list( pending), ", expected ", list( expected_pending));

         for( auto& instance : state.instances.sequential)
         {
            auto server = server_of( instance.process);
            if( server < 0)
               continue;
            pbt::require( model.servers[ server].alive && model.servers[ server].known, "server ", server, " is gone, and still there");
            pbt::require( ( instance.state == decltype( instance.state)::busy) == model.servers[ server].call.has_value(), "server ", server, model.servers[ server].call ? " is busy, and it is not told" : " is idle, and it's told to be busy");
         }
         for( auto& service : state.services)
         {
            auto found = model.exposed.find( service.name);
            if( found == model.exposed.end())
            {
               pbt::require( service.name.starts_with( '.') || ( service.instances.sequential.empty() && service.instances.concurrent.empty()), "there is a service ", service.name);
               continue;
            }
            auto& expected = model.services[ found->second];
            std::multiset< int> locals, wanted( expected.servers.begin(), expected.servers.end());
            for( auto& instance : service.instances.sequential)
               locals.insert( server_of( instance.process));
            pbt::require( locals == wanted, service.name, " has other local instances than advertised");
            std::map< int, int> others;
            for( auto& instance : service.instances.concurrent)
               others[ remote_of( instance.process)] = instance.hops;
            pbt::require( others == expected.remotes, service.name, " has other remote instances than advertised");
            auto calls = model.acked.find( service.name);
            pbt::require( service.metric.invoked.count == ( calls == model.acked.end() ? 0 : calls->second), service.name, " has been called ", calls == model.acked.end() ? 0 : calls->second, " times, told is ", service.metric.invoked.count);
         }
         if( end)
            pbt::require( state.reservations.empty() || std::all_of( state.reservations.begin(), state.reservations.end(), [&]( auto& value){ return server_of( value.callee) < 0;}), "reservations left");
      }

      void check_visible( const Model& model)
      {
         for( auto& [ name, index] : model.exposed)
         {
            auto& service = model.services[ index];
            const bool expected = service.discoverable.value_or( true) && ( ! service.servers.empty() || ! service.remotes.empty());
            if( visible.contains( name) != expected) mismatch( name, expected ? " can not be discovered" : " can be discovered");
            if( expected && service.servers.empty())
            {
               std::optional< std::pair< int, int>> best;
               for( auto& [ remote, hops] : service.remotes)
               {
                  auto rank = std::pair{ model.remotes.at( remote).order, hops};
                  if( ! best || rank < *best)
                     best = rank;
               }
               if( visible[ name] != best->second) mismatch( name, " is ", best->second, " hops away, told is ", visible[ name]);
            }
         }
         for( auto& [ name, hops] : visible)
            if( ! model.exposed.contains( name)) mismatch( name, " can be discovered, and nobody has advertised it");
      }

      // late ones are killed, or not
      void reap()
      {
         for( std::size_t server = 0; server < servers.size(); ++server)
         {
            if( servers[ server].pid <= 0 || ! model.servers[ server].doomed)
               continue;
            auto since = clk::now();
            int status = 0;
            while( ::waitpid( servers[ server].pid, &status, WNOHANG) == 0)
            {
               pbt::require( clk::now() - since < slack, "server ", server, " has timed out with a severe contract, and is not killed");
               ::usleep( 200);
            }
            pbt::require( WIFSIGNALED( status), "server ", server, " is not killed");
            source.log( "server ", server, " has been killed");
            servers[ server].pid = -1;
            servers[ server].alive = false;
            message::event::process::Exit event;
            event.state.pid = servers[ server].process.pid;
            event.state.reason = decltype( event.state.reason)::core;
            sm( event);
            burst.push_back( [ this, server]( Model& model, World::Step& step){ exit( model, step, server);});
            settle();
         }
      }
   };

   void property( pbt::Source& source, bool contract_mode)
   {
      World world{ source, contract_mode};
      auto& model = world.model;

      std::string configuration = "domain:\n   name: S01\n";
      auto contract_name = []( Contract contract){ return contract == Contract::linger ? "linger" : contract == Contract::kill ? "kill" : "abort";};
      auto duration = [&]() -> std::pair< std::string, platform::time::unit>
      {
         auto ms = source.pick( { 15, 30, 60, 3600000, 0});
         return { pbt::cat( ms, "ms"), std::chrono::milliseconds{ ms}};
      };
      if( contract_mode)
      {
         if( source.chance( 20))
         {
            auto [ text, value] = duration();
            auto contract = source.pick( { Contract::linger, Contract::kill});
            model.global_timeout = value;
            model.global_contract = contract;
            configuration += pbt::cat( "   global:\n      service:\n         execution:\n            timeout: { duration: \"", text, "\", contract: ", contract_name( contract), "}\n");
            source.log( "global timeout ", text, " ", contract_name( contract));
         }
         std::string services;
         for( std::string name : { "a", "b", "c"})
         {
            if( ! source.chance( 65))
               continue;
            std::string what = pbt::cat( "      - name: ", name, "\n");
            std::optional< platform::time::unit> timeout = model.global_timeout;
            auto contract = model.global_contract;
            std::optional< bool> discoverable;
            bool any = false;
            if( source.chance( 70))
            {
               auto [ text, value] = duration();
               timeout = value;
               contract = source.pick( { Contract::linger, Contract::linger, Contract::kill, Contract::terminate});
               what += pbt::cat( "        execution: { timeout: { duration: \"", text, "\", contract: ", contract_name( contract), "}}\n");
               any = true;
            }
            if( name != "c" && source.chance( 50))
            {
               std::vector< std::string> routes;
               if( name == "a")
                  routes = source.boolean() ? std::vector< std::string>{ "a", "x"} : std::vector< std::string>{ "x", "y"};
               else
                  routes = { "z"};
               model.routes[ name] = routes;
               what += pbt::cat( "        routes: [ ", routes[ 0], routes.size() > 1 ? ", " + routes[ 1] : "", "]\n");
               any = true;
            }
            if( source.chance( 25))
            {
               discoverable = source.boolean();
               what += pbt::cat( "        visibility: ", *discoverable ? "discoverable" : "undiscoverable", "\n");
               any = true;
            }
            if( ! any)
               continue;
            services += what;
            source.log( what);
            auto index = world.service_of( model, name, timeout, contract);
            model.services[ index].discoverable = discoverable;
         }
         if( ! services.empty())
            configuration += "   services:\n" + services;
         world.restriction = source.chance( 40);
         if( world.restriction)
         {
            world.restricted = source.boolean() ? std::vector< std::string>{ "a", "b"} : std::vector< std::string>{ "c"};
            configuration += pbt::cat( "   servers:\n      - alias: restricted\n        path: ", sys::binary( "example/server/bin/casual-example-server"), "\n        instances: 0\n        restrictions: [ ", world.restricted.size() == 2 ? "\"[ab].*\"" : "\"c\"", "]\n");
            source.log( "restricted to ", list( world.restricted));
         }
      }

      casual::domain::unittest::Manager domain{ std::vector< std::string_view>{ sys::base( "S01"), configuration}};

      world.shutdowner = world.make( ::getpid());
      const int clients = source.uniform( 2, 5);
      for( int index = 0; index < clients; ++index)
         world.clients.push_back( world.make( ::getpid()));
      for( int index = 0; index < 3; ++index)
         world.remotes.push_back( world.make( ::getpid()));
      if( contract_mode)
      {
         world.spy = world.make( ::getpid());
         message::transaction::resource::external::Instance instance{ world.spy.process};
         instance.alias = "spy";
         device::blocking::send( common::communication::instance::outbound::transaction::manager::device(), instance);
         for( int index = 0; index < 40; ++index)
            world.transactions.emplace_back( common::uuid::make(), common::uuid::make(), common::process::handle());
      }
      int next_transaction = 0;

      world.start();
      const int steps = source.uniform( 8, contract_mode ? 60 : 90);
      int queued = 0, served_late = 0;
      using Directive = message::service::concurrent::advertise::Directive;

      auto lookup = [&]()
      {
         auto semantic = Semantic( source.weighted( { 14, 2, 2, 1}));
         auto requester = Requester( source.weighted( { 10, 2, 1}));
         std::optional< platform::time::unit> in;
         if( contract_mode && source.chance( 20))
            in = std::chrono::milliseconds{ source.pick( { 10, 40, 3600000})};
         int transaction = -1;
         if( contract_mode && source.chance( 45))
         {
            // a new one, or one that has been elsewhere (only for remote ones, a call in a
            // transaction that has been rolled back is another story)
            transaction = next_transaction;
            if( next_transaction < 39)
               ++next_transaction;
            else
               transaction = -1;
         }
         auto name = world.name();
         if( transaction > 0 && source.chance( 50))
         {
            auto exposed = model.exposed.find( name);
            if( exposed != model.exposed.end() && model.services[ exposed->second].servers.empty() && ! model.services[ exposed->second].remotes.empty())
            {
               --next_transaction;
               transaction = source.uniform( 0, 2);
            }
         }
         if( transaction >= 0 && transaction <= 2)
         {
            auto exposed = model.exposed.find( name);
            if( exposed == model.exposed.end() || ! model.services[ exposed->second].servers.empty())
               transaction = -1;
         }
         world.send_lookup( world.client(), name, semantic, requester, in, transaction);
      };

      if( contract_mode)
         next_transaction = 3; // the first are shared

      for( int step = 0; step < steps; ++step)
      {
         const auto before = model.pending.size();
         switch( source.weighted( { 30, 22, 6, 5, 4, contract_mode ? 0 : 2, 4, 2, 5, contract_mode ? 8 : 0, contract_mode ? 0 : 4, 2}))
         {
            case 0: lookup(); break;
            case 1: // done
            {
               auto busy = world.select( []( auto& server){ return server.call.has_value();});
               if( ! busy.empty())
                  world.send_ack( source.pick( busy));
               break;
            }
            case 2:
               if( world.servers.size() < 6)
               {
                  world.new_server();
                  world.send_advertise( world.servers.size() - 1, source.uniform( 1, 3), 0);
               }
               break;
            case 3: // more, or less
            {
               auto known = world.select( []( auto& server){ return server.known;});
               if( known.empty())
                  break;
               auto server = source.pick( known);
               int removes = source.uniform( 0, 2);
               world.send_advertise( server, removes == 0 ? 1 : source.uniform( 0, 1), removes);
               break;
            }
            case 4: // dies
            {
               auto alive = world.select( []( auto& server){ return server.known && ! server.doomed;});
               if( ! alive.empty() && ( contract_mode ? source.chance( 30) : true))
                  world.send_exit( source.pick( alive));
               break;
            }
            case 5: // a caller dies
            {
               int alive = std::count_if( world.clients.begin(), world.clients.end(), []( auto& client){ return client.alive;});
               if( alive < 2)
                  break;
               auto client = world.client();
               source.log( "client ", client, " dies");
               world.clients[ client].alive = false;
               world.clients[ client].inbound.reset();
               std::erase_if( model.pending, [&]( auto& value){ return value.client == client;});
               break;
            }
            case 6: // never mind
            {
               std::vector< std::string> mine;
               for( auto& pending : model.pending)
                  mine.push_back( pending.id);
               // served, but it was too late to be used
               for( auto& server : model.servers)
                  if( server.alive && server.call && world.clients[ server.call->lookup.client].alive)
                     mine.push_back( server.call->lookup.id);
               if( mine.empty())
                  break;
               auto id = source.pick( mine);
               if( world.clients[ world.lookups.at( id).client].alive)
                  world.send_discard( world.lookups.at( id).client, id, source.chance( 70));
               break;
            }
            case 7: // prepare shutdown
            {
               auto known = world.select( []( auto& server){ return server.known && ! server.shutting && ! server.doomed;});
               std::set< int> targets;
               for( auto server : known)
                  if( source.chance( 40))
                     targets.insert( server);
               int strangers = source.chance( 20) ? 1 : 0;
               if( ! targets.empty() || strangers)
                  world.send_shutdown( targets, strangers);
               break;
            }
            case 8: // remotes
            {
               int remote = source.uniform( 0, 2);
               auto found = model.remotes.find( remote);
               switch( source.weighted( { 8, 2, 2}))
               {
                  case 0:
                  {
                     std::vector< std::tuple< std::string, int, std::optional< platform::time::unit>>> add;
                     std::vector< std::string> remove;
                     for( auto& name : world.origins)
                     {
                        if( source.chance( 35))
                        {
                           std::optional< platform::time::unit> timeout;
                           if( contract_mode && source.chance( 20))
                              timeout = std::chrono::hours{ 1};
                           add.emplace_back( name, source.uniform( 0, 2), timeout);
                        }
                        else if( found != model.remotes.end() && source.chance( 30))
                           remove.push_back( name);
                     }
                     if( add.empty() && remove.empty())
                        break;
                     world.send_remote( remote, Directive::update, found != model.remotes.end() ? found->second.order : source.uniform( 0, 2), add, remove);
                     break;
                  }
                  case 1:
                     if( found != model.remotes.end())
                        world.send_remote( remote, Directive::reset, 0, {}, {});
                     break;
                  case 2:
                     if( found != model.remotes.end())
                        world.send_remote( remote, Directive::instance, source.uniform( 0, 2), {}, {});
                     break;
               }
               break;
            }
            case 9: ::usleep( source.uniform( 0, 25000)); break;
            case 10: // several, without waiting
            {
               // only what does not depend on how the others went
               int count = source.uniform( 2, 5);
               auto busy = world.select( []( auto& server){ return server.call.has_value();});
               for( int index = 0; index < count; ++index)
               {
                  if( source.boolean() && ! busy.empty())
                  {
                     auto at = source.draw( busy.size());
                     world.send_ack( busy[ at]);
                     busy.erase( busy.begin() + at);
                  }
                  else
                  {
                     std::vector< std::string> names;
                     for( auto& service : model.services)
                        if( ! service.servers.empty())
                           names.push_back( service.origin);
                     if( names.empty())
                        break;
                     world.send_lookup( world.client(), source.pick( names), source.chance( 85) ? Semantic::regular : Semantic::wait, Requester::internal, {}, -1);
                  }
               }
               break;
            }
            case 11: // all services of it
            {
               auto idle = world.select( []( auto& server){ return server.known && ! server.call && ! server.doomed && ! server.shutting;});
               if( idle.empty() || ! source.chance( 50))
                  break;
               auto server = source.pick( idle);
               message::service::Advertise message{ world.servers[ server].process};
               source.log( "server ", server, " leaves");
               sm( message);
               world.burst.push_back( [ &world, server]( Model& model, World::Step& step){ world.forget( model, server); world.reconsider( model, step);});
               break;
            }
         }
         world.settle();
         world.reap();
         if( model.pending.size() > before)
            queued += model.pending.size() - before;
         if( model.pending.size() < before)
            ++served_late;
         if( source.chance( 3))
            world.check_state( false);
      }

      // ------------------------------------------------ until all is done

      source.log( "the end");
      for( int round = 0; round < 1000; ++round)
      {
         auto busy = world.select( []( auto& server){ return server.call.has_value();});
         if( busy.empty())
            break;
         if( contract_mode && round == 0)
         {
            // those that have a deadline soon reach it
            bool wait = true;
            auto since = clk::now();
            while( wait)
            {
               wait = false;
               for( auto& [ id, due] : model.due)
                  if( due.low - clk::now() < std::chrono::seconds{ 5})
                  {
                     pbt::require( clk::now() - due.high < slack, world.tag( id), ": has passed its deadline with a long time");
                     wait = true;
                  }
               if( wait)
                  ::usleep( 2000);
               world.settle();
               world.reap();
               pbt::require( clk::now() - since < std::chrono::seconds{ 30}, "it takes forever");
            }
            continue;
         }
         world.send_ack( busy.front());
         world.settle();
         world.reap();
      }
      for( auto& pending : model.pending)
         if( auto exposed = model.exposed.find( pending.requested); exposed != model.exposed.end())
            pbt::require( model.services[ exposed->second].servers.empty(), "somebody waits, with all idle");
      pbt::require( model.shutdowns.empty(), "a shutdown waits");

      // those that wait for a service get it when it comes
      if( ! model.pending.empty())
      {
         std::map< std::string, std::string> origin;
         for( auto& [ name, index] : model.exposed)
            origin[ name] = model.services[ index].origin;
         for( int round = 0; round < 200 && ! model.pending.empty(); ++round)
         {
            auto& pending = model.pending.front();
            auto found = origin.find( pending.requested);
            message::service::Advertise message;
            world.new_server();
            world.aliases.back() = "last";
            auto server = int( world.servers.size()) - 1;
            message.process = world.servers[ server].process;
            message.alias = "last";
            message::service::advertise::Service service;
            service.name = found == origin.end() ? pending.requested : found->second;
            if( found == origin.end() && model.routes.contains( pending.requested))
            {
               // not reachable by this name, never mind
               world.send_discard( pending.client, std::string( pending.id), false);
               world.settle();
               continue;
            }
            message.services.add.push_back( service);
            source.log( "server ", server, " advertises +", service.name);
            sm( message);
            world.burst.push_back( [ &world, server, name = service.name]( Model& model, World::Step& step){ world.advertise( model, step, server, { { name, true}}, {});});
            world.settle();
            while( model.servers[ server].call)
            {
               world.send_ack( server);
               world.settle();
            }
            world.send_exit( server);
            world.settle();
         }
         pbt::require( model.pending.empty(), "still pending");
      }
      world.check_state( true);

      if( contract_mode)
      {
         // calls that were too late leave their transactions rolled back, and no other
         auto since = clk::now();
         auto missing = [&]()
         {
            return std::any_of( model.rollbacks.begin(), model.rollbacks.end(), [&]( auto& gtrid){ return ! world.rolledback.contains( gtrid);});
         };
         while( missing())
         {
            pbt::require( clk::now() - since < slack, "the transaction of a call that timed out is not rolled back");
            ::usleep( 100);
            world.drain();
         }
         for( auto& gtrid : world.rolledback)
            pbt::require( model.rollbacks.contains( gtrid), "the transaction of a call that did not time out is rolled back");
         if( ! model.rollbacks.empty())
            source.label( "rollbacks");
      }
      if( queued) source.label( "queued");
      source.nontrivial( contract_mode ? ( queued > 0 && ! model.services.empty() && world.numbers.size() > 8) : ( queued > 2 && served_late > 1));

      for( auto& server : world.servers)
         if( server.pid > 0)
         {
            ::kill( server.pid, SIGKILL);
            ::waitpid( server.pid, nullptr, 0);
         }
   }
}

int main( int argc, char** argv)
{
   bool contract = false;
   for( int index = 1; index + 1 < argc; ++index)
      if( std::string_view( argv[ index]) == "--mode")
         contract = std::string_view( argv[ index + 1]) == "contract";

   pbt::Options options;
   options.property = contract ? "S02" : "S01";
   options.rule = contract
      ? "a case is a configuration (timeouts, contracts, routes, visibility, restrictions) and up to 60 messages from servers, remote instances and callers; non-trivial: a caller had to wait, and more than eight lookups"
      : "a case is up to 90 messages from servers, remote instances and callers that come and go; non-trivial: at least three callers had to wait, and were served later";
   options.isolated = true;
   options.quick = contract ? 1500 : 1800;
   options.thorough = contract ? 20000 : 30000;
   options.quick_cap = 70;
   options.case_timeout = 90;
   return pbt::run( argc, argv, options, [ contract]( pbt::Source& source){ property( source, contract);});
}
