// Q02 (mode crash) and Q03 (mode concurrent): several client processes with generated
// programs use persistent queues, processes are killed at generated points, and the recorded
// history together with what is left in the queues is judged.
#include "sys.h"

#include "queue/unittest/utility.h"
#include "queue/common/queue.h"
#include "queue/api/queue.h"
#include "queue/manager/admin/services.h"
#include "serviceframework/service/protocol/call.h"

#include "common/transcode.h"
#include "common/communication/instance.h"

#include <thread>

using namespace casual;
namespace qns = casual::queue;

namespace
{
   using u64 = std::uint64_t;

   struct QueueInfo { const char* name; int group; long retry; long delay_ms;};
   constexpr QueueInfo queues[] = { { "a1", 0, 0, 0}, { "a2", 0, 2, 0}, { "ad", 0, 5, 60}, { "b1", 1, 1, 0}, { "b2", 1, 50, 0}};
   constexpr int queue_count = 5;

   enum Kind : int { enqueue, dequeue, blocking, begin, commit, rollback};
   constexpr const char* kind_names[] = { "enqueue", "dequeue", "blocking dequeue", "begin", "commit", "rollback"};

   // one operation: the plan, and what happened
   struct Record
   {
      // plan
      int kind;
      int queue;
      int properties;  // enqueue: the properties, dequeue: selector; 0 none
      int size;
      int delay_ms;    // enqueue
      int pause_us;    // before
      // history
      int tx;          // number of the transaction (of the client), -1 none
      std::atomic< u64> intent, ack;
      long long wall_intent, wall_ack;
      int result;      // 1 ok, 0 no message, -1 error, commit: the tx code
      char key[ 24];
      char gtrid[ 140];
      int code;
   };

   constexpr int max_clients = 6;
   constexpr int max_records = 160;

   struct Client
   {
      std::atomic< int> state; // 1 running 2 done 3 failed
      std::atomic< int> pid;
      int count;
      Record records[ max_records];
   };

   struct Shared
   {
      std::atomic< u64> clock;
      std::atomic< u64> acks;
      std::atomic< int> go;
      int clients;
      Client client[ max_clients];
   };

   Shared* map_shared( const std::string& path, bool create)
   {
      int fd = ::open( path.c_str(), O_RDWR | ( create ? O_CREAT : 0), 0644);
      if( fd < 0)
         throw std::runtime_error{ "open " + path};
      if( create && ::ftruncate( fd, sizeof( Shared)) != 0)
         throw std::runtime_error{ "ftruncate"};
      auto memory = ::mmap( nullptr, sizeof( Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
      ::close( fd);
      if( memory == MAP_FAILED)
         throw std::runtime_error{ "mmap"};
      return static_cast< Shared*>( memory);
   }

   std::string content( const std::string& key, int size)
   {
      std::string result = key + "|";
      auto state = pbt::hash( key);
      while( int( result.size()) < size)
      {
         state = pbt::mix( state);
         result.push_back( char( state));
      }
      return result;
   }

   long long wall()
   {
      return std::chrono::duration_cast< std::chrono::microseconds>( platform::time::clock::type::now().time_since_epoch()).count();
   }

   std::string property_name( int value) { return value ? pbt::cat( "p", value) : std::string{};}

   std::string text( const qns::Message& message)
   {
      return { reinterpret_cast< const char*>( message.payload.data.data()), message.payload.data.size()};
   }

   // ------------------------------------------------------------ the client process

   int client_main( const std::string& path, int number)
   {
      auto shared = map_shared( path, false);
      auto& client = shared->client[ number];
      client.pid = ::getpid();
      client.state = 1;
      auto spin = [&](){ while( ! shared->go) ::usleep( 200);};
      spin();

      int tx = -1, next_tx = 0;
      std::string gtrid;
      for( int index = 0; index < client.count; ++index)
      {
         auto& record = client.records[ index];
         if( record.pause_us)
            ::usleep( record.pause_us);
         record.tx = tx;
         std::strncpy( record.gtrid, gtrid.c_str(), sizeof( record.gtrid) - 1);
         record.wall_intent = wall();
         if( record.kind == enqueue)
            std::strncpy( record.key, pbt::cat( "c", number, "-", index).c_str(), sizeof( record.key) - 1);
         record.intent = ++shared->clock;
         try
         {
            switch( record.kind)
            {
               case enqueue:
               {
                  qns::Message message;
                  message.attributes.properties = property_name( record.properties);
                  message.payload.type = "X_OCTET/";
                  for( auto c : content( record.key, record.size))
                     message.payload.data.push_back( static_cast< std::byte>( c));
                  if( record.delay_ms)
                     message.attributes.available = platform::time::clock::type::now() + std::chrono::milliseconds{ record.delay_ms};
                  qns::enqueue( queues[ record.queue].name, message);
                  record.result = 1;
                  break;
               }
               case dequeue:
               case blocking:
               {
                  qns::Selector selector;
                  selector.properties = property_name( record.properties);
                  std::vector< qns::Message> messages;
                  if( record.kind == dequeue)
                     messages = qns::dequeue( queues[ record.queue].name, selector);
                  else
                     messages.push_back( qns::blocking::dequeue( queues[ record.queue].name, selector));
                  if( messages.empty())
                     record.result = 0;
                  else
                  {
                     auto value = text( messages.front());
                     auto key = value.substr( 0, value.find( '|'));
                     std::strncpy( record.key, key.c_str(), sizeof( record.key) - 1);
                     record.size = value.size();
                     record.code = value == content( key, value.size()) && ( selector.properties.empty() || selector.properties == messages.front().attributes.properties) ? 0 : 1;
                     record.result = 1;
                  }
                  break;
               }
               case begin:
                  record.code = int( sys::tx::context().begin());
                  record.result = record.code == int( sys::code::tx::ok) ? 1 : -1;
                  if( record.result == 1)
                  {
                     tx = next_tx++;
                     auto range = common::transaction::id::range::global( sys::tx::context().current().trid);
                     gtrid = common::transcode::hex::encode( range);
                     record.tx = tx;
                     std::strncpy( record.gtrid, gtrid.c_str(), sizeof( record.gtrid) - 1);
                  }
                  break;
               case commit:
                  record.code = int( sys::tx::context().commit());
                  record.result = record.code == int( sys::code::tx::ok) ? 1 : -1;
                  tx = -1;
                  gtrid.clear();
                  break;
               case rollback:
                  record.code = int( sys::tx::context().rollback());
                  record.result = record.code == int( sys::code::tx::ok) ? 1 : -1;
                  tx = -1;
                  gtrid.clear();
                  break;
            }
         }
         catch( ...)
         {
            record.result = -1;
            record.code = -1;
         }
         record.wall_ack = wall();
         record.ack = ++shared->clock;
         ++shared->acks;
         if( record.result == -1 && ( record.code == -1 || ( record.kind != commit && record.kind != rollback)))
         {
            client.state = 3;
            ::_exit( 1);
         }
      }
      client.state = 2;
      ::_exit( 0);
   }

   // ------------------------------------------------------------ the case

   bool crash_mode() { return pbt::mode() != "concurrent";}

   std::string configuration( const std::string& scratch, int clients, const std::string& self, bool with_clients)
   {
      auto base = [&]( const char* name)
      {
         return crash_mode() ? pbt::cat( scratch, "/", name, ".qb") : std::string{ ":memory:"};
      };
      std::string result = pbt::cat( R"(
domain:
   queue:
      groups:
         - alias: A
           queuebase: ")", base( "A"), R"("
           queues:
            - name: a1
            - name: a2
              retry: { count: 2}
            - name: ad
              retry: { count: 5, delay: 60ms}
         - alias: B
           queuebase: ")", base( "B"), R"("
           queues:
            - name: b1
              retry: { count: 1}
            - name: b2
              retry: { count: 50}
)");
      if( with_clients)
      {
         result += "   executables:\n";
         for( int index = 0; index < clients; ++index)
            result += pbt::cat( "      - alias: client-", index, "\n        path: ", self, "\n        arguments: [ \"--client\", \"", scratch, "/shared\", \"", index, "\", \"", pbt::mode(), "\"]\n        memberships: [ user]\n");
      }
      return result;
   }

   enum class Status { committed, rolledback, maybe, open};

   struct Delivery
   {
      int client;
      const Record* record;
      Status status;
   };

   struct Row { std::string key; int queue; bool error; int state; std::string gtrid; long redelivered; long long timestamp;};

   std::vector< Row> rows( bool check_content)
   {
      std::vector< Row> result;
      for( int index = 0; index < queue_count; ++index)
         for( bool error : { false, true})
         {
            auto name = pbt::cat( queues[ index].name, error ? ".error" : "");
            auto list = qns::unittest::messages( name);
            std::vector< common::Uuid> ids;
            for( auto& message : list)
               ids.push_back( message.id);
            std::map< std::string, std::string> keys;
            if( ! ids.empty())
               for( auto& message : qns::peek::messages( name, ids))
               {
                  auto value = text( message);
                  auto key = value.substr( 0, value.find( '|'));
                  if( check_content)
                     pbt::require( value == content( key, value.size()), "the content of message ", pbt::show( key), " in ", name, " has changed");
                  keys[ sys::to_string( message.id)] = key;
               }
            for( auto& message : list)
            {
               auto found = keys.find( sys::to_string( message.id));
               if( found == keys.end())
                  continue; // consumed in between
               result.push_back( { found->second, index, error, int( message.state), common::transcode::hex::encode( message.trid), long( message.redelivered),
                  std::chrono::duration_cast< std::chrono::microseconds>( message.timestamp.time_since_epoch()).count()});
            }
         }
      return result;
   }

   struct Trace { pbt::Source& source; const Shared& shared;
      ~Trace()
      {
         // the history, in order
         std::vector< std::pair< const Record*, int>> all;
         for( int c = 0; c < shared.clients; ++c)
            for( int i = 0; i < shared.client[ c].count; ++i)
               if( shared.client[ c].records[ i].intent)
                  all.emplace_back( &shared.client[ c].records[ i], c);
         std::sort( all.begin(), all.end(), []( auto& l, auto& r){ return l.first->intent < r.first->intent;});
         for( auto& [ record, c] : all)
            source.log( record->intent, "..", record->ack, " client ", c, " tx ", record->tx, " ", kind_names[ record->kind], " ",
               record->kind <= blocking ? queues[ record->queue].name : "", " ", property_name( record->properties), " key ", record->key,
               record->delay_ms ? pbt::cat( " delay ", record->delay_ms) : std::string{}, " -> ", record->ack ? pbt::cat( record->result, " (", record->code, ")") : std::string{ "?"});
      }
   };

   void property( pbt::Source& source)
   {
      static const std::string self = std::filesystem::read_symlink( "/proc/self/exe").string();
      auto shared = map_shared( source.scratch + "/shared", true);

      // ---- the programs
      const bool crash = crash_mode();
      shared->clients = crash ? source.uniform( 1, 4) : source.uniform( 2, 5);
      const int focus = source.draw( 3); // few queues makes for conflicts
      auto pick_queue = [&]()
      {
         switch( focus)
         {
            case 0: return int( source.pick( { 0, 3}));
            case 1: return int( source.pick( { 1, 4, 2}));
            default: return int( source.draw( queue_count));
         }
      };
      long tx_count = 0;
      bool any_blocking = false;
      for( int c = 0; c < shared->clients; ++c)
      {
         auto& client = shared->client[ c];
         bool in_tx = false;
         const auto role = crash ? 0 : source.draw( 3); // concurrent: 1 mostly produces, 2 mostly consumes
         auto add = [&]( int kind, int queue = 0, int properties = 0, int size = 0, int delay = 0)
         {
            if( client.count >= max_records)
               return;
            auto& record = client.records[ client.count++];
            record.kind = kind;
            record.queue = queue;
            record.properties = properties;
            record.size = size;
            record.delay_ms = delay;
            record.pause_us = source.chance( 15) ? source.uniform( 1, 3000) : 0;
            record.tx = -1;
         };
         source.repeat( 1, 60, crash ? 25 : 18, [&]( auto)
         {
            const unsigned e = role == 2 ? 10 : 40, d = role == 1 ? 5 : 30;
            switch( source.weighted( { e, d, in_tx ? 0u : 18u, in_tx ? 22u : 0u, in_tx ? 12u : 0u}))
            {
               case 0:
                  add( enqueue, pick_queue(), source.chance( 30) ? source.uniform( 1, 2) : 0, source.chance( 5) ? 40000 : source.uniform( 10, 200), source.chance( 12) ? source.uniform( 20, 150) : 0);
                  break;
               case 1:
               {
                  auto block = ! crash && source.chance( 50);
                  any_blocking = any_blocking || block;
                  add( block ? blocking : dequeue, pick_queue(), source.chance( 15) ? source.uniform( 1, 2) : 0);
                  break;
               }
               case 2: add( begin); in_tx = true; ++tx_count; break;
               case 3: add( commit); in_tx = false; break;
               case 4: add( rollback); in_tx = false; break;
            }
         });
         if( in_tx)
            add( source.chance( 70) ? commit : rollback);
      }

      // ---- the fault
      enum Fault { none, orderly, whole, group_a, group_b, tm, qm, clients};
      Fault fault = none;
      if( crash)
         fault = std::array{ whole, whole, whole, orderly, group_a, group_b, tm, qm}[ source.draw( 8)];
      else
         fault = source.chance( 50) ? clients : none;
      long total = 0;
      for( int c = 0; c < shared->clients; ++c)
         total += shared->client[ c].count;
      if( auto forced = std::getenv( "VERIF_FAULT"))
         fault = Fault( std::atoi( forced));
      const long at = fault == none ? 0 : source.draw( std::min( total, 140l) + 1);
      const auto after_us = source.chance( 50) ? 0 : source.draw( 1500);
      const bool groups_first = source.boolean();
      std::vector< int> victims;
      if( fault == clients)
         source.repeat( 1, 2, 1, [&]( auto){ victims.push_back( source.draw( shared->clients));});
      source.log( "fault ", int( fault), " at ", at, " + ", after_us, " us");
      source.label( pbt::cat( "fault ", std::array{ "none", "orderly", "kill the domain", "kill group A", "kill group B", "kill TM", "kill QM", "kill clients"}[ int( fault)]));

      Trace trace{ source, *shared};


      auto boot = [&]( bool with_clients)
      {
         auto yaml = configuration( source.scratch, shared->clients, self, with_clients);
         return new domain::unittest::Manager( domain::unittest::manager( sys::base( "H", sys::queue_manager()), yaml));
      };

      auto* domain = boot( true);

      // the processes by name
      auto process_name = []( pid_t pid)
      {
         std::ifstream in{ pbt::cat( "/proc/", pid, "/comm")};
         std::string result;
         std::getline( in, result);
         return result;
      };
      auto pids_of = [&]( std::string_view name)
      {
         std::vector< pid_t> all, result;
         pbt::detail::descendants( domain->handle().pid.value(), all);
         for( auto pid : all)
            if( process_name( pid) == name.substr( 0, 15))
               result.push_back( pid);
         return result;
      };

      std::vector< pid_t> group_pids;
      for( auto alias : { "A", "B"})
      {
         auto state = qns::unittest::state();
         for( auto& group : state.groups)
            if( group.alias == alias)
               group_pids.push_back( group.process.pid.value());
      }
      pbt::require( group_pids.size() == 2, "number of groups");
      const auto tm_pids = pids_of( "casual-transaction-manager");
      const auto qm_pids = pids_of( "casual-queue-manager");
      const auto sm_pids = pids_of( "casual-service-manager");

      shared->go = 1;

      auto finished = [&]()
      {
         for( int c = 0; c < shared->clients; ++c)
            if( auto& client = shared->client[ c]; client.state < 2)
               if( client.pid == 0 || ::kill( client.pid, 0) == 0)
                  return false;
         return true;
      };

      auto all_blocked_or_done = [&]()
      {
         for( int c = 0; c < shared->clients; ++c)
         {
            auto& client = shared->client[ c];
            if( client.state >= 2 || ( client.pid && ::kill( client.pid, 0) != 0))
               continue;
            // the last thing it did is a blocking dequeue that is not answered
            bool blocked = false;
            for( int i = 0; i < client.count; ++i)
               if( auto& record = client.records[ i]; record.intent && ! record.ack)
                  blocked = record.kind == blocking;
            if( ! blocked)
               return false;
         }
         return true;
      };

      using clock = std::chrono::steady_clock;
      auto until = [&]( auto&& condition, double seconds)
      {
         const auto end = clock::now() + std::chrono::duration< double>( seconds);
         while( ! condition())
         {
            if( clock::now() > end)
               return false;
            ::usleep( 100);
         }
         return true;
      };

      auto kill_pids = []( const std::vector< pid_t>& pids){ for( auto pid : pids) ::kill( pid, SIGKILL);};
      auto kill_clients = [&]()
      {
         for( int c = 0; c < shared->clients; ++c)
            if( shared->client[ c].pid && shared->client[ c].state < 2)
               ::kill( shared->client[ c].pid, SIGKILL);
      };

      std::set< int> killed;
      std::vector< Row> left;

      if( crash)
      {
         until( [&](){ return long( shared->acks) >= at || finished();}, 20);
         if( after_us)
            ::usleep( after_us);

         switch( fault)
         {
            case group_a: kill_pids( { group_pids[ 0]}); until( finished, 0.3); break;
            case group_b: kill_pids( { group_pids[ 1]}); until( finished, 0.3); break;
            case tm: kill_pids( tm_pids); until( finished, 0.2); break;
            case qm: kill_pids( qm_pids); until( finished, 0.3); break;
            default: break;
         }

         if( fault == orderly)
         {
            delete domain;
            domain = nullptr;
         }
         else
         {
            std::vector< pid_t> all;
            pbt::detail::descendants( domain->handle().pid.value(), all);
            if( groups_first)
               kill_pids( group_pids);
            ::kill( domain->handle().pid.value(), SIGKILL);
            kill_pids( all);
            if( ! groups_first)
               kill_pids( group_pids);
            kill_clients();
            for( auto pid : all)
               until( [&](){ auto name = process_name( pid); if( name.empty()) return true; std::ifstream in{ pbt::cat( "/proc/", pid, "/stat")}; std::string line; std::getline( in, line); return line.find( ") Z ") != std::string::npos || line.empty();}, 5);
         }
         kill_clients();

         domain = boot( false);
         left = rows( true);
      }
      else
      {
         if( fault == clients)
         {
            until( [&](){ return long( shared->acks) >= at || all_blocked_or_done();}, 20);
            if( after_us)
               ::usleep( after_us);
            for( auto victim : victims)
               if( shared->client[ victim].pid && shared->client[ victim].state < 2)
               {
                  ::kill( shared->client[ victim].pid, SIGKILL);
                  killed.insert( victim);
               }
         }

         // until nobody can move: done, or blocked on a queue that has nothing for it
         std::string stuck;
         auto quiescent = [&]()
         {
            stuck = "a client does not get an answer";
            const auto acks = shared->acks.load();
            if( ! all_blocked_or_done())
               return false;
            left = rows( true);
            // transactions of killed clients are to be rolled back
            for( auto& row : left)
               if( row.state != 2)
               {
                  bool live = false;
                  for( int c = 0; c < shared->clients; ++c)
                  {
                     auto& client = shared->client[ c];
                     if( client.state >= 2 || killed.contains( c))
                        continue;
                     for( int i = 0; i < client.count; ++i)
                        if( auto& record = client.records[ i]; record.intent && ! record.ack && record.gtrid == row.gtrid)
                           live = true;
                  }
                  if( ! live)
                  {
                     stuck = pbt::cat( "message ", row.key, " is held (state ", row.state, ") by a transaction nobody has, ", row.gtrid);
                     return false;
                  }
               }
            for( int c = 0; c < shared->clients; ++c)
            {
               auto& client = shared->client[ c];
               if( client.state >= 2 || killed.contains( c))
                  continue;
               for( int i = 0; i < client.count; ++i)
                  if( auto& record = client.records[ i]; record.intent && ! record.ack)
                     for( auto& row : left)
                        if( row.queue == record.queue && ! row.error && row.state == 2)
                        {
                           auto produced = [&]( const std::string& key) -> const Record*
                           {
                              for( int c2 = 0; c2 < shared->clients; ++c2)
                                 for( int j = 0; j < shared->client[ c2].count; ++j)
                                    if( auto& r = shared->client[ c2].records[ j]; r.kind == enqueue && key == r.key)
                                       return &r;
                              return nullptr;
                           };
                           auto origin = produced( row.key);
                           if( record.properties == 0 || ( origin && origin->properties == record.properties))
                           {
                              stuck = pbt::cat( "client ", c, " is blocked on ", queues[ record.queue].name, " although message ", row.key, " is there");
                              return false;
                           }
                        }
            }
            return shared->acks == acks && all_blocked_or_done();
         };
         const auto start = clock::now();
         while( ! quiescent())
         {
            if( clock::now() - start > std::chrono::seconds{ 20})
               pbt::fail( "no progress: ", stuck);
            ::usleep( 2000);
         }

         // whoever is blocked dies; that must not cost a message
         bool some = false;
         for( int c = 0; c < shared->clients; ++c)
            if( shared->client[ c].state < 2 && ! killed.contains( c))
            {
               ::kill( shared->client[ c].pid, SIGKILL);
               killed.insert( c);
               some = true;
            }
         if( some)
         {
            source.label( "blocked clients at the end");
            const auto start = clock::now();
            for( bool again = true; again;)
            {
               again = false;
               left = rows( true);
               for( auto& row : left)
                  if( row.state != 2)
                  {
                     again = true;
                     if( clock::now() - start > std::chrono::seconds{ 20})
                        pbt::fail( "message ", row.key, " is held (state ", row.state, ") by a transaction whose process is gone, ", row.gtrid);
                  }
               if( again)
                  ::usleep( 2000);
            }
         }
      }

      // ------------------------------------------------------------ the judgement

      const bool sure_nontx = ! crash || fault == orderly;

      auto transaction_status = [&]( int c, int tx)
      {
         Status result = Status::open;
         for( int i = 0; i < shared->client[ c].count; ++i)
         {
            auto& record = shared->client[ c].records[ i];
            if( ! record.intent || record.tx != tx)
               continue;
            if( record.kind == commit)
               return ! record.ack ? Status::maybe : record.result == 1 ? Status::committed
                  : record.code == int( sys::code::tx::rollback) ? Status::rolledback : Status::maybe;
            if( record.kind == rollback)
               return record.ack && record.result == 1 ? Status::rolledback : Status::open;
         }
         return result;
      };

      // in doubt transactions: decided as they were, or as anything else tells
      if( crash)
      {
         std::map< std::string, std::vector< Row>> doubt;
         for( auto& row : left)
            if( row.state != 2)
               doubt[ row.gtrid].push_back( row);
         for( auto& [ gtrid, held] : doubt)
         {
            int c = -1, tx = -1;
            for( int client = 0; client < shared->clients; ++client)
               for( int i = 0; i < shared->client[ client].count; ++i)
                  if( auto& record = shared->client[ client].records[ i]; record.intent && gtrid == record.gtrid)
                  {
                     c = client;
                     tx = record.tx;
                  }
            pbt::require( c >= 0, "message ", held.front().key, " is held by a transaction nobody had: ", gtrid);
            auto status = transaction_status( c, tx);
            // a group that is gone can't take part in the end of the transaction, any other has
            const int gone = fault == group_a ? 0 : fault == group_b ? 1 : -1;
            const bool excused = std::all_of( held.begin(), held.end(), [&]( auto& row)
            {
               if( queues[ row.queue].group == gone)
                  return true;
               if( fault != tm)
                  return false;
               // the group could not reach the transaction manager, and the client was not given the message
               for( int i = 0; i < shared->client[ c].count; ++i)
                  if( auto& record = shared->client[ c].records[ i]; record.tx == tx && record.result == 1 && row.key == record.key)
                     return false;
               return true;
            });
            pbt::require( excused || status != Status::committed, "client ", c, " has got TX_OK for the commit of transaction ", tx, ", but message ", held.front().key, " is still undecided after the crash");
            pbt::require( excused || status != Status::rolledback, "client ", c, " has got TX_OK for the rollback of transaction ", tx, ", but message ", held.front().key, " is still undecided after the crash");

            // what did other groups do?
            bool committed_elsewhere = status == Status::committed && fault != tm;
            auto delivered_later = [&]( const Record& origin)
            {
               for( int other = 0; other < shared->clients; ++other)
                  for( int i = 0; i < shared->client[ other].count; ++i)
                     if( auto& r = shared->client[ other].records[ i]; r.ack && r.result == 1 && ( r.kind == dequeue || r.kind == blocking) && std::string_view{ r.key} == origin.key && r.intent > origin.intent)
                        return true;
               return false;
            };
            if( status == Status::maybe)
               for( int i = 0; i < shared->client[ c].count; ++i)
               {
                  auto& record = shared->client[ c].records[ i];
                  if( record.tx != tx || ! record.ack || record.result != 1 || record.kind > blocking)
                     continue;
                  auto found = std::find_if( left.begin(), left.end(), [&]( auto& row){ return row.key == record.key;});
                  if( record.kind == enqueue && ( ( found != left.end() && found->state == 2) || delivered_later( record)))
                     committed_elsewhere = true;
                  if( record.kind != enqueue && found == left.end() && ! delivered_later( record))
                     committed_elsewhere = true;
               }
            source.label( committed_elsewhere ? "in doubt, committed" : "in doubt, rolled back");
            using Directive = qns::ipc::message::group::message::recovery::Directive;
            std::vector< std::byte> raw;
            for( std::size_t at = 0; at + 1 < gtrid.size(); at += 2)
               raw.push_back( std::byte( std::stoi( gtrid.substr( at, 2), nullptr, 16)));
            auto id = common::transaction::global::ID{ common::transaction::global::id::range{ raw.data(), raw.data() + raw.size()}};
            auto result = serviceframework::service::protocol::binary::Call{}( qns::manager::admin::service::name::recover,
               serviceframework::service::protocol::binary::Call::Flag{}, std::vector< common::transaction::global::ID>{ id}, committed_elsewhere ? Directive::commit : Directive::rollback)
                  .extract< std::vector< common::transaction::global::ID>>();
            pbt::require( result.size() == 1, "recovery of ", gtrid, " did not do anything");
         }
         left = rows( true);
      }

      std::map< std::string, std::vector< Row>> present;
      for( auto& row : left)
      {
         pbt::require( row.state == 2, "message ", row.key, " has state ", row.state);
         present[ row.key].push_back( row);
      }

      std::map< std::string, std::pair< const Record*, int>> produced;
      std::map< std::string, std::vector< Delivery>> deliveries;
      std::map< int, int> lost_allowance; // queue -> non transactional dequeues nobody knows the outcome of
      for( int c = 0; c < shared->clients; ++c)
         for( int i = 0; i < shared->client[ c].count; ++i)
         {
            auto& record = shared->client[ c].records[ i];
            if( ! record.intent)
               continue;
            if( record.kind == enqueue)
               produced[ record.key] = { &record, c};
            else if( record.kind == dequeue || record.kind == blocking)
            {
               if( record.ack && record.result == 1)
               {
                  pbt::require( record.code == 0, "client ", c, " got message ", record.key, " with wrong content or properties");
                  deliveries[ record.key].push_back( { c, &record, record.tx >= 0 ? transaction_status( c, record.tx) : sure_nontx ? Status::committed : Status::maybe});
               }
               else if( ( ! record.ack || record.result < 0) && record.tx < 0)
                  ++lost_allowance[ record.queue];
            }
         }

      for( auto& [ key, messages] : present)
      {
         pbt::require( messages.size() == 1, "message ", key, " is in the queues ", messages.size(), " times");
         pbt::require( produced.contains( key), "message ", key, " was never enqueued");
      }
      for( auto& [ key, list] : deliveries)
         pbt::require( produced.contains( key), "message ", key, " was delivered but never enqueued");

      long redelivered = 0;
      std::map< std::pair< int, int>, std::pair< std::string, std::string>> outcome; // tx -> example committed, example not
      for( auto& [ key, origin] : produced)
      {
         auto [ record, producer] = origin;
         auto& info = queues[ record->queue];
         auto& list = deliveries[ key];
         std::sort( list.begin(), list.end(), []( auto& l, auto& r){ return l.record->ack < r.record->ack;});

         auto status = record->tx >= 0 ? transaction_status( producer, record->tx)
            : record->ack && record->result == 1 ? Status::committed : Status::maybe;
         if( status == Status::open)
            status = Status::rolledback; // nobody asked for commit

         // what transaction of the producer ended when
         auto end_intent = [&]( int c, int tx, bool only_commit) -> const Record*
         {
            for( int i = 0; i < shared->client[ c].count; ++i)
               if( auto& r = shared->client[ c].records[ i]; r.intent && r.tx == tx && ( r.kind == commit || ( ! only_commit && r.kind == rollback)))
                  return &r;
            return nullptr;
         };

         for( auto& delivery : list)
         {
            pbt::require( delivery.record->queue == record->queue, "message ", key, " of ", info.name, " was delivered from ", queues[ delivery.record->queue].name);
            pbt::require( delivery.record->size == std::max( record->size, int( key.size()) + 1), "message ", key, " was delivered with size ", delivery.record->size);
            pbt::require( status != Status::rolledback, "message ", key, " was delivered although it was never committed");
            if( record->tx >= 0)
            {
               auto end = end_intent( producer, record->tx, true);
               pbt::require( end && end->intent < delivery.record->ack, "message ", key, " was delivered before its transaction was committed");
            }
            else
               pbt::require( record->intent < delivery.record->ack, "message ", key, " was delivered before it was enqueued");
            if( record->delay_ms)
               pbt::require( delivery.record->wall_ack >= record->wall_intent + record->delay_ms * 1000ll, "message ", key, " was delivered ",
                  record->wall_intent + record->delay_ms * 1000ll - delivery.record->wall_ack, " us before it was available");
         }

         // deliveries do not overlap: a next one only after the former is rolled back
         for( std::size_t i = 0; i + 1 < list.size(); ++i)
         {
            auto& former = list[ i];
            auto& next = list[ i + 1];
            pbt::require( former.record->tx >= 0, "message ", key, " was delivered to client ", former.client, " for good, and then to client ", next.client);
            pbt::require( former.status != Status::committed, "message ", key, " was delivered to and committed by client ", former.client, ", and delivered to client ", next.client);
            auto end = end_intent( former.client, former.record->tx, false);
            if( end)
            {
               pbt::require( end->intent < next.record->ack, "message ", key, " was delivered to client ", next.client, " while client ", former.client, " had it in a transaction");
               if( info.delay_ms)
                  pbt::require( next.record->wall_ack >= end->wall_intent + info.delay_ms * 1000ll - 2000, "message ", key, " was redelivered ", next.record->wall_ack - end->wall_intent,
                     " us after its rollback, the retry delay is ", info.delay_ms, " ms");
            }
            else
               pbt::require( killed.contains( former.client) || crash || shared->client[ former.client].state == 3, "message ", key, " was delivered to client ", next.client, " while client ", former.client, " had it in a transaction");
         }

         long rolledback = std::count_if( list.begin(), list.end(), []( auto& d){ return d.status == Status::rolledback || d.status == Status::open;});
         bool sure = std::any_of( list.begin(), list.end(), []( auto& d){ return d.status == Status::committed;});
         auto maybe = std::find_if( list.begin(), list.end(), []( auto& d){ return d.status == Status::maybe;});
         redelivered += rolledback;

         auto found = present.find( key);
         const bool there = found != present.end();

         if( there)
         {
            auto& row = found->second.front();
            pbt::require( status != Status::rolledback, "message ", key, " is in ", info.name, " although it was never committed");
            pbt::require( ! sure, "message ", key, " is still in ", info.name, " although its dequeue was committed");
            pbt::require( row.queue == record->queue, "message ", key, " is in ", queues[ row.queue].name);
            if( ! crash && std::none_of( list.begin(), list.end(), [&]( auto& d){ return d.status == Status::open || d.status == Status::maybe;}) && killed.empty())
            {
               pbt::require( row.error == ( rolledback > info.retry), "message ", key, " was rolled back ", rolledback, " times, retry count is ", info.retry, ", error queue: ", row.error);
               pbt::require( row.redelivered == ( row.error ? 0 : rolledback), "message ", key, " has redelivered ", row.redelivered, ", it was rolled back ", rolledback, " times");
            }
            if( row.error)
               pbt::require( std::count_if( list.begin(), list.end(), []( auto& d){ return d.status != Status::committed;}) + long( shared->clients) > info.retry, "message ", key, " is in the error queue");
         }
         else if( status == Status::committed && ! sure && maybe == list.end())
         {
            if( lost_allowance[ record->queue]-- > 0)
               continue; // the one in flight took it
            pbt::fail( "message ", key, " of ", info.name, " is lost");
         }
         if( status == Status::committed && ! there)
            for( auto& delivery : list)
               if( ( delivery.status == Status::rolledback || delivery.status == Status::open) && &delivery == &list.back() && lost_allowance[ record->queue]-- <= 0)
                  pbt::fail( "message ", key, " of ", info.name, " is gone although its last dequeue was not committed");

         // atomicity of transactions with unknown outcome
         auto note = [&]( std::pair< int, int> tx, bool committed)
         {
            auto& entry = outcome[ tx];
            ( committed ? entry.first : entry.second) = key;
         };
         if( record->tx >= 0 && status == Status::maybe)
         {
            if( there || ! list.empty())
               note( { producer, record->tx}, true);
            else if( lost_allowance[ record->queue] <= 0)
               note( { producer, record->tx}, false);
         }
         if( maybe != list.end() && maybe->record->tx >= 0 && status == Status::committed && ! sure && std::count_if( list.begin(), list.end(), []( auto& d){ return d.status == Status::maybe;}) == 1)
         {
            if( there)
               note( { maybe->client, maybe->record->tx}, false);
            else if( lost_allowance[ record->queue] <= 0)
               note( { maybe->client, maybe->record->tx}, true);
         }
      }

      for( auto& [ tx, entry] : outcome)
         pbt::require( entry.first.empty() || entry.second.empty(), "transaction ", tx.second, " of client ", tx.first, " is torn: ", entry.first, " says committed, ", entry.second, " says rolled back");

      // ---- order of what is left: per producer and queue as it was enqueued
      for( int index = 0; index < queue_count; ++index)
      {
         if( index == 2)
            continue; // availability reorders
         std::map< int, int> last;
         for( ;;)
         {
            auto messages = qns::dequeue( queues[ index].name);
            if( messages.empty())
               break;
            auto value = text( messages.front());
            auto key = value.substr( 0, value.find( '|'));
            int c = 0, n = 0;
            std::sscanf( key.c_str(), "c%d-%d", &c, &n);
            pbt::require( present.contains( key), "message ", key, " turns up at the end");
            if( produced[ key].first->delay_ms)
               continue;
            pbt::require( ! last.contains( c) || last[ c] < n, "message ", key, " of ", queues[ index].name, " comes after one that was enqueued later");
            last[ c] = n;
         }
      }

      delete domain;

      const auto acks = shared->acks.load();
      source.nontrivial( tx_count > 0 && acks > 8 && ( crash ? ! left.empty() : redelivered > 0));
      if( redelivered) source.label( "redelivered");
      if( ! killed.empty()) source.label( "killed clients");
   }
}

int main( int argc, char** argv)
{
   if( argc > 2 && std::string_view{ argv[ 1]} == "--dump")
   {
      pbt::Source source{ 0};
      auto shared = map_shared( argv[ 2], false);
      { Trace trace{ source, *shared};}
      for( int c = 0; c < shared->clients; ++c)
         std::cout << "client " << c << " pid " << shared->client[ c].pid << " state " << shared->client[ c].state << '\n';
      std::cout << source.trace();
      return 0;
   }
   if( argc > 3 && std::string_view{ argv[ 1]} == "--client")
      return client_main( argv[ 2], std::atoi( argv[ 3]));

   for( int index = 1; index + 1 < argc; ++index)
      if( std::string_view{ argv[ index]} == "--mode")
         pbt::mode() = argv[ index + 1];

   pbt::Options options;
   options.property = crash_mode() ? "Q02" : "Q03";
   options.isolated = true;
   options.jobs = 8;
   options.case_timeout = 90;
   if( crash_mode())
   {
      options.rule = "a case is up to four client processes with generated programs over persistent queues in two groups, a kill (domain, group, TM, queue manager, or an orderly stop) after a generated number of "
         "acknowledged operations plus up to 1.5 ms, a second boot on the same queuebases, and the judgement of the whole history; non-trivial: there were transactions, more than eight operations were acknowledged, and messages were left";
      options.quick = 700;
      options.thorough = 12000;
      options.assumptions = { "a crash is a SIGKILL of processes; the file system itself does not lose what was written", "non-transactional dequeues are at-least-once across a crash"};
   }
   else
   {
      options.rule = "a case is two to five concurrent client processes with generated programs (blocking and non-blocking dequeues with selectors, delays, transactions), possibly killed, and the judgement of the whole history; "
         "non-trivial: there were transactions, more than eight operations were acknowledged, and a dequeued message was rolled back";
      options.quick = 700;
      options.thorough = 12000;
      options.assumptions = { "a non-transactional dequeue of a killed client may take its message with it"};
   }
   return pbt::run( argc, argv, options, property);
}
