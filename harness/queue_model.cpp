// Q01: queues against a reference model. One client, several interleaved transactions.
#include "sys.h"

#include "queue/unittest/utility.h"
#include "queue/common/queue.h"
#include "queue/api/queue.h"
#include "queue/manager/admin/services.h"
#include "serviceframework/service/protocol/call.h"

#include "common/buffer/type.h"

using namespace casual;
namespace queue_ns = casual::queue;

namespace
{
   constexpr auto configuration = R"(
domain:
   queue:
      groups:
         - alias: A
           queuebase: ":memory:"
           queues:
            - name: plain
            - name: other
            - name: retry
              retry: { count: 2}
            - name: slow
              retry: { count: 3, delay: 1h}
         - alias: B
           queuebase: ":memory:"
           queues:
            - name: remote
              retry: { count: 1}
            - name: noenq
              enable: { enqueue: false}
            - name: nodeq
              enable: { dequeue: false}
         - alias: C
           queuebase: ":memory:"
           capacity: { size: 200B}
           queues:
            - name: small
            - name: small2
              retry: { count: 1}
)";

   struct Queue
   {
      std::string name;
      int group;
      long retry = 0;
      bool delay = false;
      bool error = false;
      bool enqueue = true;
      bool dequeue = true;
      long enqueued = 0;
      long dequeued = 0;
   };

   enum State { added = 1, committed = 2, dequeued = 3};

   struct Message
   {
      common::Uuid id;
      int queue;
      int origin;
      State state;
      int tx;
      std::string properties, reply, type, payload;
      enum { zero, past, future} available = zero;
      bool requested_future = false;
      platform::time::point::type when{};
      long redelivered = 0;
      long sequence = 0;
      bool touched = false;  // a rollback with delay has rewritten when
   };

   struct Model
   {
      std::vector< Queue> queues;
      std::vector< Message> messages;
      long sequence = 0;

      long capacity( int group) const { return group == 2 ? 200 : -1;}
      long used( int group) const
      {
         long result = 0;
         for( auto& message : messages)
            if( queues[ message.queue].group == group)
               result += message.payload.size();
         return result;
      }

      Message* find( const common::Uuid& id)
      {
         for( auto& message : messages)
            if( message.id == id)
               return &message;
         return nullptr;
      }

      void erase( const common::Uuid& id)
      {
         std::erase_if( messages, [&]( auto& message){ return message.id == id;});
      }

      Message* next( int queue, const queue_ns::Selector& selector)
      {
         Message* result = nullptr;
         for( auto& message : messages)
         {
            if( message.queue != queue || message.state != committed)
               continue;
            if( selector.id)
            {
               if( message.id == selector.id)
                  return &message;
               continue;
            }
            if( message.available == Message::future)
               continue;
            if( ! selector.properties.empty() && message.properties != selector.properties)
               continue;
            if( ! result || message.sequence < result->sequence)
               result = &message;
         }
         return result;
      }

      void gone( Message& message)
      {
         ++queues[ message.queue].dequeued;
      }

      void commit( int tx)
      {
         for( auto& message : messages)
            if( message.state == added && message.tx == tx)
            {
               message.state = committed;
               ++queues[ message.queue].enqueued;
            }
            else if( message.state == dequeued && message.tx == tx)
               gone( message);
         std::erase_if( messages, [&]( auto& message){ return message.state == dequeued && message.tx == tx;});
      }

      void rollback( int tx)
      {
         std::erase_if( messages, [&]( auto& message){ return message.state == added && message.tx == tx;});
         for( auto& message : messages)
            if( message.state == dequeued && message.tx == tx)
            {
               auto& queue = queues[ message.queue];
               message.state = committed;
               ++message.redelivered;
               message.available = queue.delay ? Message::future : Message::zero;
               message.touched = queue.delay;
               if( ! queue.error && message.redelivered > queue.retry)
               {
                  gone( message);
                  message.redelivered = 0;
                  message.available = Message::zero;
                  message.touched = false;
                  ++message.queue; // the error queue
                  ++queues[ message.queue].enqueued;
               }
            }
      }
   };

   Model make_model()
   {
      Model result;
      auto add = [&]( std::string name, int group, long retry = 0, bool delay = false, bool enqueue = true, bool dequeue = true)
      {
         result.queues.push_back( { name, group, retry, delay, false, enqueue, dequeue});
         result.queues.push_back( { name + ".error", group, 0, false, true, true, true});
      };
      add( "plain", 0);
      add( "other", 0);
      add( "retry", 0, 2);
      add( "slow", 0, 3, true);
      add( "remote", 1, 1);
      add( "noenq", 1, 0, false, false, true);
      add( "nodeq", 1, 0, false, true, false);
      add( "small", 2);
      add( "small2", 2, 1);
      return result;
   }

   std::string payload( const queue_ns::Message& message)
   {
      return { reinterpret_cast< const char*>( message.payload.data.data()), message.payload.data.size()};
   }

   void same( const Message& expected, const queue_ns::Message& actual, const char* what)
   {
      pbt::require( expected.id == actual.id, what, ": wrong message, expected ", expected.id, " got ", actual.id);
      pbt::require( expected.properties == actual.attributes.properties, what, ": properties ", pbt::show( actual.attributes.properties), " expected ", pbt::show( expected.properties));
      pbt::require( expected.reply == actual.attributes.reply, what, ": reply ", pbt::show( actual.attributes.reply), " expected ", pbt::show( expected.reply));
      pbt::require( expected.type == actual.payload.type, what, ": type ", pbt::show( actual.payload.type));
      pbt::require( expected.payload == payload( actual), what, ": payload ", pbt::show( payload( actual)), " expected ", pbt::show( expected.payload));
      if( expected.redelivered == 0 && ! expected.touched && expected.available != Message::zero)
      {
         // stored with the precision of micro seconds
         auto us = []( auto when){ return std::chrono::time_point_cast< std::chrono::microseconds>( when);};
         pbt::require( us( expected.when) == us( actual.attributes.available), what, ": available differs");
      }
   }

   void property( pbt::Source& source)
   {
      auto model = make_model();
      auto domain = domain::unittest::manager( sys::base( "Q", sys::queue_manager()), configuration);

      {
         auto state = queue_ns::unittest::state();
         pbt::require( state.queues.size() == model.queues.size(), "number of queues: ", state.queues.size());
      }

      struct Transaction { int id; XID xid;};
      std::vector< Transaction> suspended;
      int current = 0; // 0: none
      int next_tx = 1;
      long rollbacks = 0, interleaved = 0, moved = 0;
      std::vector< common::Uuid> known;

      // a few queues per case, so that things meet
      std::vector< int> focus;
      source.repeat( 1, 3, 2, [&]( auto){ focus.push_back( int( source.pick( { 0, 4, 4, 6, 8, 8, 14, 16}) ));});

      auto pick_queue = [&]()
      {
         if( source.chance( 75))
            return source.pick( focus) + int( source.chance( 20));
         return int( source.draw( model.queues.size()));
      };

      // a queue that has something, if any
      auto pick_nonempty = [&]()
      {
         if( model.messages.empty() || source.chance( 20))
            return pick_queue();
         return model.messages[ model.messages.size() - 1 - source.draw( model.messages.size())].queue;
      };

      auto pick_id = [&]()
      {
         if( known.empty() || source.chance( 5))
            return common::uuid::make();
         return known[ known.size() - 1 - source.draw( std::min< std::size_t>( known.size(), 12))];
      };

      auto suspend = [&]()
      {
         if( ! current)
            return;
         Transaction transaction{ current, {}};
         sys::tx::expect( sys::tx::context().suspend( &transaction.xid), sys::code::tx::ok, "suspend");
         suspended.push_back( transaction);
         current = 0;
         ++interleaved;
      };

      auto resume = [&]( std::size_t index)
      {
         auto transaction = suspended[ index];
         suspended.erase( suspended.begin() + index);
         sys::tx::expect( sys::tx::context().resume( &transaction.xid), sys::code::tx::ok, "resume");
         current = transaction.id;
      };

      auto enqueue = [&]( int index)
      {
         auto& queue = model.queues[ index];
         queue_ns::Message message;
         message.attributes.properties = source.pick< std::string>( { "", "a", "b", "a b", "x=1;y='2'", "A"});
         message.attributes.reply = source.pick< std::string>( { "", "plain", "r.reply"});
         message.payload.type = source.pick< std::string>( { "X_OCTET/", "CFIELD/", ".json/x"});
         Message expected{};
         auto size = source.chance( 90) ? source.uniform( 1, 60) : source.pick( { 100, 150, 199, 200, 201, 5000});
         if( source.chance( 3))
            size = 0;
         expected.payload = source.blob( size);
         for( auto c : expected.payload)
            message.payload.data.push_back( static_cast< std::byte>( c));
         auto now = platform::time::clock::type::now();
         switch( source.weighted( { 70, 10, 20}))
         {
            case 1:
               message.attributes.available = std::chrono::time_point_cast< platform::time::unit>( now) - std::chrono::hours{ 1};
               expected.available = Message::past;
               break;
            case 2:
               message.attributes.available = std::chrono::time_point_cast< platform::time::unit>( now) + std::chrono::hours{ source.uniform( 1, 3)};
               expected.available = Message::future;
               break;
         }

         const auto fits = model.capacity( queue.group) < 0 || long( expected.payload.size()) <= model.capacity( queue.group) - model.used( queue.group);

         std::optional< common::Uuid> id;
         auto code = sys::error( [&](){ id = queue_ns::enqueue( queue.name, message);});

         source.log( "enqueue ", queue.name, " tx ", current, " properties ", pbt::show( message.attributes.properties), " size ", size,
            " available ", int( expected.available), " -> ", id ? sys::to_string( *id) : code->message());

         if( ! queue.enqueue)
         {
            source.label( "enqueue disabled");
            pbt::require( ! id, "enqueue to a queue that is not enabled for enqueue");
            pbt::require( *code == sys::code::queue::no_queue, "wrong error: ", code->message());
            return;
         }
         if( ! fits)
         {
            source.label( "enqueue over capacity");
            pbt::require( ! id, "enqueue of ", expected.payload.size(), " bytes to a group with ", model.capacity( queue.group) - model.used( queue.group), " left");
            return;
         }
         pbt::require( ! code, "enqueue to ", queue.name, " failed: ", code ? code->message() : "");
         expected.id = *id;
         expected.queue = expected.origin = index;
         expected.state = current ? added : committed;
         expected.tx = current;
         expected.properties = message.attributes.properties;
         expected.reply = message.attributes.reply;
         expected.type = message.payload.type;
         expected.when = message.attributes.available;
         expected.sequence = ++model.sequence;
         if( ! current)
            ++queue.enqueued;
         pbt::require( ! model.find( *id), "message id is not unique");
         model.messages.push_back( expected);
         known.push_back( *id);
      };

      auto dequeue_from = [&]( int index, const queue_ns::Selector& selector)
      {
         auto& queue = model.queues[ index];
         std::vector< queue_ns::Message> result;
         const bool known_available = queue.dequeue && model.next( index, selector);
         const bool blocking = known_available && source.chance( 20);
         auto code = sys::error( [&]()
         {
            if( blocking)
               result.push_back( queue_ns::blocking::dequeue( queue.name, selector));
            else
               result = queue_ns::dequeue( queue.name, selector);
         });
         source.log( "dequeue ", queue.name, " tx ", current, " properties ", selector.properties, " id ", selector.id, " -> ",
            code ? code->message() : result.empty() ? std::string{ "none"} : sys::to_string( result.front().id));

         if( ! queue.dequeue)
         {
            source.label( "dequeue disabled");
            pbt::require( code && *code == sys::code::queue::no_queue, "dequeue from a queue that is not enabled for dequeue");
            return;
         }
         pbt::require( ! code, "dequeue failed: ", code ? code->message() : "");

         auto expected = model.next( index, selector);
         if( ! expected)
         {
            pbt::require( result.empty(), "dequeue from ", queue.name, " gave ", result.empty() ? std::string{} : sys::to_string( result.front().id), ", nothing expected");
            return;
         }
         pbt::require( result.size() == 1, "dequeue from ", queue.name, " gave nothing, expected ", expected->id);
         same( *expected, result.front(), "dequeue");
         source.label( expected->redelivered ? "dequeue redelivered" : "dequeue");
         if( current)
         {
            expected->state = dequeued;
            expected->tx = current;
         }
         else
         {
            model.gone( *expected);
            model.erase( expected->id);
         }
      };

      auto dequeue = [&]( int index)
      {
         queue_ns::Selector selector;
         switch( source.weighted( { 70, 15, 15}))
         {
            case 1:
            {
               selector.id = pick_id();
               if( auto message = model.find( selector.id); message && source.chance( 60) && model.queues[ message->queue].dequeue)
                  return dequeue_from( message->queue, selector);
               break;
            }
            case 2: selector.properties = source.pick< std::string>( { "a", "b", "a b", "x=1;y='2'", "A", "none"}); break;
         }
         dequeue_from( index, selector);
      };

      auto check_state = [&]()
      {
         auto state = queue_ns::unittest::state();
         for( auto& group : state.groups)
         {
            auto index = group.alias == "A" ? 0 : group.alias == "B" ? 1 : 2;
            pbt::require( group.size.current == model.used( index), "group ", group.alias, " reports size ", group.size.current, ", expected ", model.used( index));
         }
         for( std::size_t index = 0; index < model.queues.size(); ++index)
         {
            auto& expected = model.queues[ index];
            auto found = std::find_if( state.queues.begin(), state.queues.end(), [&]( auto& queue){ return queue.name == expected.name;});
            pbt::require( found != state.queues.end(), "queue ", expected.name, " is not reported");
            long count = 0, size = 0, uncommitted = 0;
            for( auto& message : model.messages)
               if( message.queue == int( index))
               {
                  if( message.state == added)
                     ++uncommitted;
                  else
                  {
                     ++count;
                     size += message.payload.size();
                  }
               }
            auto equal = [&]( auto actual, auto expect, auto what)
            {
               pbt::require( long( actual) == expect, "queue ", expected.name, " reports ", what, " ", actual, ", expected ", expect);
            };
            equal( found->count, count, "count");
            equal( found->size, size, "size");
            equal( found->uncommitted, uncommitted, "uncommitted");
            equal( found->metric.enqueued, expected.enqueued, "metric.enqueued");
            equal( found->metric.dequeued, expected.dequeued, "metric.dequeued");
            if( ! expected.error)
            {
               equal( found->retry.count, expected.retry, "retry.count");
               equal( found->retry.delay.count() > 0, expected.delay, "retry.delay");
            }
         }
      };

      auto check_messages = [&]( int index)
      {
         auto& queue = model.queues[ index];
         auto list = queue_ns::unittest::messages( queue.name);
         std::size_t count = 0;
         for( auto& expected : model.messages)
         {
            if( expected.queue != index)
               continue;
            ++count;
            auto found = std::find_if( list.begin(), list.end(), [&]( auto& message){ return message.id == expected.id;});
            pbt::require( found != list.end(), "queue ", queue.name, " lacks message ", expected.id);
            pbt::require( int( found->state) == int( expected.state), "message ", expected.id, " in ", queue.name, " has state ", int( found->state), ", expected ", int( expected.state));
            pbt::require( found->redelivered == expected.redelivered, "message ", expected.id, " redelivered ", found->redelivered, ", expected ", expected.redelivered);
            pbt::require( found->size == long( expected.payload.size()), "message size");
            pbt::require( found->type == expected.type, "message type ", found->type);
            pbt::require( found->reply == expected.reply, "message reply");
            pbt::require( ( found->origin == found->queue) == ( expected.origin == expected.queue), "message ", expected.id, " origin");
         }
         pbt::require( list.size() == count, "queue ", queue.name, " has ", list.size(), " messages, expected ", count);
      };

      auto step = [&]( auto)
      {
         switch( source.weighted( { 28, 20, 12, 6, 10, 6, 4, 3, 3, 3, 3, 3, 3, 2, 3, 1, 2}))
         {
            case 0: enqueue( pick_queue()); break;
            case 1: dequeue( pick_nonempty()); break;
            case 2: // begin
            {
               if( current)
                  suspend();
               sys::tx::begin();
               current = next_tx++;
               source.log( "begin ", current);
               if( source.chance( 60))
                  source.repeat( 1, 3, 1, [&]( auto){ dequeue( pick_nonempty());});
               break;
            }
            case 3: // commit
            {
               if( ! current && ! suspended.empty())
                  resume( source.draw( suspended.size()));
               if( ! current)
                  return;
               source.log( "commit ", current);
               sys::tx::commit();
               model.commit( current);
               current = 0;
               break;
            }
            case 4: // rollback
            {
               if( ! current && ! suspended.empty())
                  resume( source.draw( suspended.size()));
               if( ! current)
                  return;
               source.log( "rollback ", current);
               sys::tx::rollback();
               auto before = std::count_if( model.messages.begin(), model.messages.end(), [&]( auto& m){ return model.queues[ m.queue].error;});
               rollbacks += std::count_if( model.messages.begin(), model.messages.end(), [&]( auto& m){ return m.tx == current && m.state == dequeued;});
               model.rollback( current);
               moved += std::count_if( model.messages.begin(), model.messages.end(), [&]( auto& m){ return model.queues[ m.queue].error;}) - before;
               current = 0;
               break;
            }
            case 5: // switch transaction
            {
               suspend();
               if( ! suspended.empty())
                  resume( source.draw( suspended.size()));
               source.log( "switch to ", current);
               break;
            }
            case 6: suspend(); source.log( "suspend"); break;
            case 7: check_state(); break;
            case 8: check_messages( pick_queue()); break;
            case 9: // peek information
            {
               auto index = pick_queue();
               auto& queue = model.queues[ index];
               queue_ns::Selector selector;
               if( source.boolean())
                  selector.properties = source.pick< std::string>( { "a", "b", "a b", "A", "none"});
               source.log( "peek ", queue.name, " ", selector.properties);
               auto list = queue_ns::peek::information( queue.name, selector);
               std::set< std::string> ids, expected;
               for( auto& information : list)
                  ids.insert( sys::to_string( information.id));
               for( auto& message : model.messages)
                  if( message.queue == index && ( selector.properties.empty() || message.properties == selector.properties))
                     expected.insert( sys::to_string( message.id));
               pbt::require( ids == expected && list.size() == expected.size(), "peek::information of ", queue.name, " gave ", list.size(), " messages, expected ", expected.size());
               for( auto& information : list)
               {
                  auto message = model.find( information.id);
                  pbt::require( information.attributes.properties == message->properties, "peek properties");
                  pbt::require( information.attributes.reply == message->reply, "peek reply");
                  pbt::require( information.payload.type == message->type, "peek type");
                  pbt::require( information.payload.size == long( message->payload.size()), "peek size");
                  pbt::require( int( information.state) == int( message->state), "peek state ", int( information.state));
                  pbt::require( information.redelivered == message->redelivered, "peek redelivered");
               }
               break;
            }
            case 10: // peek messages
            {
               auto index = pick_queue();
               auto& queue = model.queues[ index];
               std::vector< common::Uuid> ids;
               for( auto& message : model.messages)
                  if( message.queue == index && source.boolean())
                     ids.push_back( message.id);
               if( source.chance( 20))
                  ids.push_back( common::uuid::make());
               source.log( "peek messages ", queue.name, " ", ids.size());
               auto list = queue_ns::peek::messages( queue.name, ids);
               std::size_t expected = 0;
               for( auto& id : ids)
                  if( auto message = model.find( id))
                  {
                     ++expected;
                     auto found = std::find_if( list.begin(), list.end(), [&]( auto& m){ return m.id == id;});
                     pbt::require( found != list.end(), "peek::messages lacks ", id);
                     same( *message, *found, "peek::messages");
                  }
               pbt::require( list.size() == expected, "peek::messages gave ", list.size(), " messages, expected ", expected);
               break;
            }
            case 11: // browse
            {
               auto index = pick_queue();
               auto& queue = model.queues[ index];
               if( ! queue.dequeue)
                  return;
               source.log( "browse ", queue.name);
               std::vector< queue_ns::Message> list;
               auto limit = source.pick( { 100u, 2u, 1u});
               queue_ns::browse::peek( queue.name, [&]( queue_ns::Message&& message)
               {
                  list.push_back( std::move( message));
                  return list.size() < limit;
               });
               std::vector< const Message*> expected;
               for( auto& message : model.messages)
                  if( message.queue == index && message.state == committed && message.available != Message::future)
                     expected.push_back( &message);
               std::sort( expected.begin(), expected.end(), []( auto l, auto r){ return l->sequence < r->sequence;});
               if( expected.size() > limit)
                  expected.resize( limit);
               pbt::require( list.size() == expected.size(), "browse ", queue.name, " gave ", list.size(), " messages, expected ", expected.size());
               for( std::size_t i = 0; i < list.size(); ++i)
                  same( *expected[ i], list[ i], "browse");
               break;
            }
            case 12: // restore
            {
               auto index = pick_nonempty();
               index -= index % 2;
               auto& queue = model.queues[ index];
               auto affected = queue_ns::restore::queue( { queue.name});
               long expected = 0;
               for( auto& message : model.messages)
                  if( message.origin == index && message.queue != index && message.state == committed)
                  {
                     ++expected;
                     model.gone( message);
                     message.queue = index;
                     ++queue.enqueued;
                  }
               source.log( "restore ", queue.name, " -> ", affected.empty() ? -1 : affected.front().count);
               pbt::require( affected.size() == 1 && affected.front().queue == queue.name && affected.front().count == expected, "restore of ", queue.name, " affected ",
                  affected.empty() ? -1 : affected.front().count, " expected ", expected);
               if( expected)
                  source.label( "restored");
               break;
            }
            case 13: // clear
            {
               auto index = pick_queue();
               auto& queue = model.queues[ index];
               auto affected = queue_ns::clear::queue( { queue.name});
               long expected = 0;
               std::erase_if( model.messages, [&]( auto& message)
               {
                  if( message.queue != index || message.state != committed)
                     return false;
                  ++expected;
                  model.gone( message);
                  return true;
               });
               source.log( "clear ", queue.name, " -> ", affected.empty() ? -1 : affected.front().count);
               pbt::require( affected.size() == 1 && affected.front().queue == queue.name && affected.front().count == expected, "clear of ", queue.name, " affected ",
                  affected.empty() ? -1 : affected.front().count, " expected ", expected);
               break;
            }
            case 14: // remove
            {
               std::vector< common::Uuid> ids;
               source.repeat( 1, 3, 1, [&]( auto){ ids.push_back( pick_id());});
               auto index = pick_queue();
               if( auto message = model.find( ids.front()); message && source.chance( 80))
                  index = message->queue;
               auto& queue = model.queues[ index];
               std::sort( ids.begin(), ids.end());
               ids.erase( std::unique( ids.begin(), ids.end()), ids.end());
               bool force = source.chance( 30);
               auto removed = queue_ns::messages::remove( queue.name, ids, force);
               source.log( "remove from ", queue.name, " ", ids.size(), " force ", force, " -> ", removed.size());
               std::size_t expected = 0;
               for( auto& id : ids)
               {
                  auto message = model.find( id);
                  bool is = std::find( removed.begin(), removed.end(), id) != removed.end();
                  bool should = message && message->queue == index && ( message->state == committed || force);
                  pbt::require( is == should, "remove of ", id, " from ", queue.name, " removed: ", is, " expected ", should);
                  if( ! should)
                     continue;
                  ++expected;
                  if( message->state != added)
                     model.gone( *message);
                  model.erase( id);
               }
               pbt::require( removed.size() == expected, "remove: count");
               break;
            }
            case 15: // metric reset
            {
               auto index = pick_queue();
               auto& queue = model.queues[ index];
               source.log( "metric reset ", queue.name);
               serviceframework::service::protocol::binary::Call{}( queue_ns::manager::admin::service::name::metric::reset,
                  serviceframework::service::protocol::binary::Call::Flag{}, std::vector< std::string>{ queue.name});
               queue.enqueued = queue.dequeued = 0;
               break;
            }
            case 16: // in-doubt messages are decided by an operator
            {
               if( suspended.empty())
                  return;
               auto& transaction = suspended[ source.draw( suspended.size())];
               auto commit = source.boolean();
               auto affected = std::any_of( model.messages.begin(), model.messages.end(), [&]( auto& message){ return message.state != committed && message.tx == transaction.id;});
               using Directive = queue_ns::ipc::message::group::message::recovery::Directive;
               auto gtrid = common::transaction::global::ID{ common::transaction::id::range::global( transaction.xid)};
               auto result = serviceframework::service::protocol::binary::Call{}( queue_ns::manager::admin::service::name::recover,
                  serviceframework::service::protocol::binary::Call::Flag{}, std::vector< common::transaction::global::ID>{ gtrid}, commit ? Directive::commit : Directive::rollback)
                     .extract< std::vector< common::transaction::global::ID>>();
               source.log( "recover ", transaction.id, commit ? " commit -> " : " rollback -> ", result.size());
               pbt::require( result.size() == ( affected ? 1 : 0), "recovery of transaction ", transaction.id, " gave ", result.size(), " gtrids, messages involved: ", affected);
               if( commit)
                  model.commit( transaction.id);
               else
                  model.rollback( transaction.id);
               if( affected)
                  source.label( "recovered");
               break;
            }
         }
      };

      source.repeat( 5, 120, 60, step);

      // finish: every transaction is decided, then everything is as the model says
      for( ;;)
      {
         if( ! current && suspended.empty())
            break;
         if( ! current)
            resume( 0);
         if( source.boolean())
         {
            source.log( "commit ", current);
            sys::tx::commit();
            model.commit( current);
         }
         else
         {
            source.log( "rollback ", current);
            sys::tx::rollback();
            model.rollback( current);
         }
         current = 0;
      }
      check_state();
      for( std::size_t index = 0; index < model.queues.size(); ++index)
         check_messages( index);

      if( interleaved) source.label( "interleaved transactions");
      if( moved) source.label( "moved to error queue");
      source.nontrivial( rollbacks > 0 && model.sequence > 5);
   }
}

int main( int argc, char** argv)
{
   pbt::Options options;
   options.property = "Q01";
   options.rule = "a case is a booted domain with three queue groups and up to 120 generated operations from interleaved transactions; "
      "non-trivial: at least one dequeued message was rolled back and more than five messages were enqueued";
   options.isolated = true;
   options.quick = 1200;
   options.thorough = 8000;
   options.quick_cap = 120;
   options.case_timeout = 60;
   options.assumptions = { "the clock does not jump by hours during a case"};
   return pbt::run( argc, argv, options, property);
}
