From e4a7e97e5aea4a40a463bec5973f5526ce1cdcf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:30 +0000
Subject: [PATCH 01/64] fix: queue - persist the work of a transaction before
 replying ok to prepare

The group replied to the prepare request directly, while the work done within
the transaction was still not persistent. If the group (or the machine) died
between the prepare reply and the next persist, the work was lost although the
group had promised to be able to commit it.
---
 middleware/queue/source/group/handle.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/middleware/queue/source/group/handle.cpp b/middleware/queue/source/group/handle.cpp
index 04ec089..ccc9c2a 100644
--- a/middleware/queue/source/group/handle.cpp
+++ b/middleware/queue/source/group/handle.cpp
@@ -485,7 +485,9 @@ namespace casual
                            reply.trid = message.trid;
                            reply.state = common::code::xa::ok;
 
-                           state.multiplex.send( message.process.ipc, reply);
+                           // note: we need to persist the work done within the transaction before we promise that
+                           // we can commit it, otherwise it's lost if we crash between prepare and commit.
+                           local::detail::persistent::reply( state, message.process, std::move( reply));
                         };
                      }
                   } // prepare
-- 
2.43.0


From 3a34680359cfde81fbd5888f8ddd983507de6bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:56 +0000
Subject: [PATCH 02/64] fix: transaction - rollback when a resource gets
 involved after the owner is gone

If the owner of a transaction dies while a queue request within the transaction
is in flight, TM could get the exit event before the 'involved' message from the
queue-group. TM had then nothing to rollback for that group (or had already
started a rollback without it), and the transaction was never ended: messages
were locked until the domain was restarted and the group could not shut down.
---
 .../transaction/source/manager/handle.cpp     | 25 +++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/middleware/transaction/source/manager/handle.cpp b/middleware/transaction/source/manager/handle.cpp
index 84afb22..353e422 100644
--- a/middleware/transaction/source/manager/handle.cpp
+++ b/middleware/transaction/source/manager/handle.cpp
@@ -25,6 +25,8 @@
 #include "configuration/message.h"
 #include "configuration/model/change.h"
 
+#include <cerrno>
+#include <csignal>
 
 namespace casual
 {
@@ -854,6 +856,15 @@ namespace casual
                            }
                         } // read::only
                      } // send
+
+                     namespace owner
+                     {
+                        //! @return true if we're certain that the owner process does not exist
+                        bool dead( const common::process::Handle& owner)
+                        {
+                           return owner.pid.underlying() > 0 && ::kill( owner.pid.underlying(), 0) == -1 && errno == ESRCH;
+                        }
+                     } // owner
                   } // detail
 
 
@@ -880,6 +891,20 @@ namespace casual
 
                         auto& transaction = *local::detail::transaction::find_or_add_and_involve( state, message, id);
                         common::log::line( verbose::log, "transaction: ", transaction);
+
+                        // The owner could have died before we got the association, hence we've already handled the exit
+                        // of the owner (if not, we will). Nobody else will end the transaction for this resource, so we need to.
+                        // note: there could be an ongoing rollback that does not include the resource.
+                        if( common::algorithm::compare::any( transaction.stage, state::transaction::Stage::involved, state::transaction::Stage::rollback) 
+                           && detail::owner::dead( message.trid.owner()))
+                        {
+                           common::log::line( log, "owner is dead: ", message.trid.owner(), " - action: rollback trid: ", message.trid);
+
+                           common::message::transaction::rollback::Request request;
+                           request.process = common::process::handle();
+                           request.trid = message.trid;
+                           local::rollback::request( state)( request);
+                        }
                      };
                   }
 
-- 
2.43.0


From fddf8cde919b90073d545878da94e52d6fafd5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:30 +0000
Subject: [PATCH 03/64] fix: queue - do not spin on a blocking dequeue that no
 available message matches

A pending dequeue with a selector raised the alarm signal directly when the
earliest available message already was available but did not match, which
made the group retry forever without ever reading its sockets. Only messages
that are not available yet are of interest for the timer.
---
 .../queue/include/queue/group/queuebase.h     |  3 +++
 .../include/queue/group/queuebase/statement.h |  1 +
 middleware/queue/source/group/handle.cpp      | 20 +++++++++++++-----
 middleware/queue/source/group/queuebase.cpp   | 21 +++++++++++++++++++
 .../source/group/queuebase/statement.cpp      |  5 +++++
 5 files changed, 45 insertions(+), 5 deletions(-)

diff --git a/middleware/queue/include/queue/group/queuebase.h b/middleware/queue/include/queue/group/queuebase.h
index 280eef9..6552bf2 100644
--- a/middleware/queue/include/queue/group/queuebase.h
+++ b/middleware/queue/include/queue/group/queuebase.h
@@ -157,6 +157,9 @@ namespace casual
          //! @returns the earliest available message in the queue, if any.
          std::optional< platform::time::point::type> available( common::strong::queue::id queue) const;
 
+         //! @returns the earliest available message in the queue that is not available at `now`, if any.
+         std::optional< platform::time::point::type> available( common::strong::queue::id queue, const platform::time::point::type& now) const;
+
          //! @return number of restored messages for the queue
          platform::size::type restore( common::strong::queue::id id);
 
diff --git a/middleware/queue/include/queue/group/queuebase/statement.h b/middleware/queue/include/queue/group/queuebase/statement.h
index f2736ea..7104268 100644
--- a/middleware/queue/include/queue/group/queuebase/statement.h
+++ b/middleware/queue/include/queue/group/queuebase/statement.h
@@ -44,6 +44,7 @@ namespace casual
          {
             sql::database::Statement queues;
             sql::database::Statement message;
+            sql::database::Statement future;
          } available;
 
 
diff --git a/middleware/queue/source/group/handle.cpp b/middleware/queue/source/group/handle.cpp
index ccc9c2a..563f420 100644
--- a/middleware/queue/source/group/handle.cpp
+++ b/middleware/queue/source/group/handle.cpp
@@ -327,8 +327,9 @@ namespace casual
                      }
                      else if( message.block)
                      {
-                        // check if we need to set a timer
-                        auto available = state.queuebase.available( message.queue);
+                        // check if we need to set a timer. We're only interested in messages that are not available yet, those
+                        // that are available already do not match the request.
+                        auto available = state.queuebase.available( message.queue, now);
                         if( available)
                         {
                            auto wanted = available.value() - now;
@@ -904,12 +905,21 @@ namespace casual
                            }
                         } 
 
-                        // take care of not available ( yet). We find the earliest and set a timer for that
+                        // take care of not available ( yet), for all that are still pending. We find the earliest and set a timer for that
                         {
-                           auto earliest_future = algorithm::min( std::get< 1>( split), []( auto& l, auto& r){ return l.when < r.when;});
+                           std::optional< platform::time::point::type> earliest_future;
+
+                           for( auto& available : available)
+                           {
+                              if( ! algorithm::contains( algorithm::transform( state.pending.dequeues, transform_id), available.queue))
+                                 continue;
+
+                              if( auto future = state.queuebase.available( available.queue, now); future && ( ! earliest_future || *future < *earliest_future))
+                                 earliest_future = future;
+                           }
 
                            if( earliest_future)
-                              common::signal::timer::set( earliest_future->when - now);
+                              common::signal::timer::set( *earliest_future - now);
                            else 
                               common::signal::timer::unset();
                         }
diff --git a/middleware/queue/source/group/queuebase.cpp b/middleware/queue/source/group/queuebase.cpp
index cd0fcb4..e0d1124 100644
--- a/middleware/queue/source/group/queuebase.cpp
+++ b/middleware/queue/source/group/queuebase.cpp
@@ -580,6 +580,27 @@ namespace casual
          return available;
       }
 
+      std::optional< platform::time::point::type> Queuebase::available( common::strong::queue::id queue, const platform::time::point::type& now) const
+      {
+         Trace trace{ "queue::Queuebase::available earliest future"};
+         log::line( verbose::log, "queue: ", queue);
+
+         auto query = m_statement.available.future.query( queue.underlying(), now);
+         sql::database::Row row;
+
+         if( ! query.fetch( row))
+            return {};
+
+         std::optional< platform::time::point::type> available;
+
+         // "SELECT MIN( m.available)"
+         sql::database::row::get( row, 
+            available
+         );
+
+         return available;
+      }
+
       platform::size::type Queuebase::restore( common::strong::queue::id queue)
       {
          Trace trace{ "queue::Queuebase::restore"};
diff --git a/middleware/queue/source/group/queuebase/statement.cpp b/middleware/queue/source/group/queuebase/statement.cpp
index cf255a1..6e98a68 100644
--- a/middleware/queue/source/group/queuebase/statement.cpp
+++ b/middleware/queue/source/group/queuebase/statement.cpp
@@ -132,6 +132,11 @@ WHERE queue = :queue AND state = 2 AND properties = :properties AND available <
                "SELECT MIN( m.available)"
                " FROM message m WHERE m.queue = :queue AND m.state = 2;"
             );
+
+            result.available.future = connection.precompile(
+               "SELECT MIN( m.available)"
+               " FROM message m WHERE m.queue = :queue AND m.state = 2 AND m.available >= :now;"
+            );
          }
 
          result.id = connection.precompile( "SELECT id FROM queue where name = :name;");
-- 
2.43.0


From 35ce9ef375e2c925921aa977a1c7183e71bb4007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:44 +0000
Subject: [PATCH 04/64] fix: service - wait for busy instances that are about
 to shutdown before the manager shuts down

---
 middleware/service/source/manager/state.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/middleware/service/source/manager/state.cpp b/middleware/service/source/manager/state.cpp
index 51675a1..8e2d2fa 100644
--- a/middleware/service/source/manager/state.cpp
+++ b/middleware/service/source/manager/state.cpp
@@ -423,7 +423,8 @@ namespace casual
 
       bool State::done() const noexcept
       {
-         return runlevel > decltype( runlevel())::running;
+         // we need to wait for instances that others want to shutdown (and wait for our reply)
+         return runlevel > decltype( runlevel())::running && pending.shutdown.empty();
       }
    
       namespace local
-- 
2.43.0


From 71d0a47ec83eb48f22076ca9935a27e36911f0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:44 +0000
Subject: [PATCH 05/64] fix: transaction - the death of the owner must not
 rollback a commit in progress

---
 middleware/transaction/source/manager/handle.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/middleware/transaction/source/manager/handle.cpp b/middleware/transaction/source/manager/handle.cpp
index 353e422..3e73d88 100644
--- a/middleware/transaction/source/manager/handle.cpp
+++ b/middleware/transaction/source/manager/handle.cpp
@@ -1178,6 +1178,10 @@ namespace casual
 
                      auto trids = common::algorithm::accumulate( state.transactions, std::vector< common::transaction::ID>{}, [ pid = message.state.pid]( auto result, auto& transaction)
                      {
+                        // if the commit is in progress the outcome is not up to the owner any more
+                        if( ! common::algorithm::compare::any( transaction.stage, state::transaction::Stage::involved, state::transaction::Stage::rollback))
+                           return result;
+
                         if( ! transaction.branches.empty() && transaction.branches.back().trid.owner().pid == pid)
                            result.push_back( transaction.branches.back().trid);
 
-- 
2.43.0


From 761fd7b4937332853deae0562189b08a9079c0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:44 +0000
Subject: [PATCH 06/64] fix: transaction - keep the order of the prepare and
 commit replies

---
 middleware/transaction/source/manager/handle.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/middleware/transaction/source/manager/handle.cpp b/middleware/transaction/source/manager/handle.cpp
index 3e73d88..6e52a6a 100644
--- a/middleware/transaction/source/manager/handle.cpp
+++ b/middleware/transaction/source/manager/handle.cpp
@@ -434,10 +434,15 @@ namespace casual
                         if constexpr( concepts::any_of< Reply, common::message::transaction::commit::Reply>)
                            reply.stage = decltype( reply.stage)::commit;
 
-                        common::log::line( verbose::log, "reply: ", reply);   
-                        state.multiplex.send( destination.process.ipc, reply);
+                        common::log::line( verbose::log, "reply: ", reply);
 
                         remove::transaction( state, common::transaction::id::range::global( origin));
+
+                        // the reply for the prepare stage could be pending for persistence, we need to keep the order.
+                        if( state.persistent.replies.empty())
+                           state.multiplex.send( destination.process.ipc, reply);
+                        else
+                           detail::send::persist::reply( state, std::move( reply), destination.process);
                      });
                   }
 
-- 
2.43.0


From 3a6db932758a66581c5124de1ee8a928afa19190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:44 +0000
Subject: [PATCH 07/64] fix: transaction - unknown xid from one resource must
 not be reported as read-only when others have prepared

---
 .../transaction/source/manager/handle.cpp       | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/middleware/transaction/source/manager/handle.cpp b/middleware/transaction/source/manager/handle.cpp
index 6e52a6a..367badf 100644
--- a/middleware/transaction/source/manager/handle.cpp
+++ b/middleware/transaction/source/manager/handle.cpp
@@ -507,7 +507,22 @@ namespace casual
                         // we're done with the prepare phase
                         transaction->stage = state::transaction::Stage::post_prepare;
 
-                        const auto code = detail::accumulate::code( replies, outcome);
+                        const auto code = [ &]()
+                        {
+                           const auto code = detail::accumulate::code( replies, outcome);
+
+                           // An unknown xid is not an error, and if we act as a resource it will be replied as read-only (upstream will not 
+                           // ask us to rollback). That can't be if there are resources that have prepared.
+                           if constexpr( ! concepts::any_of< Reply, common::message::transaction::commit::Reply>)
+                           {
+                              if( code == common::code::xa::invalid_xid)
+                              {
+                                 auto prepared = common::algorithm::any_of( replies, []( auto& reply){ return reply.state == common::code::xa::ok;});
+                                 return prepared ? common::code::xa::rollback_unspecified : common::code::xa::read_only;
+                              }
+                           }
+                           return code;
+                        }();
                         common::log::line( verbose::log, "code: ", code);
 
                         // filter away all read-only replies
-- 
2.43.0


From 1d59b6df1b6f89c16f25d3cfc09f428a7c2e7325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:44 +0000
Subject: [PATCH 08/64] fix: transaction - scale resource proxies without
 losing pending requests

---
 .../include/transaction/manager/state.h       |  1 +
 .../transaction/source/manager/action.cpp     | 41 +++++++------------
 .../transaction/source/manager/handle.cpp     | 11 +++--
 .../transaction/source/manager/state.cpp      | 12 +++++-
 4 files changed, 33 insertions(+), 32 deletions(-)

diff --git a/middleware/transaction/include/transaction/manager/state.h b/middleware/transaction/include/transaction/manager/state.h
index a216a02..bc692eb 100644
--- a/middleware/transaction/include/transaction/manager/state.h
+++ b/middleware/transaction/include/transaction/manager/state.h
@@ -461,6 +461,7 @@ namespace casual
          const state::resource::Proxy& get_resource( const std::string& name) const;
          state::resource::Proxy* find_resource( common::strong::resource::id rm);
          state::resource::Proxy* find_resource( const std::string& name);
+         state::resource::proxy::Instance* find_instance( common::strong::resource::id rm, common::strong::process::id pid);
          state::resource::proxy::Instance& get_instance( common::strong::resource::id rm, common::strong::process::id pid);
 
          bool remove_instance( common::strong::process::id pid);
diff --git a/middleware/transaction/source/manager/action.cpp b/middleware/transaction/source/manager/action.cpp
index cd815bf..38408eb 100644
--- a/middleware/transaction/source/manager/action.cpp
+++ b/middleware/transaction/source/manager/action.cpp
@@ -41,7 +41,8 @@ namespace casual
                Trace trace{ "transaction:manager::action::resource::proxy::scale::instances"};
                log::line( log, "update instances for resource: ", proxy);
             
-               auto count = proxy.configuration.instances - range::size( proxy.instances);
+               // instances that already is on their way out don't count
+               auto count = proxy.scale_difference();
 
                if( count > 0)
                {
@@ -72,34 +73,20 @@ namespace casual
                }
                else
                {
-                  auto end = std::end( proxy.instances);
-
-                  for( auto& instance : range::make( end + count, end))
+                  for( auto& instance : proxy.shutdownable())
                   {
-                     switch( instance.state())
+                     const auto registered = instance.state() != decltype( instance.state())::spawned;
+                     instance.state( state::resource::proxy::instance::State::shutdown);
+
+                     if( registered)
+                     {
+                        log::line( log, "shutdown instance: ", instance);
+                        communication::ipc::flush::optional::send( instance.process.ipc, message::shutdown::Request{ common::process::handle()});
+                     }
+                     else
                      {
-                        using State = decltype( instance.state());
-
-                        case State::spawned:
-                        {
-                           log::line( log, "Instance has not register yet. We, kill it...: ", instance);
-
-                           process::lifetime::terminate( { instance.process.pid});
-                           instance.state( State::shutdown);
-                           break;
-                        }
-                        case State::shutdown:
-                        {
-                           log::line( log, "instance already in shutdown state - ", instance);
-                           break;
-                        }
-                        default:
-                        {
-                           log::line( log, "shutdown instance: ", instance);
-                           instance.state( State::shutdown);
-                           communication::ipc::flush::send( instance.process.ipc, message::shutdown::Request{});
-                           break;
-                        }
+                        log::line( log, "Instance has not register yet. We, kill it...: ", instance);
+                        process::terminate( instance.process.pid);
                      }
                   }
                }
diff --git a/middleware/transaction/source/manager/handle.cpp b/middleware/transaction/source/manager/handle.cpp
index 367badf..3479dd5 100644
--- a/middleware/transaction/source/manager/handle.cpp
+++ b/middleware/transaction/source/manager/handle.cpp
@@ -723,6 +723,10 @@ namespace casual
                      {
                         Trace trace{ "transaction::manager::handle::local::resource::detail::instance::done"};
 
+                        // if the instance is on its way out some other instance gets the pending request
+                        if( instance.state() == state::resource::proxy::instance::State::shutdown)
+                           return;
+
                         if( auto request = state.pending.requests.next( instance.id))
                         {
                            // We got a pending request for this resource, let's oblige
@@ -739,10 +743,11 @@ namespace casual
                         if( state::resource::id::local( message.resource))
                         {
                            // The resource is a local resource proxy, and it's done, and ready for more work
-                           auto& instance = state.get_instance( message.resource, message.process.pid);
+                           // note: the instance could have been removed, if we got to know about the exit before we got the reply.
+                           if( auto instance = state.find_instance( message.resource, message.process.pid))
                            {
-                              instance.unreserve( message.statistics);
-                              instance::ready( state, instance);
+                              instance->unreserve( message.statistics);
+                              instance::ready( state, *instance);
                            }
                         } 
                      }
diff --git a/middleware/transaction/source/manager/state.cpp b/middleware/transaction/source/manager/state.cpp
index 3a50d19..428cbb4 100644
--- a/middleware/transaction/source/manager/state.cpp
+++ b/middleware/transaction/source/manager/state.cpp
@@ -306,10 +306,18 @@ namespace casual
          code::raise::error( code::casual::invalid_argument, "failed to find resource - name: ", name);
       }
 
+      state::resource::proxy::Instance* State::find_instance( common::strong::resource::id rm, common::strong::process::id pid)
+      {
+         if( auto resource = find_resource( rm))
+            if( auto found = common::algorithm::find( resource->instances, pid))
+               return found.data();
+
+         return nullptr;
+      }
+
       state::resource::proxy::Instance& State::get_instance( common::strong::resource::id rm, common::strong::process::id pid)
       {
-         auto& resource = get_resource( rm);
-         if( auto found = common::algorithm::find( resource.instances, pid))
+         if( auto found = find_instance( rm, pid))
             return *found;
 
          code::raise::error( code::casual::invalid_argument, "failed to find instance - rm: ", rm, ", pid: ", pid);
-- 
2.43.0


From cdc882f54dc921945faf8f4d001721ae2d6e4efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:02 +0000
Subject: [PATCH 09/64] fix: a received buffer without data has an address

An empty payload (an empty fielded or order buffer, zero bytes of x_octet) that
was deserialized ended up in the buffer pool with a null handle. The receiver
could neither use nor free it.
---
 middleware/common/source/buffer/type.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/middleware/common/source/buffer/type.cpp b/middleware/common/source/buffer/type.cpp
index 026a674..e14a8fa 100644
--- a/middleware/common/source/buffer/type.cpp
+++ b/middleware/common/source/buffer/type.cpp
@@ -88,10 +88,17 @@ namespace casual
          static_assert( ! concepts::copyable< Buffer>);
 
          Buffer::Buffer( Payload payload, Inbound)
-            : payload( std::move( payload)), m_inbound{ true}
-         {}
+            : Buffer{ std::move( payload)}
+         {
+            m_inbound = true;
+         }
 
-         Buffer::Buffer( Payload payload) : payload( std::move( payload)) {}
+         Buffer::Buffer( Payload payload) : payload( std::move( payload)) 
+         {
+            // a deserialized payload without data has no address, hence can't be a handle
+            if( ! this->payload.data.data())
+               this->payload.data.reserve( 1);
+         }
 
          Buffer::Buffer( string::Argument type, platform::binary::size::type size)
             : payload( std::move( type), size) {}
-- 
2.43.0


From 7ff74b7c0fc5452c2933dc1e77b237ac27fbcaf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:25 +0000
Subject: [PATCH 10/64] fix: print and match values of char and string fields

The address of the value was written instead of the value.
---
 middleware/buffer/source/field.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/middleware/buffer/source/field.cpp b/middleware/buffer/source/field.cpp
index 8bba3bc..5739ba5 100644
--- a/middleware/buffer/source/field.cpp
+++ b/middleware/buffer/source/field.cpp
@@ -1887,7 +1887,7 @@ namespace casual
                               stream << local::decode< long>( data);
                               break;
                            case CASUAL_FIELD_CHAR:
-                              stream << data;
+                              stream << local::decode< char>( data);
                               break;
                            case CASUAL_FIELD_FLOAT:
                               stream << local::decode< float>( data);
@@ -1896,7 +1896,7 @@ namespace casual
                               stream << local::decode< double>( data);
                               break;
                            case CASUAL_FIELD_STRING:
-                              stream << data;
+                              stream << reinterpret_cast< const_data_type>( data);
                               break;
                            case CASUAL_FIELD_BINARY:
                            default:
-- 
2.43.0


From 830fbf740b02cb1bcf0ecf8931a37ce276b80013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:10 +0000
Subject: [PATCH 11/64] fix: consuming an order buffer never reads beyond its
 content

A get of something bigger than what's left read beyond the utilized memory, and
a get of binary could succeed with garbage as size.
---
 middleware/buffer/source/order.cpp | 46 +++++++++++++++++++++---------
 1 file changed, 33 insertions(+), 13 deletions(-)

diff --git a/middleware/buffer/source/order.cpp b/middleware/buffer/source/order.cpp
index 6d76583..9043348 100644
--- a/middleware/buffer/source/order.cpp
+++ b/middleware/buffer/source/order.cpp
@@ -291,25 +291,41 @@ namespace casual
                }
 
                template<typename T>
-               size_type select( const_data_type where, T& value) noexcept
+               size_type select( std::span< const std::byte> available, T& value)
                {
-                  //value = common::network::byteorder::decode< T>( *std::start_lifetime_as< common::network::byteorder::type< T>>( where));
-                  value = common::network::byteorder::decode< T>( *reinterpret_cast< const common::network::byteorder::type< T>*>( where));
-                  return common::network::byteorder::bytes< T>();
+                  constexpr auto bytes = common::network::byteorder::bytes< T>();
+
+                  if( std::ssize( available) < bytes)
+                     throw std::out_of_range{ "not enough data to consume"};
+
+                  //value = common::network::byteorder::decode< T>( *std::start_lifetime_as< common::network::byteorder::type< T>>( available.data()));
+                  value = common::network::byteorder::decode< T>( *reinterpret_cast< const common::network::byteorder::type< T>*>( available.data()));
+                  return bytes;
                }
 
-               size_type select( const_data_type where, const char*& value) noexcept
+               size_type select( std::span< const std::byte> available, const char*& value)
                {
-                  value = reinterpret_cast< const char*>( where);
-                  return std::strlen( value) + 1;
+                  const auto terminator = std::find( std::begin( available), std::end( available), std::byte{ '\0'});
+
+                  if( terminator == std::end( available))
+                     throw std::out_of_range{ "no string to consume"};
+
+                  value = reinterpret_cast< const char*>( available.data());
+                  return std::distance( std::begin( available), terminator) + 1;
                }
 
-               size_type select( const_data_type where, const char*& data, size_type& size) noexcept
+               size_type select( std::span< const std::byte> available, const char*& data, size_type& size)
                {
                   // select first size chunk
-                  const auto read = select( where, size);
-                  data = reinterpret_cast< const char*>( where + read);
-                  return read + size;
+                  size_type count{};
+                  const auto read = select( available, count);
+
+                  if( count < 0 || std::ssize( available) - read < count)
+                     throw std::out_of_range{ "not enough data to consume"};
+
+                  data = reinterpret_cast< const char*>( available.data() + read);
+                  size = count;
+                  return read + count;
                }
 
                template<typename... A>
@@ -322,8 +338,12 @@ namespace casual
                      // See how much have been read so far
                      const auto read = buffer.consumed();
 
-                     // Read the data and let us not how much
-                     const auto size = select( buffer.handle().underlying() + read, std::forward<A>( arguments)...);
+                     if( read > buffer.utilized())
+                        return CASUAL_ORDER_OUT_OF_BOUNDS;
+
+                     // Read the data and let us not how much. Nothing is read beyond what's utilized
+                     const auto available = std::span{ buffer.payload.data}.subspan( read);
+                     const auto size = select( available, std::forward<A>( arguments)...);
 
                      // Calculate the new cursor
                      const auto consumed = read + size;
-- 
2.43.0


From f77e5b4eb27bef8ff2e2c2221eb7adc6dd1097a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:13 +0000
Subject: [PATCH 12/64] fix: refuse malformed fielded content

A negative or too large size in received (or copied) memory made the indexing
read out of bounds or never end, and a value shorter than its type was read
out of bounds by get.
---
 middleware/buffer/source/field.cpp | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/middleware/buffer/source/field.cpp b/middleware/buffer/source/field.cpp
index 5739ba5..b7c640a 100644
--- a/middleware/buffer/source/field.cpp
+++ b/middleware/buffer/source/field.cpp
@@ -67,6 +67,23 @@ namespace casual
                return common::network::byteorder::decode<T>( encoded);
             }
 
+            //! @returns true if the value could be read as the type of the item
+            bool valid( item_type item, platform::binary::immutable::pointer data, size_type size) noexcept
+            {
+               using namespace common::network::byteorder;
+
+               switch( item / CASUAL_FIELD_TYPE_BASE)
+               {
+                  case CASUAL_FIELD_SHORT: return size == bytes< short>();
+                  case CASUAL_FIELD_LONG: return size == bytes< long>();
+                  case CASUAL_FIELD_CHAR: return size == bytes< char>();
+                  case CASUAL_FIELD_FLOAT: return size == bytes< float>();
+                  case CASUAL_FIELD_DOUBLE: return size == bytes< double>();
+                  case CASUAL_FIELD_STRING: return size > 0 && data[ size - 1] == std::byte{ '\0'};
+                  default: return true;
+               }
+            }
+
             struct Buffer : common::buffer::Buffer
             {
                std::map< item_type, std::vector< size_type>> index;
@@ -82,16 +99,21 @@ namespace casual
 
                   while( cursor < end)
                   {
+                     const auto available = std::distance( cursor, end) - data_offset;
+
+                     if( available < 0)
+                        throw std::invalid_argument{ "buffer is invalid"};
+
                      const auto item = local::decode< item_type>( &*cursor + item_offset);
                      const auto size = local::decode< size_type>( &*cursor + size_offset);
 
+                     if( size < 0 || size > available || ! local::valid( item, &*cursor + data_offset, size))
+                        throw std::invalid_argument{ "buffer is invalid"};
+
                      index[ item].push_back( std::distance( begin, cursor));
 
                      std::advance( cursor, data_offset + size);
                   }
-
-                  if( cursor > end)
-                     throw std::invalid_argument{ "buffer is invalid"};
                }
 
                Buffer( Buffer&&) noexcept = default;
-- 
2.43.0


From 56276163a3024c87bb74fbe83e4ed84a09034507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:37 +0000
Subject: [PATCH 13/64] fix: an unterminated string buffer is detected without
 reading beyond it

---
 middleware/buffer/source/string.cpp | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/middleware/buffer/source/string.cpp b/middleware/buffer/source/string.cpp
index a6e7bd3..33a8dd7 100644
--- a/middleware/buffer/source/string.cpp
+++ b/middleware/buffer/source/string.cpp
@@ -36,17 +36,13 @@ namespace casual
             {
                auto validate( const common::buffer::Payload& payload)
                {
-                  auto string_like = common::binary::span::to_string_like( payload.data);
-                  const auto size = std::size( string_like);
-                  const auto used = std::strlen( string_like.data()) + 1;
-
                   // We do need to check that it is a real null-terminated
                   // string within allocated area
 
-                  if( used > size)
-                     throw std::invalid_argument{"string is longer than allocated size"};
+                  if( auto found = common::algorithm::find( payload.data, std::byte{ '\0'}))
+                     return std::distance( std::begin( payload.data), std::begin( found)) + 1;
 
-                  return used;
+                  throw std::invalid_argument{"string is longer than allocated size"};
                }
             } // local
 
@@ -194,10 +190,7 @@ namespace casual
 
                   value = reinterpret_cast< const char*>( buffer.handle().underlying());
 
-                  const auto count = std::strlen( value) + 1;
-                  const auto space = buffer.payload.data.size();
-
-                  if( count > space)
+                  if( ! common::algorithm::find( buffer.payload.data, std::byte{ '\0'}))
                   {
                      // We need to report this
                      return CASUAL_STRING_OUT_OF_BOUNDS;
-- 
2.43.0


From c2e1dc5b30b1e522832793dd5a7fed197b2c0dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:55 +0000
Subject: [PATCH 14/64] fix: xml sequences are read without dangling references

std::reverse_iterator over an iterator that returns a reference to it self is
undefined behaviour (stack-use-after-scope).
---
 middleware/common/source/serialize/xml.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/middleware/common/source/serialize/xml.cpp b/middleware/common/source/serialize/xml.cpp
index 8dd1f23..53df182 100644
--- a/middleware/common/source/serialize/xml.cpp
+++ b/middleware/common/source/serialize/xml.cpp
@@ -191,16 +191,20 @@ namespace casual
                         {
                            if( auto node = structured_node( name))
                            {
-                              // Stack 'em backwards
-                              auto content = node.children( "element");
-                              for( auto child : range::reverse( content))
+                              const platform::size::type offset = m_stack.size();
+
+                              for( auto child : node.children( "element"))
                               {
                                  // set attribute to help produce the canonical form.
                                  child.append_attribute( "sequence-value") = true;
                                  m_stack.push_back( std::move( child));
                               }
 
-                              return std::make_tuple( std::distance( std::begin( content), std::end( content)), true);
+                              // Stack 'em backwards. The iterators of pugi can't be reversed, they return
+                              // references to them self
+                              std::reverse( std::begin( m_stack) + offset, std::end( m_stack));
+
+                              return std::make_tuple( static_cast< platform::size::type>( m_stack.size()) - offset, true);
                            }
 
                            return std::make_tuple( 0, false);
-- 
2.43.0


From e660c70498f9675db378de6449713b83f3bbbdde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:25 +0000
Subject: [PATCH 15/64] fix: xml - floating point values keep their value

---
 middleware/common/source/serialize/xml.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/middleware/common/source/serialize/xml.cpp b/middleware/common/source/serialize/xml.cpp
index 53df182..54ecfb9 100644
--- a/middleware/common/source/serialize/xml.cpp
+++ b/middleware/common/source/serialize/xml.cpp
@@ -20,6 +20,10 @@
 
 #include <iterator>
 #include <algorithm>
+#include <concepts>
+#include <iomanip>
+#include <limits>
+#include <sstream>
 
 
 namespace casual
@@ -430,6 +434,15 @@ namespace casual
 
                         // A few overloads
 
+                        template< std::floating_point T>
+                        void write( T value)
+                        {
+                           // enough digits to get the very same value back
+                           std::ostringstream stream;
+                           stream << std::setprecision( std::numeric_limits< T>::max_digits10) << value;
+                           set( std::move( stream).str());
+                        }
+
                         void write( bool value)
                         {
                            std::ostringstream stream;
-- 
2.43.0


From 515522f2413ee8a3a8c896c8b5fc953f2ba46192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:26 +0000
Subject: [PATCH 16/64] fix: ini - floating point values keep their value

---
 middleware/common/source/serialize/ini.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/middleware/common/source/serialize/ini.cpp b/middleware/common/source/serialize/ini.cpp
index 403dab6..7315d17 100644
--- a/middleware/common/source/serialize/ini.cpp
+++ b/middleware/common/source/serialize/ini.cpp
@@ -19,6 +19,10 @@
 #include <sstream>
 #include <iterator>
 #include <algorithm>
+#include <concepts>
+#include <iomanip>
+#include <limits>
+#include <sstream>
 #include <locale>
 #include <string>
 
@@ -543,6 +547,15 @@ namespace casual
                         }
 
                         // A few overloads
+
+                        template< std::floating_point T>
+                        std::string encode( T value) const
+                        {
+                           // enough digits to get the very same value back
+                           std::ostringstream stream;
+                           stream << std::setprecision( std::numeric_limits< T>::max_digits10) << value;
+                           return std::move( stream).str();
+                        }
                         
                         std::string encode( bool value) const
                         {
-- 
2.43.0


From d3a4d6213361e37cf3542707caaaf36ce3b3471c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:26 +0000
Subject: [PATCH 17/64] fix: ini - refuse sections where values are expected
 and the other way around

---
 middleware/common/source/serialize/ini.cpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/middleware/common/source/serialize/ini.cpp b/middleware/common/source/serialize/ini.cpp
index 7315d17..321b5e3 100644
--- a/middleware/common/source/serialize/ini.cpp
+++ b/middleware/common/source/serialize/ini.cpp
@@ -273,6 +273,8 @@ namespace casual
                                     m_node_stack.push_back( &std::prev( iterator)->second);
                                  }
 
+                                 m_container_stack.push_back( Container::nodes);
+
                                  return std::make_tuple( std::distance( node.first, node.second), true);
                               }
 
@@ -284,6 +286,8 @@ namespace casual
                                  for( auto iterator = data.second; iterator != data.first; --iterator)
                                     m_data_stack.push_back( &std::prev( iterator)->second);
 
+                                 m_container_stack.push_back( Container::data);
+
                                  return std::make_tuple( std::distance( data.first, data.second), true);
                               }
 
@@ -300,10 +304,16 @@ namespace casual
 
                         }
 
-                        void container_end( const char* const name) {}
+                        void container_end( const char* const name)
+                        {
+                           m_container_stack.pop_back();
+                        }
 
                         bool composite_start( const char* const name)
                         {
+                           if( ! name && ! m_container_stack.empty() && m_container_stack.back() != Container::nodes)
+                              code::raise::error( code::casual::invalid_node, "unexpected type - expected sections");
+
                            if( name)
                            {
                               const auto node = m_node_stack.back()->children.find( name);
@@ -328,6 +338,9 @@ namespace casual
 
                         bool value_start( const char* name)
                         {
+                           if( ! name && ( m_container_stack.empty() || m_container_stack.back() != Container::data))
+                              code::raise::error( code::casual::invalid_node, "unexpected type - expected values");
+
                            if( name)
                            {
                               const auto data = m_node_stack.back()->values.find( name);
@@ -418,6 +431,10 @@ namespace casual
                         using data = std::string;
                         std::vector<const data*> m_data_stack;
                         std::vector<const tree*> m_node_stack;
+
+                        //! what the elements of the current containers are
+                        enum class Container : short { nodes, data};
+                        std::vector< Container> m_container_stack;
                      };
 
                   } // reader
-- 
2.43.0


From 3868e2d5e5d90a298a2c61055234b16a868e9571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:26 +0000
Subject: [PATCH 18/64] fix: json - floating point values keep their value

---
 middleware/common/source/serialize/json.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/middleware/common/source/serialize/json.cpp b/middleware/common/source/serialize/json.cpp
index 7da1ec9..ad8375a 100644
--- a/middleware/common/source/serialize/json.cpp
+++ b/middleware/common/source/serialize/json.cpp
@@ -80,7 +80,7 @@ namespace casual
                         if( ! json || json[ 0] == '\0')
                            document.Parse( "{}");
                         else
-                           document.Parse( json);
+                           document.Parse< rapidjson::kParseFullPrecisionFlag>( json);
                         
                         if( document.HasParseError())
                            code::raise::error( code::casual::invalid_document, rapidjson::GetParseError_En( document.GetParseError()));
-- 
2.43.0


From d4ac91947338f258e53604a362ee52d026ac9177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:26 +0000
Subject: [PATCH 19/64] fix: json - refuse a named value in something that is
 not an object

---
 middleware/common/source/serialize/json.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/middleware/common/source/serialize/json.cpp b/middleware/common/source/serialize/json.cpp
index ad8375a..9803182 100644
--- a/middleware/common/source/serialize/json.cpp
+++ b/middleware/common/source/serialize/json.cpp
@@ -278,6 +278,10 @@ namespace casual
 
                            auto node = m_stack.back();
 
+                           // This check is to avoid terminate (via assert)
+                           if( ! node->IsObject())
+                              code::raise::error( code::casual::invalid_node, "expected object - name: ", name);
+
                            if( auto found = node->FindMember( name); found != node->MemberEnd())
                               return &found->value;
 
-- 
2.43.0


From 7e3e3174bd94c115b102cac37ac512249505d217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:26 +0000
Subject: [PATCH 20/64] fix: yaml - control characters keep their value

---
 middleware/common/source/serialize/yaml.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/middleware/common/source/serialize/yaml.cpp b/middleware/common/source/serialize/yaml.cpp
index b354146..2175157 100644
--- a/middleware/common/source/serialize/yaml.cpp
+++ b/middleware/common/source/serialize/yaml.cpp
@@ -425,7 +425,7 @@ namespace casual
 
                      void write( char value)
                      {
-                        m_output << YAML::SingleQuoted << transcode::utf8::string::encode( std::string{ value});
+                        m_output << YAML::DoubleQuoted << transcode::utf8::string::encode( std::string{ value});
                      }
 
                      void write( std::string_view value)
-- 
2.43.0


From 66f3637b0b323e174600777a3f0e46f38346ede3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:26 +0000
Subject: [PATCH 21/64] fix: yaml - refuse binary data of the wrong size

---
 middleware/common/source/serialize/yaml.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/middleware/common/source/serialize/yaml.cpp b/middleware/common/source/serialize/yaml.cpp
index 2175157..726c827 100644
--- a/middleware/common/source/serialize/yaml.cpp
+++ b/middleware/common/source/serialize/yaml.cpp
@@ -309,6 +309,10 @@ namespace casual
                         YAML::Binary binary;
                         consume( node, binary);
                         auto span = binary::span::make( binary.data(), binary.size());
+
+                        if( range::size( span) != range::size( value))
+                           code::raise::error( code::casual::invalid_node, "binary size mismatch - wanted: ", range::size( value), " got: ", range::size( span));
+
                         algorithm::copy( span, value);
                      }
 
-- 
2.43.0


From 5f567069c541271b711c3db1a21293ad81ca38f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:06 +0000
Subject: [PATCH 22/64] fix: json - refuse a number that does not fit in a
 short

---
 middleware/common/source/serialize/json.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/middleware/common/source/serialize/json.cpp b/middleware/common/source/serialize/json.cpp
index 9803182..edf6add 100644
--- a/middleware/common/source/serialize/json.cpp
+++ b/middleware/common/source/serialize/json.cpp
@@ -24,6 +24,7 @@
 #include <rapidjson/prettywriter.h>
 
 #include <iterator>
+#include <limits>
 #include <istream>
 #include <functional>
 
@@ -308,7 +309,14 @@ namespace casual
                         static void read( const rapidjson::Value* node, bool& value)
                         { value = check::trivial( node, &rapidjson::Value::IsBool, &rapidjson::Value::GetBool); }
                         static void read( const rapidjson::Value* node, short& value)
-                        { value = check::trivial( node, &rapidjson::Value::IsInt, &rapidjson::Value::GetInt); }
+                        {
+                           const auto integer = check::trivial( node, &rapidjson::Value::IsInt, &rapidjson::Value::GetInt);
+
+                           if( integer < std::numeric_limits< short>::min() || integer > std::numeric_limits< short>::max())
+                              code::raise::error( code::casual::invalid_node, "value out of range: ", integer);
+
+                           value = integer;
+                        }
                         static void read( const rapidjson::Value* node, int& value)
                         { value = check::trivial( node, &rapidjson::Value::IsInt, &rapidjson::Value::GetInt); }
                         static void read( const rapidjson::Value* node, long& value)
-- 
2.43.0


From 9eb0566f4390bbcbb89c509a23c4eaa93e1629a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:06 +0000
Subject: [PATCH 23/64] fix: string::from - refuse text that is not entirely a
 number, or a number that does not fit

---
 middleware/common/include/common/string.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/middleware/common/include/common/string.h b/middleware/common/include/common/string.h
index 2c2fe52..28efaf2 100644
--- a/middleware/common/include/common/string.h
+++ b/middleware/common/include/common/string.h
@@ -134,7 +134,10 @@ namespace casual
          auto from( std::string_view value, R& result, traits::priority::tag< 1>) 
             -> decltype( void( std::from_chars( value.data(), value.data() + value.size(), result)))
          { 
-            if( std::from_chars( value.data(), value.data() + value.size(), result).ec == std::errc::invalid_argument)
+            const auto last = value.data() + value.size();
+
+            // everything has to be part of the value, and it has to fit
+            if( auto converted = std::from_chars( value.data(), last, result); converted.ec != std::errc{} || converted.ptr != last)
                code::raise::error( code::casual::invalid_argument, "failed to convert from string: ", value);
          }
 
-- 
2.43.0


From 5f5e92baeb788271e6c020a99ef7c38f7402dd9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:16 +0000
Subject: [PATCH 24/64] fix: service manager - removing the only pending
 deadline reads past the end of the deadlines

---
 middleware/service/source/manager/state.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/middleware/service/source/manager/state.cpp b/middleware/service/source/manager/state.cpp
index 8e2d2fa..49b4f07 100644
--- a/middleware/service/source/manager/state.cpp
+++ b/middleware/service/source/manager/state.cpp
@@ -212,7 +212,7 @@ namespace casual
                {
                   if( auto found = algorithm::find( m_entries, correlation))
                   {
-                     if( auto next = m_entries.erase( std::begin( found)); next == std::begin( m_entries))
+                     if( auto next = m_entries.erase( std::begin( found)); next == std::begin( m_entries) && next != std::end( m_entries))
                         return { next->when};
                   }
                   return {};
-- 
2.43.0


From e9121c8fe56115f8cf4ba5722eb813353de2d8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:16 +0000
Subject: [PATCH 25/64] fix: service manager - the deadline of a pending lookup
 has to set the timer

---
 middleware/service/source/manager/handle.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/middleware/service/source/manager/handle.cpp b/middleware/service/source/manager/handle.cpp
index e743331..59b7b7b 100644
--- a/middleware/service/source/manager/handle.cpp
+++ b/middleware/service/source/manager/handle.cpp
@@ -522,7 +522,8 @@ namespace casual
 
                               if( auto deadline = detail::calculate_deadline( state.services[ service_id], now, message.deadline))
                                  if( state.services[ service_id].has_sequential())
-                                    state.pending.deadline.add( { .when = *deadline, .correlation = message.correlation});
+                                    if( auto next = state.pending.deadline.add( { .when = *deadline, .correlation = message.correlation}))
+                                       signal::timer::set( *next - now);
 
                               state.pending.lookups.emplace_back( std::move( message), now);
 
-- 
2.43.0


From 47e1ca9dc1b24287604b7e81583a1ff4d502eb5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:16 +0000
Subject: [PATCH 26/64] fix: service manager - a timeout without transaction
 must not rollback the transaction of a later call

---
 middleware/service/source/manager/handle.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/middleware/service/source/manager/handle.cpp b/middleware/service/source/manager/handle.cpp
index 59b7b7b..0fb6755 100644
--- a/middleware/service/source/manager/handle.cpp
+++ b/middleware/service/source/manager/handle.cpp
@@ -985,13 +985,14 @@ namespace casual
                {
                   log::line( verbose::log, "state.timeout_instances: ", state.timeout_instances);
 
-                  if( ! ack.metric.trid)
-                     return;
-                  
                   if( auto found = algorithm::find( state.timeout_instances, ack.metric.process.pid))
                   {
+                     // the instance is done with the call that got the timeout, with or without a transaction.
                      state.timeout_instances.erase( std::begin( found));
 
+                     if( ! ack.metric.trid)
+                        return;
+
                      // Rollback the transaction (again). If TM got instances involved a rollback will be executed, 
                      // otherwise it will be a "no-op".
                      // TODO: we might want to have a dedicated message for this. SM should not order a rollback?
-- 
2.43.0


From ce88bb869d774a4012532ebbe966ec5919331339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:16 +0000
Subject: [PATCH 27/64] fix: service manager - prepare shutdown of an instance
 with a call that has timed out is never replied

---
 middleware/service/include/service/manager/state.h | 4 ++++
 middleware/service/source/manager/handle.cpp       | 4 ++--
 middleware/service/source/manager/state.cpp        | 3 +++
 3 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/middleware/service/include/service/manager/state.h b/middleware/service/include/service/manager/state.h
index 26e3818..24eeb44 100644
--- a/middleware/service/include/service/manager/state.h
+++ b/middleware/service/include/service/manager/state.h
@@ -147,6 +147,9 @@ namespace casual
                void add( service::id::type service);
                void remove( service::id::type service);
 
+               //! correlation of the current reservation, also when the caller is consumed
+               inline const auto& correlation() const noexcept { return m_correlation;}
+
                //! @returns and consumes associated caller to the correlation. 'empty' caller if not found.
                inline instance::Caller consume( const common::strong::correlation::id& correlation)
                {
@@ -173,6 +176,7 @@ namespace casual
             private:
                service::id::type m_reserved_service{};
                instance::Caller m_caller;
+               common::strong::correlation::id m_correlation;
                // all associated services
                std::vector< service::id::type> m_services;
             };
diff --git a/middleware/service/source/manager/handle.cpp b/middleware/service/source/manager/handle.cpp
index 0fb6755..62684e6 100644
--- a/middleware/service/source/manager/handle.cpp
+++ b/middleware/service/source/manager/handle.cpp
@@ -816,8 +816,8 @@ namespace casual
 
                            auto pending = algorithm::accumulate( busy, state.pending.shutdown.empty_pendings(), [ &state]( auto result, auto id)
                            {
-                              auto& caller = state.instances.sequential[ id].caller();
-                              result.emplace_back( caller.correlation, state.instances.sequential[ id].process.pid);
+                              auto& instance = state.instances.sequential[ id];
+                              result.emplace_back( instance.correlation(), instance.process.pid);
                               return result;
                            });
 
diff --git a/middleware/service/source/manager/state.cpp b/middleware/service/source/manager/state.cpp
index 49b4f07..7efb596 100644
--- a/middleware/service/source/manager/state.cpp
+++ b/middleware/service/source/manager/state.cpp
@@ -57,11 +57,13 @@ namespace casual
                m_reserved_service = service;
                m_caller.process = caller;
                m_caller.correlation = correlation;
+               m_correlation = correlation;
             }
 
             service::id::type Sequential::unreserve()
             {
                m_caller = {};
+               m_correlation = {};
                return std::exchange( m_reserved_service, {});
             }
 
@@ -69,6 +71,7 @@ namespace casual
             {
                m_reserved_service = {};
                m_caller = {};
+               m_correlation = {};
             }
 
             sequential::State Sequential::state() const
-- 
2.43.0


From 11ec7005a6f25a7a5e70e3939cae7c58e8e1cd0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:17 +0000
Subject: [PATCH 28/64] fix: service manager - an instance that is about to
 shut down can not become enabled by an advertise

---
 middleware/service/source/manager/handle.cpp | 6 +++---
 middleware/service/source/manager/state.cpp  | 6 ++----
 2 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/middleware/service/source/manager/handle.cpp b/middleware/service/source/manager/handle.cpp
index 62684e6..76b5fcb 100644
--- a/middleware/service/source/manager/handle.cpp
+++ b/middleware/service/source/manager/handle.cpp
@@ -797,6 +797,9 @@ namespace casual
                         log::line( verbose::log, "busy: ", busy);
                         log::line( verbose::log, "idle: ", idle);
                         log::line( verbose::log, "unknown: ", shutdown.unknown);
+
+                        // we add all instances to disabled to prevent them for doing stuff other than exit
+                        algorithm::container::append( shutdown.instances, state.disabled);
                         
                         if( idle || ! shutdown.unknown.empty())
                         {
@@ -821,9 +824,6 @@ namespace casual
                               return result;
                            });
 
-                           // we add busy instances to disabled to prevent them for doing stuff other than exit
-                           algorithm::container::append( busy, state.disabled);
-
                            auto callback = [ 
                               &state,
                               message = common::message::reverse::type( message),
diff --git a/middleware/service/source/manager/state.cpp b/middleware/service/source/manager/state.cpp
index 7efb596..4b381e0 100644
--- a/middleware/service/source/manager/state.cpp
+++ b/middleware/service/source/manager/state.cpp
@@ -688,11 +688,9 @@ namespace casual
          instances.sequential[ instance_id].alias = std::move( message.alias);
 
          // instance might be in "shutdown" mode..
-         if( auto found = algorithm::find( disabled, instance_id))
-         {
-            algorithm::container::erase( disabled, std::begin( found));
+         // it stays there until it's gone, since there might be a pending prepare shutdown.
+         if( algorithm::find( disabled, instance_id))
             return {};
-         }
 
          // add
          {
-- 
2.43.0


From e305baf435615f29755ac420c50e6999c0622ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:17 +0000
Subject: [PATCH 29/64] fix: service manager - do not reserve an instance that
 is about to be killed

---
 middleware/service/source/manager/state.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/middleware/service/source/manager/state.cpp b/middleware/service/source/manager/state.cpp
index 4b381e0..c9210b3 100644
--- a/middleware/service/source/manager/state.cpp
+++ b/middleware/service/source/manager/state.cpp
@@ -598,7 +598,7 @@ namespace casual
 
          auto is_idle = [ &]( auto instance_id)
          {
-            return instances.sequential[ instance_id].idle();
+            return instances.sequential[ instance_id].idle() && ! algorithm::contains( disabled, instance_id);
          };
 
          auto& service = services[ service_id];
-- 
2.43.0


From bccdbb67d296b2db0e4d49874c97236ba210afec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:53 +0000
Subject: [PATCH 30/64] fix: service manager - an advertise from a busy
 instance must not move the first pending lookup to the end

---
 middleware/service/source/manager/state.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/middleware/service/source/manager/state.cpp b/middleware/service/source/manager/state.cpp
index c9210b3..c00498d 100644
--- a/middleware/service/source/manager/state.cpp
+++ b/middleware/service/source/manager/state.cpp
@@ -720,8 +720,10 @@ namespace casual
                return false;
             };
  
-            if( auto found = algorithm::find_if( pending.lookups, requested_service))
-               return { algorithm::container::extract( pending.lookups, std::begin( found))};
+            // a busy instance takes care of pending when it's done, pending has to keep their order.
+            if( instances.sequential[ instance_id].idle())
+               if( auto found = algorithm::find_if( pending.lookups, requested_service))
+                  return { algorithm::container::extract( pending.lookups, std::begin( found))};
          }
 
          return {};
-- 
2.43.0


From 4362fc860c0c0677b20c0be2b1d142377c17ea0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:53 +0000
Subject: [PATCH 31/64] fix: service manager - a discarded reservation (or one
 with a gone caller) has to be given to the next pending

---
 middleware/service/source/manager/handle.cpp | 111 ++++++++++++++-----
 1 file changed, 82 insertions(+), 29 deletions(-)

diff --git a/middleware/service/source/manager/handle.cpp b/middleware/service/source/manager/handle.cpp
index 76b5fcb..6f05fe4 100644
--- a/middleware/service/source/manager/handle.cpp
+++ b/middleware/service/source/manager/handle.cpp
@@ -231,6 +231,14 @@ namespace casual
             {
                // defined after lookup, below
                void pending( State& state, std::vector< state::service::pending::Lookup>&& pending);
+
+               //! The instance has become idle, use it for the first pending it can serve, if any.
+               //! defined after lookup, below
+               void idle( State& state, state::instance::sequential::id::type instance_id);
+
+               //! Discards the reservation correlated to `correlation`.
+               //! defined after lookup, below
+               void discard( State& state, state::instance::sequential::id::type instance_id);
                   
             } // service::detail::handle
 
@@ -484,10 +492,17 @@ namespace casual
                         }
 
                         // send reply, if caller gone, we discard the reservation.
-                        state.multiplex.send( message.process.ipc, reply, [ &state]( auto& destination, auto& complete)
+                        state.multiplex.send( message.process.ipc, reply, [ &state, instance_id, correlation = message.correlation]( auto& destination, auto& complete)
                         {
-                           if( auto instance_id = state.instances.sequential.lookup( destination))
-                              state.instances.sequential[ instance_id].discard();
+                           if constexpr( ! is_concurrent)
+                           {
+                              if( ! state.instances.sequential.contains( instance_id))
+                                 return;
+
+                              // could be reserved by someone else by now
+                              if( auto& instance = state.instances.sequential[ instance_id]; ! instance.idle() && instance.correlation() == correlation)
+                                 detail::handle::discard( state, instance_id);
+                           }
                         });
                      }
 
@@ -675,6 +690,9 @@ namespace casual
 
                            state.pending.lookups.erase( std::begin( found));
                            reply.state = decltype( reply.state)::discarded;
+
+                           if( auto deadline = state.pending.deadline.remove( message.correlation))
+                              signal::timer::set( *deadline);
                         }
                         else 
                         {
@@ -682,15 +700,20 @@ namespace casual
 
                            // we need to go through all sequential instances.
 
-                           state.instances.sequential.for_each( [ correlation = message.correlation ]( auto id, auto& ipc, auto& instance)
+                           state::instance::sequential::id::type reserved;
+
+                           state.instances.sequential.for_each( [ &reserved, correlation = message.correlation ]( auto id, auto& ipc, auto& instance)
                            {
                               if( ! instance.idle() && instance.caller().correlation == correlation)
                               {
                                  log::line( verbose::log, "found reserved instance: ", instance);
-                                 instance.discard();
+                                 reserved = id;
                               }
                            });
 
+                           if( reserved)
+                              detail::handle::discard( state, reserved);
+
                            // regardless, we assume we've already replied.
                            reply.state = decltype( reply.state)::replied;
                         }
@@ -726,6 +749,59 @@ namespace casual
                         
                         algorithm::for_each( pending, lookup);
                      }
+
+                     void idle( State& state, state::instance::sequential::id::type instance_id)
+                     {
+                        Trace trace{ "service::manager::handle::local::service::detail::handle::idle"};
+
+                        auto& instance = state.instances.sequential[ instance_id];
+                        log::line( verbose::log, "instance: ", instance);
+
+                        // Check if there are pending request for services that this
+                        // instance has.
+
+                        auto has_pending = [ &state, &instance]( const auto& pending)
+                        {
+                           return instance.service( state.services.lookup( pending.request.requested));
+                        };
+
+                        if( auto found = common::algorithm::find_if( state.pending.lookups, has_pending))
+                        {
+                           log::line( verbose::log, "found pending: ", *found);
+
+                           auto pending = algorithm::container::extract( state.pending.lookups, std::begin( found));
+
+                           // We now know that there are one idle server that has advertised the
+                           // requested service (we've just marked it as idle...).
+                           // We can use the normal request to get the response
+                           service::detail::lookup( state, pending.request, platform::time::clock::type::now() - pending.when);
+                        }
+                     }
+
+                     void discard( State& state, state::instance::sequential::id::type instance_id)
+                     {
+                        Trace trace{ "service::manager::handle::local::service::detail::handle::discard"};
+
+                        auto& instance = state.instances.sequential[ instance_id];
+                        const auto correlation = instance.correlation();
+                        instance.discard();
+
+                        // there will be no call
+                        if( auto deadline = state.pending.deadline.remove( correlation))
+                           signal::timer::set( *deadline);
+
+                        if( algorithm::contains( state.disabled, instance_id))
+                        {
+                           // there will be no ACK either, a possible prepare shutdown has nothing more to wait for
+                           common::message::service::call::ACK message;
+                           message.correlation = correlation;
+                           message.metric.process = instance.process;
+                           state.pending.shutdown( message);
+                           return;
+                        }
+
+                        idle( state, instance_id);
+                     }
                   } // handle
 
                   
@@ -1047,30 +1123,7 @@ namespace casual
                      return;
                   }
 
-                  auto& instance = state.instances.sequential[ instance_id];
-
-                  log::line( verbose::log, "instance: ", instance);
-
-                  // Check if there are pending request for services that this
-                  // instance has.
-
-                  auto has_pending = [ &state, instance]( const auto& pending)
-                  {
-                     return instance.service( state.services.lookup( pending.request.requested));
-                  };
-
-                  if( auto found = common::algorithm::find_if( state.pending.lookups, has_pending))
-                  {
-                     log::line( verbose::log, "found pending: ", *found);
-
-                     auto pending = algorithm::container::extract( state.pending.lookups, std::begin( found));
-
-                     // We now know that there are one idle server that has advertised the
-                     // requested service (we've just marked it as idle...).
-                     // We can use the normal request to get the response
-                     service::detail::lookup( state, pending.request, platform::time::clock::type::now() - pending.when);
-                  }
- 
+                  service::detail::handle::idle( state, instance_id);
                };
             }
 
-- 
2.43.0


From 04ba93e43a5fff1e5e9a377b3c5375cd116d4f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:21 +0000
Subject: [PATCH 32/64] fix: service manager - pending lookups are stuck when
 the last local instance unadvertise the service

---
 middleware/service/source/manager/state.cpp | 31 +++++++++++++++++++--
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/middleware/service/source/manager/state.cpp b/middleware/service/source/manager/state.cpp
index c00498d..ad03301 100644
--- a/middleware/service/source/manager/state.cpp
+++ b/middleware/service/source/manager/state.cpp
@@ -674,11 +674,34 @@ namespace casual
          }
 
 
+         // pending for services without local instances, because of `message`. These have to be looked up again.
+         auto extract_orphaned = [ this]( auto service_ids)
+         {
+            algorithm::container::erase_if( service_ids, [ this]( auto id){ return services[ id].has_sequential();});
+
+            auto orphaned = algorithm::stable::filter( pending.lookups, [ &]( auto& pending)
+            {
+               auto service_id = services.lookup( pending.request.requested);
+               return service_id && algorithm::contains( service_ids, service_id);
+            });
+
+            return algorithm::container::extract( pending.lookups, orphaned);
+         };
+
+         auto instance_services = [ this, ipc = message.process.ipc]() -> std::vector< state::service::id::type>
+         {
+            if( auto id = instances.sequential.lookup( ipc))
+               return instances.sequential[ id].services();
+            return {};
+         };
+
+         const auto origin_services = instance_services();
+
          if( message.clear())
          {
             // we just remove the process all together.
             std::ignore = remove( message.process.pid);
-            return {}; 
+            return extract_orphaned( origin_services);
          }
          
          // honour possible restriction for the alias
@@ -711,6 +734,8 @@ namespace casual
          // remove
          local::remove_services( *this, instance_id, message.services.remove);
 
+         auto result = extract_orphaned( origin_services);
+
          // now we need to check if there are pending request that this instance has enabled
          {
             auto requested_service = [ &, instance_id]( auto& pending)
@@ -723,10 +748,10 @@ namespace casual
             // a busy instance takes care of pending when it's done, pending has to keep their order.
             if( instances.sequential[ instance_id].idle())
                if( auto found = algorithm::find_if( pending.lookups, requested_service))
-                  return { algorithm::container::extract( pending.lookups, std::begin( found))};
+                  result.push_back( algorithm::container::extract( pending.lookups, std::begin( found)));
          }
 
-         return {};
+         return result;
       }
 
 
-- 
2.43.0


From cc8e32e40f5860302fb9a3e465cad4c4d2b31f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:21 +0000
Subject: [PATCH 33/64] fix: service manager - changed order and hops of a
 remote instance has to be used

---
 .../service/include/service/manager/state.h   |  3 ++-
 middleware/service/source/manager/state.cpp   | 27 ++++++++++++-------
 2 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/middleware/service/include/service/manager/state.h b/middleware/service/include/service/manager/state.h
index 24eeb44..0012cba 100644
--- a/middleware/service/include/service/manager/state.h
+++ b/middleware/service/include/service/manager/state.h
@@ -317,7 +317,8 @@ namespace casual
                //!   Otherwise, the first instance, and rotate.
                instance::concurrent::id::type next_concurrent( std::span< instance::concurrent::id::type> preferred) noexcept;
 
-               void update_prioritized();
+               //! updates the order of the concurrent instance `id`, if present
+               void update( instance::concurrent::id::type id, platform::size::type order);
 
                inline const auto& sequential() const noexcept { return m_sequential;}
                inline const auto& concurrent() const noexcept { return m_concurrent;}
diff --git a/middleware/service/source/manager/state.cpp b/middleware/service/source/manager/state.cpp
index ad03301..723946d 100644
--- a/middleware/service/source/manager/state.cpp
+++ b/middleware/service/source/manager/state.cpp
@@ -116,16 +116,20 @@ namespace casual
 
             void Instances::add( state::instance::concurrent::id::type instance, platform::size::type order, instance::concurrent::Property property)
             {
-               if( algorithm::find( m_concurrent, instance))
+               if( auto found = algorithm::find( m_concurrent, instance))
                {
+                  // might have other properties than last time.
                   log::line( casual::service::log, "instance already known to service - ", instance);
-                  return;
+                  found->order = order;
+                  found->hops = property.hops;
+               }
+               else
+               {
+                  m_concurrent.push_back( instances::Concurrent{ 
+                     .id = instance,
+                     .order = order,
+                     .hops = property.hops});
                }
-
-               m_concurrent.push_back( instances::Concurrent{ 
-                  .id = instance,
-                  .order = order,
-                  .hops = property.hops});
 
                algorithm::sort( m_concurrent);
 
@@ -158,8 +162,13 @@ namespace casual
                return algorithm::random::next( m_prioritized_concurrent)->id;
             }
 
-            void Instances::update_prioritized()
+            void Instances::update( instance::concurrent::id::type id, platform::size::type order)
             {
+               auto found = algorithm::find( m_concurrent, id);
+               if( ! found)
+                  return;
+
+               found->order = order;
                algorithm::stable_sort( m_concurrent);
                prioritize();
             }
@@ -788,7 +797,7 @@ namespace casual
 
             // We need to go through all services and update order/prio
             for( auto service_id : services.indexes())
-               services[ service_id].instances.update_prioritized();
+               services[ service_id].instances.update( id, message.order);
 
             // nothing added, no new services available.
             return {};
-- 
2.43.0


From 0cf16a39616eb98b221f184f94768632835fac3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:21 +0000
Subject: [PATCH 34/64] fix: service manager - a removed remote instance is
 still associated with transactions

---
 middleware/service/source/manager/state.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/middleware/service/source/manager/state.cpp b/middleware/service/source/manager/state.cpp
index 723946d..6e6e8c5 100644
--- a/middleware/service/source/manager/state.cpp
+++ b/middleware/service/source/manager/state.cpp
@@ -557,7 +557,13 @@ namespace casual
                   clean_instances_from_services( concurrent, state.services);
                   
                   for( auto id : concurrent)
-                      state.instances.concurrent.erase( id);
+                  {
+                     state.instances.concurrent.erase( id);
+
+                     // the id might be reused
+                     for( auto& association : state.transaction.associations)
+                        std::erase( association.second, id);
+                  }
                }
                {
                   auto sequential = find_indexes( state.instances.sequential, process);
-- 
2.43.0


From b82d4c6693d775600b1d9483146ee21627595b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:31 +0000
Subject: [PATCH 35/64] fix: service manager - pending lookups are stuck when
 the last local instance is shut down, and there are remote

---
 middleware/service/source/manager/state.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/middleware/service/source/manager/state.cpp b/middleware/service/source/manager/state.cpp
index 6e6e8c5..96a074a 100644
--- a/middleware/service/source/manager/state.cpp
+++ b/middleware/service/source/manager/state.cpp
@@ -659,9 +659,13 @@ namespace casual
             {
                // take care of services
                for( auto service_id : instances.sequential[ instance_id].services())
-                  if( services[ service_id].instances.remove( instance_id))
-                     // This was the last instance for the service, we get the name(s) of the service for lookup-rejects
+               {
+                  services[ service_id].instances.remove( instance_id);
+
+                  // This was the last local instance for the service, we get the name(s) of the service for lookup-rejects
+                  if( ! services[ service_id].has_sequential())
                      algorithm::container::append( services.names( service_id), result.services);
+               }
 
                result.instances.push_back( instance_id);
             }
-- 
2.43.0


From 3a57829998732b113a6f92b8ff2468af6be729bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:59 +0000
Subject: [PATCH 36/64] fix: service forward - a call without reply to a
 service with routes is lost if all instances are busy

---
 middleware/service/source/forward/handle.cpp | 3 ++-
 middleware/service/source/manager/handle.cpp | 3 +++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/middleware/service/source/forward/handle.cpp b/middleware/service/source/forward/handle.cpp
index 5cd0c94..d2233db 100644
--- a/middleware/service/source/forward/handle.cpp
+++ b/middleware/service/source/forward/handle.cpp
@@ -106,7 +106,8 @@ namespace casual
                         // lookup service
                         {
                            message::service::lookup::Request request{ process::handle()};
-                           request.requested = message.service.name;
+                           // the origin name might not be exposed, if the service has routes
+                           request.requested = message.service.logical_name();
                            request.correlation = message.correlation;
                            // semantic explicitly as a lookup from service-forward
                            request.context.semantic = decltype( request.context.semantic)::forward_request;
diff --git a/middleware/service/source/manager/handle.cpp b/middleware/service/source/manager/handle.cpp
index 6f05fe4..a03b8f6 100644
--- a/middleware/service/source/manager/handle.cpp
+++ b/middleware/service/source/manager/handle.cpp
@@ -511,6 +511,9 @@ namespace casual
                         auto reply = common::message::reverse::type( message);
                         reply.service = state.services[ service_id].information;
 
+                        if( reply.service.name != message.requested)
+                           reply.service.requested = message.requested;
+
                         switch( message.context.semantic)
                         {
                            using Semantic = decltype( message.context.semantic);
-- 
2.43.0


From 18b73489853e288a22fb420515636aa2299855aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:25 +0000
Subject: [PATCH 37/64] fix: service manager - a reservation that has timed out
 is not released when the caller discards it

---
 middleware/service/source/manager/handle.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/middleware/service/source/manager/handle.cpp b/middleware/service/source/manager/handle.cpp
index a03b8f6..43467f6 100644
--- a/middleware/service/source/manager/handle.cpp
+++ b/middleware/service/source/manager/handle.cpp
@@ -707,7 +707,8 @@ namespace casual
 
                            state.instances.sequential.for_each( [ &reserved, correlation = message.correlation ]( auto id, auto& ipc, auto& instance)
                            {
-                              if( ! instance.idle() && instance.caller().correlation == correlation)
+                              // regardless if the caller is consumed (timeout), if the caller discards there will be no call.
+                              if( ! instance.idle() && instance.correlation() == correlation)
                               {
                                  log::line( verbose::log, "found reserved instance: ", instance);
                                  reserved = id;
@@ -788,6 +789,7 @@ namespace casual
                         auto& instance = state.instances.sequential[ instance_id];
                         const auto correlation = instance.correlation();
                         instance.discard();
+                        algorithm::container::erase( state.timeout_instances, instance.process.pid);
 
                         // there will be no call
                         if( auto deadline = state.pending.deadline.remove( correlation))
-- 
2.43.0


From e23e56177c77fb93e4615fe56968f68066622daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:54 +0000
Subject: [PATCH 38/64] fix: tx_info shows the transaction state of a reply as
 another state

---
 middleware/common/source/transaction/context.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/middleware/common/source/transaction/context.cpp b/middleware/common/source/transaction/context.cpp
index ddc0a6e..348bfa1 100644
--- a/middleware/common/source/transaction/context.cpp
+++ b/middleware/common/source/transaction/context.cpp
@@ -510,7 +510,20 @@ namespace casual
 
             if( auto found = algorithm::find( m_transactions, reply.correlation))
             {
-               auto state = Transaction::State( reply.transaction_state);
+               auto transform_state = []( auto state)
+               {
+                  using Enum = decltype( state);
+                  switch( state)
+                  {
+                     case Enum::ok: return Transaction::State::active;
+                     case Enum::timeout: return Transaction::State::timeout;
+                     case Enum::rollback:
+                     case Enum::error: return Transaction::State::rollback;
+                  }
+                  return Transaction::State::rollback;
+               };
+
+               const auto state = transform_state( reply.transaction_state);
 
                if( found->state < state)
                   found->state = state;
-- 
2.43.0


From a608f0e27ed8bf8e9152ffffe692304478c209b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:54 +0000
Subject: [PATCH 39/64] fix: a service's own transaction is committed when
 calls in it are pending

---
 middleware/common/source/transaction/context.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/middleware/common/source/transaction/context.cpp b/middleware/common/source/transaction/context.cpp
index 348bfa1..493d1a2 100644
--- a/middleware/common/source/transaction/context.cpp
+++ b/middleware/common/source/transaction/context.cpp
@@ -562,6 +562,7 @@ namespace casual
                      log::line( log::category::error, "pending replies associated with transaction - action: discard pending and set transaction state to rollback only");
                      log::line( log::category::transaction, transaction);
 
+                     transaction.state = Transaction::State::rollback;
                      result = message::service::transaction::State::error;
                   }
 
-- 
2.43.0


From 92a5d14934cbc63ba6fd3e13eed75874df232b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:54 +0000
Subject: [PATCH 40/64] fix: dynamically registered resources are told to
 resume when a stacked transaction is done

---
 middleware/common/source/transaction/context.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/middleware/common/source/transaction/context.cpp b/middleware/common/source/transaction/context.cpp
index 493d1a2..0a7034e 100644
--- a/middleware/common/source/transaction/context.cpp
+++ b/middleware/common/source/transaction/context.cpp
@@ -1180,7 +1180,7 @@ namespace casual
                case Control::stacked:
                   // Tell the RM:s to resume, if we've got a transaction
                   if( auto& current = Context::current())
-                     return code + local::resources::start::invoke( local::resources::start::policy::resume(), current, m_resources.all);
+                     return code + local::resources::start::invoke( local::resources::start::policy::resume(), current, m_resources.fixed);
                   return code;
             }
 
-- 
2.43.0


From 613a15cd7362b4dec9195204c43318da5891d261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:54 +0000
Subject: [PATCH 41/64] fix: a dynamic resource that resumes is not told which
 transaction branch

---
 middleware/common/source/transaction/context.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/middleware/common/source/transaction/context.cpp b/middleware/common/source/transaction/context.cpp
index 0a7034e..4e50368 100644
--- a/middleware/common/source/transaction/context.cpp
+++ b/middleware/common/source/transaction/context.cpp
@@ -664,15 +664,15 @@ namespace casual
             
             auto& transaction = current();
 
+            // Let the resource know the xid (if any)
+            *xid = transaction.trid.xid;
+
             // XA-spec - RM can't reg when it's already regged... Why?
             // We'll interpret this as the transaction has been suspended, and
             // then resumed.
             if( ! transaction.associate_dynamic( rmid))
                code::raise::error( code::ax::resume, "resource id: ", rmid);
 
-            // Let the resource know the xid (if any)
-            *xid = transaction.trid.xid;
-
             if( transaction)
             {
                // if the rm is already involved vi use join directly
-- 
2.43.0


From 3308cca3e60be4d6f4e972f3070215f54846b501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:06 +0000
Subject: [PATCH 42/64] fix: a transaction is never rolled back when a resource
 fails to end it

---
 .../include/common/transaction/context.h      |  3 +++
 .../common/source/transaction/context.cpp     | 21 ++++++++++++++++---
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/middleware/common/include/common/transaction/context.h b/middleware/common/include/common/transaction/context.h
index 71243e2..c434db3 100644
--- a/middleware/common/include/common/transaction/context.h
+++ b/middleware/common/include/common/transaction/context.h
@@ -159,6 +159,9 @@ namespace casual
          [[nodiscard]] code::tx commit( const Transaction& transaction);
          [[nodiscard]] code::tx rollback( const Transaction& transaction);
 
+         //! rollback, when the resources are ended
+         [[nodiscard]] code::tx resources_rollback( const Transaction& transaction);
+
 
          [[nodiscard]] code::tx resource_commit( strong::resource::id rm, const Transaction& transaction, flag::xa::Flag flags);
          [[nodiscard]] code::tx resource_rollback( strong::resource::id rm, const Transaction& transaction);
diff --git a/middleware/common/source/transaction/context.cpp b/middleware/common/source/transaction/context.cpp
index 4e50368..7bc5c49 100644
--- a/middleware/common/source/transaction/context.cpp
+++ b/middleware/common/source/transaction/context.cpp
@@ -841,7 +841,15 @@ namespace casual
 
             // end resources
             if( auto code = local::resources::end::invoke( local::resources::end::policy::success(), transaction, m_resources.all); code != code::tx::ok)
-               return local::log::code( code, "commit - failed to end one or more resources");
+            {
+               // the work can't be committed
+               log::line( log::category::error, code, " commit - failed to end one or more resources - action: rollback transaction: ", transaction.trid);
+
+               if( auto code = resources_rollback( transaction); code != code::tx::ok)
+                  return code;
+
+               return local::log::code( code::tx::rollback, "commit - transaction is rolled back: ", transaction.trid);
+            }
 
             if( transaction.local() && transaction.involved().size() <= 1)
             {
@@ -933,9 +941,16 @@ namespace casual
             Trace trace{ "transaction::Context::rollback"};
             casual::assertion( transaction, "not a valid transaction: ", transaction);
 
-            // end resources
+            // end resources. If this fails we still need to rollback
             if( auto code = local::resources::end::invoke( local::resources::end::policy::success(), transaction, m_resources.all); code != code::tx::ok)
-               return local::log::code( code, "rollback - failed to end one or more resources for transaction: ", transaction.trid);
+               log::line( log::category::error, code, " rollback - failed to end one or more resources for transaction: ", transaction.trid);
+
+            return resources_rollback( transaction);
+         }
+
+         code::tx Context::resources_rollback( const Transaction& transaction)
+         {
+            Trace trace{ "transaction::Context::resources_rollback"};
 
             if( transaction.local())
             {
-- 
2.43.0


From 6f6f1c485ea8e87c1607566217e931d180a0db1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:06 +0000
Subject: [PATCH 43/64] fix: a transaction that can't begin leaves branches in
 the resources that did start, and the stacked transaction suspended

---
 middleware/common/source/transaction/context.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/middleware/common/source/transaction/context.cpp b/middleware/common/source/transaction/context.cpp
index 7bc5c49..e8cc1ad 100644
--- a/middleware/common/source/transaction/context.cpp
+++ b/middleware/common/source/transaction/context.cpp
@@ -723,7 +723,11 @@ namespace casual
 
                   // Tell the RM:s to suspend
                   if( auto code = local::resources::end::invoke( local::resources::end::policy::suspend(), transaction, m_resources.all); code != code::tx::ok)
+                  {
+                     // there are resources that we can't continue with
+                     transaction.state = Transaction::State::rollback;
                      return local::log::code( code, "failed to suspend resources for transaction: ", transaction);
+                  }
                }
                else if( ! transaction.dynamic().empty())
                   return code::tx::outside;
@@ -750,8 +754,14 @@ namespace casual
                      // to mark this extremely short lived transaction with 'error'. Don't know
                      // how resources "wants it"...
                      resource.end( transaction.trid, flag::xa::Flag::success);
+                     resource.rollback( transaction.trid, flag::xa::Flag::no_flags);
                   });
 
+                  // ...and continue with the transaction we suspended (if any)
+                  if( auto& current = Context::current())
+                     if( local::resources::start::invoke( local::resources::start::policy::resume(), current, m_resources.fixed) != code::tx::ok)
+                        current.state = Transaction::State::rollback;
+
                   return local::log::code( code::tx::error, "some resources failed to start: ", algorithm::transform( failed, []( auto& rm){ return rm.id();}));
                }
             }            
-- 
2.43.0


From ecf266b314a94f345d6352bde8fc05c077ce210e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:06 +0000
Subject: [PATCH 44/64] fix: tx_commit and tx_rollback don't tell that a
 chained transaction could not begin

---
 middleware/common/source/transaction/context.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/middleware/common/source/transaction/context.cpp b/middleware/common/source/transaction/context.cpp
index e8cc1ad..c0c9dc3 100644
--- a/middleware/common/source/transaction/context.cpp
+++ b/middleware/common/source/transaction/context.cpp
@@ -1200,7 +1200,13 @@ namespace casual
                   
                case Control::chained:
                   // We start a new one
-                  return code + begin();
+                  if( begin() == code::tx::ok)
+                     return code;
+
+                  if( algorithm::compare::any( code, code::tx::ok, code::tx::committed, code::tx::rollback, code::tx::mixed, code::tx::hazard))
+                     return code + code::tx::no_begin;
+
+                  return code;
 
                case Control::stacked:
                   // Tell the RM:s to resume, if we've got a transaction
-- 
2.43.0


From 743354a9026ae8328dc7e0c13e8f6985e8b8f7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:06 +0000
Subject: [PATCH 45/64] fix: a transaction that can't be suspended or resumed
 is lost

---
 .../common/source/transaction/context.cpp     | 20 +++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/middleware/common/source/transaction/context.cpp b/middleware/common/source/transaction/context.cpp
index c0c9dc3..3f9cf61 100644
--- a/middleware/common/source/transaction/context.cpp
+++ b/middleware/common/source/transaction/context.cpp
@@ -1097,12 +1097,16 @@ namespace casual
 
             // We don't check if current transaction is aborted. This differs from Tuxedo's semantics
 
-            // mark the transaction as suspended
-            ongoing.suspend();
-
             // Tell the RM:s to suspend
             if( auto code = local::resources::end::invoke( local::resources::end::policy::suspend(), ongoing, m_resources.all); code != code::tx::ok)
+            {
+               // there are resources that we can't continue with
+               ongoing.state = Transaction::State::rollback;
                return local::log::code( code::tx::protocol, "suspend: failed to suspend one or more resources");
+            }
+
+            // mark the transaction as suspended
+            ongoing.suspend();
 
             *xid = ongoing.trid.xid;
 
@@ -1123,11 +1127,15 @@ namespace casual
                if( ! found->suspended())
                   return local::log::code( code::tx::protocol, "resume: wanted transaction is not suspended");
 
-               found->resume();
-
                // Tell the RM:s to resume
                if( auto code = local::resources::start::invoke( local::resources::start::policy::resume(), *found, m_resources.fixed); code != code::tx::ok)
-                  return local::log::code( code::tx::argument, "resume: failed to resume one or more fixed resources");
+               {
+                  // there are resources that we can't continue with
+                  found->state = Transaction::State::rollback;
+                  log::line( log::category::error, code, " resume: failed to resume one or more fixed resources - transaction: ", found->trid);
+               }
+
+               found->resume();
 
                // We rotate the wanted to end;
                algorithm::rotate( m_transactions, ++found);
-- 
2.43.0


From 9a12458ba25348610348f918880554bf77441fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:37 +0000
Subject: [PATCH 46/64] fix: service forward loses that the caller's
 transaction has to be rolled back

---
 middleware/common/source/transaction/context.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/middleware/common/source/transaction/context.cpp b/middleware/common/source/transaction/context.cpp
index 3f9cf61..1388dae 100644
--- a/middleware/common/source/transaction/context.cpp
+++ b/middleware/common/source/transaction/context.cpp
@@ -204,7 +204,8 @@ namespace casual
             const auto process = process::handle();
 
             return ! algorithm::find_if( m_transactions, [&]( const Transaction& transaction){
-               return ! transaction.trid.null() && transaction.trid.owner() == process;
+               return transaction.trid 
+                  && ( transaction.trid.owner() == process || transaction.pending() || transaction.state != Transaction::State::active);
             }).empty();
          }
 
-- 
2.43.0


From 54ba356c03e8b0cb03742f38ba72114d7457bfa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:37 +0000
Subject: [PATCH 47/64] fix: service manager - a transaction can be committed
 even though a service in it timed out, or its server died

---
 middleware/service/source/manager/handle.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/middleware/service/source/manager/handle.cpp b/middleware/service/source/manager/handle.cpp
index 43467f6..fa94c6b 100644
--- a/middleware/service/source/manager/handle.cpp
+++ b/middleware/service/source/manager/handle.cpp
@@ -77,6 +77,8 @@ namespace casual
                   common::message::service::call::Reply message;
                   message.correlation = caller.correlation;
                   message.code.result = code; 
+                  // the outcome of the work is not known (only of interest if the call is within a transaction)
+                  message.transaction_state = decltype( message.transaction_state)::rollback;
 
                   state.multiplex.send( caller.process.ipc, std::move( message));
                }
-- 
2.43.0


From 571563655d24608ccc4cfc57b3c9b2ab91e32953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:37 +0000
Subject: [PATCH 48/64] fix: replies to calls of one service invocation can be
 received in another

---
 .../common/include/common/server/handle/service.h     |  3 +++
 middleware/common/include/common/service/call/state.h |  3 +++
 .../common/include/common/transaction/context.h       |  2 +-
 middleware/common/source/service/call/context.cpp     |  2 +-
 middleware/common/source/service/call/state.cpp       | 11 +++++++++++
 middleware/common/source/transaction/context.cpp      |  7 ++-----
 6 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/middleware/common/include/common/server/handle/service.h b/middleware/common/include/common/server/handle/service.h
index 1ba578f..9cd1292 100644
--- a/middleware/common/include/common/server/handle/service.h
+++ b/middleware/common/include/common/server/handle/service.h
@@ -93,6 +93,9 @@ namespace casual
             ack.metric.pending = message.pending;
             ack.metric.code = reply.code;
 
+            // replies to what the service has called, and not received, can't be received by another invocation
+            common::service::call::context().clean();
+
             policy.ack( ack);
             server::context().finalize();
          });
diff --git a/middleware/common/include/common/service/call/state.h b/middleware/common/include/common/service/call/state.h
index 9a8b130..ee218a7 100644
--- a/middleware/common/include/common/service/call/state.h
+++ b/middleware/common/include/common/service/call/state.h
@@ -59,6 +59,9 @@ namespace casual
             //! Tries to discard descriptor, throws if fail.
             void discard( descriptor_type descriptor);
 
+            //! discards all active descriptors
+            void clear();
+
             //! @returns true if there are no pending replies or associated transactions.
             //!  Thus, it's ok to do a service-forward
             bool empty() const;
diff --git a/middleware/common/include/common/transaction/context.h b/middleware/common/include/common/transaction/context.h
index c434db3..326468e 100644
--- a/middleware/common/include/common/transaction/context.h
+++ b/middleware/common/include/common/transaction/context.h
@@ -114,7 +114,7 @@ namespace casual
          void configure( std::vector< resource::Link> resources);
 
          //! @return true if there are pending transactions that is owned by this
-         //! process
+         //! process, or transactions with pending replies, or that has to be rolled back
          bool pending() const;
 
          [[nodiscard]] std::vector< strong::resource::id> resources() const noexcept;
diff --git a/middleware/common/source/service/call/context.cpp b/middleware/common/source/service/call/context.cpp
index ce6e43b..f205773 100644
--- a/middleware/common/source/service/call/context.cpp
+++ b/middleware/common/source/service/call/context.cpp
@@ -355,7 +355,7 @@ namespace casual
 
       void Context::clean()
       {
-         // TODO: Do some cleaning on buffers, pending replies and such...
+         m_state.pending.clear();
       }
 
       Context::Context() = default;
diff --git a/middleware/common/source/service/call/state.cpp b/middleware/common/source/service/call/state.cpp
index 37696b8..4f457f8 100644
--- a/middleware/common/source/service/call/state.cpp
+++ b/middleware/common/source/service/call/state.cpp
@@ -113,6 +113,17 @@ namespace casual
             unreserve( descriptor);
          }
 
+         void Pending::clear()
+         {
+            for( auto& descriptor : m_descriptors)
+            {
+               if( ! std::exchange( descriptor.active, false))
+                  continue;
+
+               communication::ipc::inbound::device().discard( descriptor.correlation);
+            }
+         }
+
          bool Pending::empty() const
          {
             return algorithm::all_of( m_descriptors, predicate::negate( std::mem_fn( &pending::Descriptor::active)));
diff --git a/middleware/common/source/transaction/context.cpp b/middleware/common/source/transaction/context.cpp
index 1388dae..7a0d9ff 100644
--- a/middleware/common/source/transaction/context.cpp
+++ b/middleware/common/source/transaction/context.cpp
@@ -560,17 +560,14 @@ namespace casual
                {
                   if( transaction.trid)
                   {
-                     log::line( log::category::error, "pending replies associated with transaction - action: discard pending and set transaction state to rollback only");
+                     log::line( log::category::error, "pending replies associated with transaction - action: set transaction state to rollback only");
                      log::line( log::category::transaction, transaction);
 
                      transaction.state = Transaction::State::rollback;
                      result = message::service::transaction::State::error;
                   }
 
-                  // Discard pending
-                  algorithm::for_each( transaction.correlations(), []( const auto& correlation){ 
-                     communication::ipc::inbound::device().discard( correlation);
-                  });
+                  // the replies are discarded when the service invocation is finalized
                }
             };
 
-- 
2.43.0


From f2376f27302e9503659a3c33b2f78c33649907cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:09 +0000
Subject: [PATCH 49/64] fix: service manager - shutdown never completes for a
 server that has a forwarded call in progress

---
 middleware/service/source/manager/handle.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/middleware/service/source/manager/handle.cpp b/middleware/service/source/manager/handle.cpp
index fa94c6b..66ef3ba 100644
--- a/middleware/service/source/manager/handle.cpp
+++ b/middleware/service/source/manager/handle.cpp
@@ -1121,12 +1121,19 @@ namespace casual
                      return;
                   }
 
+                  // the reservation might have another correlation than the call, if it's forwarded.
+                  const auto correlation = state.instances.sequential[ instance_id].correlation();
+
                   state.unreserve( instance_id, message.metric);
 
                   if( auto found = algorithm::find( state.disabled, instance_id))
                   {
-                     // we let the shutdown task take care of it.
-                     state.pending.shutdown( message);
+                     // we let the shutdown task take care of it, that knows about the reservation
+                     auto reserved = message;
+                     if( correlation)
+                        reserved.correlation = correlation;
+
+                     state.pending.shutdown( reserved);
                      return;
                   }
 
-- 
2.43.0


From 7d0e6445809741061e19cf1f12f0f384bde6bf17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:09 +0000
Subject: [PATCH 50/64] fix: a suspended dynamic resource is suspended again
 when another transaction begins

---
 .../include/common/transaction/transaction.h  |  8 +++++++
 .../common/source/transaction/context.cpp     | 21 +++++++++++++++----
 .../common/source/transaction/transaction.cpp | 13 ++++++++++++
 3 files changed, 38 insertions(+), 4 deletions(-)

diff --git a/middleware/common/include/common/transaction/transaction.h b/middleware/common/include/common/transaction/transaction.h
index 9e864d1..4b6d37f 100644
--- a/middleware/common/include/common/transaction/transaction.h
+++ b/middleware/common/include/common/transaction/transaction.h
@@ -65,6 +65,12 @@ namespace casual
          bool associate_dynamic( strong::resource::id id);
          bool disassociate_dynamic( strong::resource::id id);
 
+         //! marks all dynamic registered associations as suspended, until they register again
+         void suspend_dynamic();
+
+         //! @return true if the dynamic registered association for the id is suspended
+         bool suspended_dynamic( strong::resource::id id) const noexcept;
+
          //! associate a pending message reply
          void associate( const strong::correlation::id& correlation);
 
@@ -108,6 +114,7 @@ namespace casual
             CASUAL_SERIALIZE_NAME( m_involved, "involved");
             CASUAL_SERIALIZE_NAME( m_pending, "pending");
             CASUAL_SERIALIZE_NAME( m_dynamic, "dynamic");
+            CASUAL_SERIALIZE_NAME( m_dynamic_suspended, "dynamic_suspended");
             CASUAL_SERIALIZE_NAME( m_external, "external");
             CASUAL_SERIALIZE_NAME( m_suspended, "suspended");
          })
@@ -116,6 +123,7 @@ namespace casual
          std::vector< strong::resource::id> m_involved;
          std::vector< strong::correlation::id> m_pending;
          std::vector< strong::resource::id> m_dynamic;
+         std::vector< strong::resource::id> m_dynamic_suspended;
          bool m_external = false;
          bool m_suspended = false;
       };
diff --git a/middleware/common/source/transaction/context.cpp b/middleware/common/source/transaction/context.cpp
index 7a0d9ff..b36760d 100644
--- a/middleware/common/source/transaction/context.cpp
+++ b/middleware/common/source/transaction/context.cpp
@@ -406,8 +406,8 @@ namespace casual
 
                namespace resources::end
                {
-                  template< typename P, typename R>
-                  [[nodiscard]] code::tx invoke( P&& policy, const Transaction& transaction, R& resources)
+                  template< typename P, typename T, typename R>
+                  [[nodiscard]] code::tx invoke( P&& policy, T& transaction, R& resources)
                   {
                      Trace trace{ "transaction::local::resources::end::invoke"};
                      common::log::line( verbose::log, "transaction: ", transaction, ", resources: ", resources);
@@ -434,9 +434,22 @@ namespace casual
 
                      auto suspend()
                      {
-                        return []( const Transaction& transaction, auto& resources)
+                        return []( Transaction& transaction, auto& resources)
                         {
-                           return policy::end( transaction, resources, flag::xa::Flag::suspend);
+                           auto code = algorithm::accumulate( transaction.involved(), code::tx::ok, local::accumulate::code( [ &transaction, &resources]( auto& id)
+                           {
+                              // dynamic resources that has not registered since last suspend are still suspended
+                              if( transaction.suspended_dynamic( id))
+                                 return code::tx::ok;
+
+                              if( auto found = algorithm::find( resources, id))
+                                 return code::convert::to::tx( found->end( transaction.trid, flag::xa::Flag::suspend));
+
+                              return code::tx::ok;
+                           }));
+
+                           transaction.suspend_dynamic();
+                           return code;
                         };
                      }
 
diff --git a/middleware/common/source/transaction/transaction.cpp b/middleware/common/source/transaction/transaction.cpp
index bba3b93..8ec1d1e 100644
--- a/middleware/common/source/transaction/transaction.cpp
+++ b/middleware/common/source/transaction/transaction.cpp
@@ -43,9 +43,22 @@ namespace casual
 
          bool Transaction::associate_dynamic( strong::resource::id id)
          {
+            // regardless, the association is (now) active
+            algorithm::container::trim( m_dynamic_suspended, algorithm::remove( m_dynamic_suspended, id));
+
             return algorithm::append_unique_value( id, m_dynamic); 
          }
 
+         void Transaction::suspend_dynamic()
+         {
+            m_dynamic_suspended = m_dynamic;
+         }
+
+         bool Transaction::suspended_dynamic( strong::resource::id id) const noexcept
+         {
+            return ! algorithm::find( m_dynamic_suspended, id).empty();
+         }
+
          bool Transaction::disassociate_dynamic( strong::resource::id id)
          {
             if( auto found = common::algorithm::find( m_dynamic, id))
-- 
2.43.0


From ad1e5b4b8a5277b81f5e089169b32a1429ebcf91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:56 +0000
Subject: [PATCH 51/64] fix: a call in a transaction fails if its server joins
 a branch that another call is about to start

---
 middleware/common/source/transaction/resource.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/middleware/common/source/transaction/resource.cpp b/middleware/common/source/transaction/resource.cpp
index 844dd4a..c1cc6a8 100644
--- a/middleware/common/source/transaction/resource.cpp
+++ b/middleware/common/source/transaction/resource.cpp
@@ -104,6 +104,21 @@ namespace casual
             flags |= Flag::join;
             result = local::convert( m_xa->xa_start_entry( local::non_const_xid( transaction), m_id.value(), std::to_underlying( flags)));
          }
+         else if( result == code::xa::invalid_xid && flag::contains( flags, Flag::join))
+         {
+            // the other side of the race, the one that is told to start the branch has not got to it yet
+            log::line( log::category::transaction, result, " - action: try to start instead of join");
+
+            flags -= Flag::join;
+            result = local::convert( m_xa->xa_start_entry( local::non_const_xid( transaction), m_id.value(), std::to_underlying( flags)));
+
+            // unless it just did
+            if( result == code::xa::duplicate_xid)
+            {
+               flags |= Flag::join;
+               result = local::convert( m_xa->xa_start_entry( local::non_const_xid( transaction), m_id.value(), std::to_underlying( flags)));
+            }
+         }
 
          local::log::event( "resource-start|", m_id, '|', transaction, '|', result);
 
-- 
2.43.0


From 0e0531d50517a466c046022033a93315fdda4e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:31 +0000
Subject: [PATCH 52/64] fix: TM keeps a transaction forever if a synchronous
 call in it fails before it's sent

---
 middleware/common/source/service/call/context.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/middleware/common/source/service/call/context.cpp b/middleware/common/source/service/call/context.cpp
index f205773..232c064 100644
--- a/middleware/common/source/service/call/context.cpp
+++ b/middleware/common/source/service/call/context.cpp
@@ -319,6 +319,9 @@ namespace casual
                         request.involved = current.involved();
                         request.reply = false; // we don't need a reply
                         communication::device::blocking::send( communication::instance::outbound::transaction::manager::device(), request);
+
+                        // TM knows about the transaction, hence TM needs to know the outcome, even if the call fails.
+                        current.external();
                      }
 
                      common::transaction::context().resources_suspend( current);
-- 
2.43.0


From 8916a643aeebf8449fe7fc05ef250d466929c6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:43 +0000
Subject: [PATCH 53/64] fix: a conversation in a transaction is never done for
 the transaction, and its failure isn't known to it

tpconnect associates the transaction with the conversation, but nothing ends the association, hence
the transaction could never be committed. The transaction state of the reply was ignored, and not
set when the service fails. A conversation that is disconnected, or fails, makes its transaction
rollback only.
---
 .../common/service/conversation/context.h     |  3 +++
 .../include/common/transaction/context.h      |  3 +++
 .../common/source/server/handle/service.cpp   |  4 ++-
 .../source/service/conversation/context.cpp   | 27 ++++++++++++++-----
 .../common/source/transaction/context.cpp     | 11 +++++---
 5 files changed, 38 insertions(+), 10 deletions(-)

diff --git a/middleware/common/include/common/service/conversation/context.h b/middleware/common/include/common/service/conversation/context.h
index 8e6ef79..f19f5b9 100644
--- a/middleware/common/include/common/service/conversation/context.h
+++ b/middleware/common/include/common/service/conversation/context.h
@@ -94,6 +94,9 @@ namespace casual
             private:
                Context();
 
+               //! the conversation is done, `transaction_state` is the outcome for the transaction of the conversation, if any.
+               void terminate( strong::conversation::descriptor::id descriptor, message::service::transaction::State transaction_state);
+
                State m_state;
 
             };
diff --git a/middleware/common/include/common/transaction/context.h b/middleware/common/include/common/transaction/context.h
index 326468e..48c04d0 100644
--- a/middleware/common/include/common/transaction/context.h
+++ b/middleware/common/include/common/transaction/context.h
@@ -102,6 +102,9 @@ namespace casual
 
          void update( message::service::call::Reply& state);
 
+         //! the call or conversation with `correlation` is done
+         void update( const strong::correlation::id& correlation, message::service::transaction::State transaction_state);
+
          //! commits or rollback transaction created from this server
          message::service::transaction::State finalize( bool commit);
 
diff --git a/middleware/common/source/server/handle/service.cpp b/middleware/common/source/server/handle/service.cpp
index 4701a7f..611eafc 100644
--- a/middleware/common/source/server/handle/service.cpp
+++ b/middleware/common/source/server/handle/service.cpp
@@ -152,8 +152,10 @@ namespace casual
             if( result.transaction == common::service::invoke::Result::Transaction::commit)
                reply.code.result = code::xatmi::ok;  
             else
+            {
+               reply.transaction_state = decltype( reply.transaction_state)::rollback;
                reply.code.result = code::xatmi::service_fail;
-
+            }
 
             log::line( log::debug, "reply: ", reply);
          }
diff --git a/middleware/common/source/service/conversation/context.cpp b/middleware/common/source/service/conversation/context.cpp
index e907fd7..79c45b1 100644
--- a/middleware/common/source/service/conversation/context.cpp
+++ b/middleware/common/source/service/conversation/context.cpp
@@ -124,7 +124,7 @@ namespace casual
                      // It also handles the case of a pending service_reply
                      // that may have been sent by the service manager if/when
                      // it detected that the server process terminated while busy. 
-                     send::Result pending_event(common::service::conversation::state::descriptor::Value value)
+                     send::Result pending_event(common::service::conversation::state::descriptor::Value value, message::service::transaction::State& transaction_state)
                      {
                         send::Result result; // assumes no return event! User code 0
 
@@ -183,6 +183,7 @@ namespace casual
                               // tpreturn by the subordinate when not in control
                               // Need to generate TPEV_SVCFAIL or TPEV_SVCERR
                               serialize::native::complete( complete_msg, inp_message);
+                              transaction_state = inp_message.transaction_state;
                               using Result = decltype( inp_message.code.result);
                               switch( inp_message.code.result)
                               {
@@ -294,7 +295,7 @@ namespace casual
                log::line( log::debug, "descriptor: ", descriptor, ", value: ", value);
 
                // If some thing goes wrong we unreserve the descriptor
-               auto unreserve = common::execute::scope( [&](){ m_state.descriptors.unreserve( descriptor);});
+               auto unreserve = common::execute::scope( [&](){ terminate( descriptor, message::service::transaction::State::rollback);});
 
                auto target = service::lookup::reply( std::move( lookup));
 
@@ -372,7 +373,8 @@ namespace casual
                value.duplex = local::duplex::convert( flags);
                // if an event occurs (TPEV_DISCONIMM, TPEV_SVCFAI or TPEV_SVCERR)
                // the conversation is terminated. The descriptor shall be unreserved.
-               auto unreserve = common::execute::scope( [&](){ m_state.descriptors.unreserve( descriptor);});
+               auto transaction_state = message::service::transaction::State::rollback;
+               auto unreserve = common::execute::scope( [&](){ terminate( descriptor, transaction_state);});
 
                local::check::disconnect( value);
 
@@ -408,7 +410,7 @@ namespace casual
                // disconnect.
                // This low level impementation is in check::pending_event()
                //common::Flag< Event> result_event = local::check::pending_event( value);
-               send::Result result = local::check::pending_event( value);
+               send::Result result = local::check::pending_event( value, transaction_state);
 
                if( flag::empty( result.event))
                {
@@ -436,7 +438,8 @@ namespace casual
 
                local::validate::receive( value);
 
-               auto unreserve = common::execute::scope( [&](){ m_state.descriptors.unreserve( descriptor);});
+               auto transaction_state = message::service::transaction::State::rollback;
+               auto unreserve = common::execute::scope( [&](){ terminate( descriptor, transaction_state);});
 
                local::check::disconnect( value);
 
@@ -586,6 +589,8 @@ namespace casual
                using Result = decltype( message.code.result);
                if( message.code.result != Result::absent)
                {
+                  transaction_state = message.transaction_state;
+
                   switch( message.code.result)
                   {
                      case Result::ok:
@@ -631,7 +636,8 @@ namespace casual
 
                local::validate::disconnect( value);
 
-               auto unreserve = common::execute::scope( [&](){ m_state.descriptors.unreserve( handle);});
+               // we don't know what the other side has done, and will do.
+               auto unreserve = common::execute::scope( [&](){ terminate( handle, message::service::transaction::State::rollback);});
 
                {
                   auto message = local::prepare::message< message::conversation::Disconnect>( value);
@@ -644,6 +650,15 @@ namespace casual
 
             }
 
+            void Context::terminate( strong::conversation::descriptor::id descriptor, message::service::transaction::State transaction_state)
+            {
+               const auto correlation = m_state.descriptors.at( descriptor).correlation;
+               m_state.descriptors.unreserve( descriptor);
+
+               // the transaction, if any, does not wait for this conversation any more
+               common::transaction::context().update( correlation, transaction_state);
+            }
+
             bool Context::pending() const
             {
                return ! m_state.descriptors.empty();
diff --git a/middleware/common/source/transaction/context.cpp b/middleware/common/source/transaction/context.cpp
index b36760d..12408a1 100644
--- a/middleware/common/source/transaction/context.cpp
+++ b/middleware/common/source/transaction/context.cpp
@@ -519,10 +519,15 @@ namespace casual
 
 
          void Context::update( message::service::call::Reply& reply)
+         {
+            update( reply.correlation, reply.transaction_state);
+         }
+
+         void Context::update( const strong::correlation::id& correlation, message::service::transaction::State transaction_state)
          {
             Trace trace{ "transaction::Context::update"};
 
-            if( auto found = algorithm::find( m_transactions, reply.correlation))
+            if( auto found = algorithm::find( m_transactions, correlation))
             {
                auto transform_state = []( auto state)
                {
@@ -537,13 +542,13 @@ namespace casual
                   return Transaction::State::rollback;
                };
 
-               const auto state = transform_state( reply.transaction_state);
+               const auto state = transform_state( transaction_state);
 
                if( found->state < state)
                   found->state = state;
 
                // this descriptor is done, and we can remove the association to the transaction
-               found->replied( reply.correlation);
+               found->replied( correlation);
             }
             // TODO:
             // We seem to propagate transaction state even if the call was not in a transaction
-- 
2.43.0


From f014fc16a1b7870cfaf34adb8adf45ef6151a6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:55 +0000
Subject: [PATCH 54/64] fix: a server exits when a conversation is done before
 its service is

The descriptor of the conversation was released twice, if the initiator disconnects, and the failure
of the second ends the server. Also: a conversation that the service has initiated, and not ended,
was left open, with the other side waiting, and the descriptor visible to the next invocation.
---
 .../include/common/server/handle/service.h    | 10 +++---
 .../common/service/conversation/context.h     |  3 ++
 .../common/service/conversation/state.h       | 11 +++++++
 .../source/service/conversation/context.cpp   | 31 +++++++++++++++++++
 4 files changed, 50 insertions(+), 5 deletions(-)

diff --git a/middleware/common/include/common/server/handle/service.h b/middleware/common/include/common/server/handle/service.h
index 9cd1292..e558b76 100644
--- a/middleware/common/include/common/server/handle/service.h
+++ b/middleware/common/include/common/server/handle/service.h
@@ -165,11 +165,11 @@ namespace casual
          auto parameter = transform::parameter( message);
          
          // transform::parameter( message) may have reserved a descriptor that we need to
-         // unreserve! 
-         auto execute_unreserve_descriptor = execute::scope( [descriptor = parameter.descriptor]()
+         // unreserve, unless the conversation is already done. Conversations that the service
+         // has initiated, and not ended, are disconnected
+         auto execute_end_conversations = execute::scope( []()
          {
-            if( descriptor)
-               common::service::conversation::Context::instance().descriptors().unreserve( descriptor);
+            common::service::conversation::Context::instance().clean();
          });
 
 
@@ -211,7 +211,7 @@ namespace casual
 
          execute_transaction();
          execute_reply();
-         execute_unreserve_descriptor();
+         execute_end_conversations();
       }
 
 
diff --git a/middleware/common/include/common/service/conversation/context.h b/middleware/common/include/common/service/conversation/context.h
index f19f5b9..cfa266e 100644
--- a/middleware/common/include/common/service/conversation/context.h
+++ b/middleware/common/include/common/service/conversation/context.h
@@ -91,6 +91,9 @@ namespace casual
 
                bool pending() const;
 
+               //! ends all conversations that are open. Those that are initiated here get disconnected
+               void clean();
+
             private:
                Context();
 
diff --git a/middleware/common/include/common/service/conversation/state.h b/middleware/common/include/common/service/conversation/state.h
index 79eb26d..fac4986 100644
--- a/middleware/common/include/common/service/conversation/state.h
+++ b/middleware/common/include/common/service/conversation/state.h
@@ -49,6 +49,17 @@ namespace casual
                auto& at( index_type index) { return lookup( *this, index);}
                auto& at( index_type index) const { return lookup( *this, index);}
 
+               //! @return pointer to the value, nullptr if not reserved
+               V* find( index_type index) noexcept
+               {
+                  const auto index_v = container::index( index);
+
+                  if( index_v >= 0 && index_v < static_cast< platform::size::type>( m_values.size()) && ! absent( m_values[ index_v]))
+                     return &m_values[ index_v];
+
+                  return nullptr;
+               }
+
 
                auto begin() const noexcept { return std::begin( m_values);}
                auto end() const noexcept { return std::end( m_values);}
diff --git a/middleware/common/source/service/conversation/context.cpp b/middleware/common/source/service/conversation/context.cpp
index 79c45b1..d3c9465 100644
--- a/middleware/common/source/service/conversation/context.cpp
+++ b/middleware/common/source/service/conversation/context.cpp
@@ -11,6 +11,7 @@
 #include "common/buffer/transport.h"
 #include "common/transaction/context.h"
 #include "common/execute.h"
+#include "common/exception/capture.h"
 #include "common/array.h"
 
 #include "common/message/conversation.h"
@@ -659,6 +660,36 @@ namespace casual
                common::transaction::context().update( correlation, transaction_state);
             }
 
+            void Context::clean()
+            {
+               Trace trace{ "common::service::conversation::Context::clean"};
+
+               for( platform::size::type index = 0; index < m_state.descriptors.capacity(); ++index)
+               {
+                  const strong::conversation::descriptor::id descriptor( index);
+
+                  auto found = m_state.descriptors.find( descriptor);
+
+                  if( ! found)
+                     continue;
+
+                  if( ! found->initiator)
+                  {
+                     m_state.descriptors.unreserve( descriptor);
+                     continue;
+                  }
+
+                  try
+                  {
+                     disconnect( descriptor);
+                  }
+                  catch( ...)
+                  {
+                     log::line( log::category::error, exception::capture(), " failed to disconnect conversation: ", descriptor);
+                  }
+               }
+            }
+
             bool Context::pending() const
             {
                return ! m_state.descriptors.empty();
-- 
2.43.0


From 6073e083ef6aafbc45604e8438a1ffb07ae1b329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:18 +0000
Subject: [PATCH 55/64] fix: a server exits when a conversational service
 throws, or does not return properly

The failure is to be known by the reply only, as it is with calls.
---
 .../source/server/handle/conversation.cpp       | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/middleware/common/source/server/handle/conversation.cpp b/middleware/common/source/server/handle/conversation.cpp
index 67aefec..1ecffc1 100644
--- a/middleware/common/source/server/handle/conversation.cpp
+++ b/middleware/common/source/server/handle/conversation.cpp
@@ -12,7 +12,9 @@
 
 #include "common/communication/ipc.h"
 
+#include "common/exception/capture.h"
 #include "common/execute.h"
+#include "common/log/category.h"
 
 namespace casual
 {
@@ -28,10 +30,17 @@ namespace casual
                Trace trace{ "server::handle::Conversation::operator()"};
                log::line( verbose::log, "message: ", message);
 
-               policy::call::Default policy;
-
-               service::call( policy, common::service::conversation::context(), message, true);
-   
+               try
+               {
+                  policy::call::Default policy;
+
+                  service::call( policy, common::service::conversation::context(), message, true);
+               }
+               catch( ...)
+               {
+                  // the reply is sent, with the failure.
+                  log::line( log::category::error, exception::capture());
+               }
             }
 
 
-- 
2.43.0


From 98baca7eb1abd86a5fbacc4deba5c1369907461a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:40 +0000
Subject: [PATCH 56/64] fix: a service that returns success is reported
 successful although its own transaction is rolled back

If the transaction is rollback only, the work of the service is undone, and the caller has to know.
---
 middleware/common/source/transaction/context.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/middleware/common/source/transaction/context.cpp b/middleware/common/source/transaction/context.cpp
index 12408a1..26733bf 100644
--- a/middleware/common/source/transaction/context.cpp
+++ b/middleware/common/source/transaction/context.cpp
@@ -640,6 +640,11 @@ namespace casual
                return transaction.trid.owner() != process::handle();
             });
 
+            // the outcome is not what the service wants if owned transactions can't be committed
+            if( commit)
+               for( auto& transaction : owner)
+                  result += transform_state( transaction.state);
+
             // take care of owned transactions
             auto code = algorithm::accumulate( owner, code::tx::ok, local::accumulate::code( invoke_commit_rollback));
 
-- 
2.43.0


From e7d34cc16c0ee1a10fac35788a94d8b7d9ab4f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:32 +0000
Subject: [PATCH 57/64] fix: a resource without configured instances gets no
 resource proxy instances, documented default is 1

---
 middleware/configuration/source/model/transform.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/middleware/configuration/source/model/transform.cpp b/middleware/configuration/source/model/transform.cpp
index e3cfeef..9414144 100644
--- a/middleware/configuration/source/model/transform.cpp
+++ b/middleware/configuration/source/model/transform.cpp
@@ -117,7 +117,7 @@ namespace casual
 
                      result.name = resource.name;
                      result.key = resource.key.value_or( "");
-                     result.instances = resource.instances.value_or( 0);
+                     result.instances = resource.instances.value_or( result.instances);
                      result.note = resource.note.value_or( "");
                      result.openinfo = resource.openinfo.value_or( "");
                      result.closeinfo = resource.closeinfo.value_or( "");
-- 
2.43.0


From 40d6f5c7c96628f9da13215dbb4a901ca624f3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:18 +0000
Subject: [PATCH 58/64] fix: resources of servers are ignored if
 domain.transaction is in another configuration file

---
 .../configuration/source/model/transform.cpp  | 36 ++++++++++---------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/middleware/configuration/source/model/transform.cpp b/middleware/configuration/source/model/transform.cpp
index 9414144..6021e88 100644
--- a/middleware/configuration/source/model/transform.cpp
+++ b/middleware/configuration/source/model/transform.cpp
@@ -104,26 +104,26 @@ namespace casual
 
                   transaction::Model result;
 
-                  if( ! domain.transaction)
-                     return result;
-
-                  auto& transaction = domain.transaction.value();
+                  if( domain.transaction)
+                  {
+                     auto& transaction = domain.transaction.value();
 
-                  result.log = transaction.log;
+                     result.log = transaction.log;
 
-                  result.resources = common::algorithm::transform( transaction.resources, []( const auto& resource)
-                  {
-                     transaction::Resource result;
+                     result.resources = common::algorithm::transform( transaction.resources, []( const auto& resource)
+                     {
+                        transaction::Resource result;
 
-                     result.name = resource.name;
-                     result.key = resource.key.value_or( "");
-                     result.instances = resource.instances.value_or( result.instances);
-                     result.note = resource.note.value_or( "");
-                     result.openinfo = resource.openinfo.value_or( "");
-                     result.closeinfo = resource.closeinfo.value_or( "");
+                        result.name = resource.name;
+                        result.key = resource.key.value_or( "");
+                        result.instances = resource.instances.value_or( result.instances);
+                        result.note = resource.note.value_or( "");
+                        result.openinfo = resource.openinfo.value_or( "");
+                        result.closeinfo = resource.closeinfo.value_or( "");
 
-                     return result;
-                  });
+                        return result;
+                     });
+                  }
 
                   // extract all explicit and implicit (via groups) resources for every server, if any
                   {
@@ -160,6 +160,10 @@ namespace casual
 
                      auto server_resources = [&]( auto& server)
                      {
+                        // servers that are not normalized have no alias to map resources to
+                        if( ! server.alias)
+                           return;
+
                         auto& alias = server.alias.value();
                         if( server.resources)
                            append_resources( alias, server.resources.value());
-- 
2.43.0


From 028e62fd46fdae6e64ed3a39bd4d4fd59e0479ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:44 +0000
Subject: [PATCH 59/64] fix: notes of configured services are lost

---
 middleware/configuration/source/model/transform.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/middleware/configuration/source/model/transform.cpp b/middleware/configuration/source/model/transform.cpp
index 6021e88..be25dba 100644
--- a/middleware/configuration/source/model/transform.cpp
+++ b/middleware/configuration/source/model/transform.cpp
@@ -280,6 +280,7 @@ namespace casual
                         service::Service result;
 
                         result.name = service.name;
+                        result.note = service.note.value_or( "");
                         result.routes = service.routes.value_or( result.routes);
 
                         if( service.visibility)
-- 
2.43.0


From 1dac6696cc0dee008fc8db1ee04e2aa39971dfe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:58 +0000
Subject: [PATCH 60/64] fix: explicit alias is replaced if another alias is
 generated to the same

---
 .../include/configuration/common.h            | 14 ++++
 middleware/configuration/source/model.cpp     | 64 ++++++++++---------
 2 files changed, 49 insertions(+), 29 deletions(-)

diff --git a/middleware/configuration/include/configuration/common.h b/middleware/configuration/include/configuration/common.h
index 83cd9d7..fd2936b 100644
--- a/middleware/configuration/include/configuration/common.h
+++ b/middleware/configuration/include/configuration/common.h
@@ -76,6 +76,20 @@ namespace casual
                      state.placeholders.emplace( placeholder, value.alias);
                };
             }
+
+            //! invokes `action` with a predicate that matches values with explicit alias, and then with a 
+            //! predicate that matches the rest. Hence, explicit aliases have precedence over generated aliases.
+            template< typename A>
+            void prioritize( A&& action)
+            {
+               for( auto explicit_alias : { true, false})
+               {
+                  action( [ explicit_alias]( auto& value)
+                  { 
+                     return ( ! value.alias.empty() && ! alias::is::placeholder( value.alias)) == explicit_alias;
+                  });
+               }
+            }
          } // normalize
 
       } // alias
diff --git a/middleware/configuration/source/model.cpp b/middleware/configuration/source/model.cpp
index abe62dd..948c021 100644
--- a/middleware/configuration/source/model.cpp
+++ b/middleware/configuration/source/model.cpp
@@ -563,49 +563,55 @@ namespace casual
                   
          {
             auto normalizer = alias::normalize::mutator( state, []( auto& value){ return value.path.filename();});
-            algorithm::for_each( model.domain.executables, normalizer);
-            algorithm::for_each( model.domain.servers, normalizer);
+            alias::normalize::prioritize( [ &]( auto predicate)
+            {
+               algorithm::for_each_if( model.domain.executables, normalizer, predicate);
+               algorithm::for_each_if( model.domain.servers, normalizer, predicate);
+            });
          }
 
          {
             state.count = {};
             auto forward_alias = alias::normalize::mutator( state, []( auto&){ return "forward";});
 
-            algorithm::for_each( model.queue.forward.groups, [&forward_alias, &state]( auto& group)
+            auto normalizer = alias::normalize::mutator( state, []( auto& value){ return value.source;});
+
+            alias::normalize::prioritize( [ &]( auto predicate)
             {
-               forward_alias( group);
-               
-               // normalize the forwards
-               auto normalizer = alias::normalize::mutator( state, []( auto& value){ return value.source;});
-               algorithm::for_each( group.services, normalizer);
-               algorithm::for_each( group.queues, normalizer);
-            });;
+               algorithm::for_each( model.queue.forward.groups, [ &]( auto& group)
+               {
+                  if( predicate( group))
+                     forward_alias( group);
+                  
+                  // normalize the forwards
+                  algorithm::for_each_if( group.services, normalizer, predicate);
+                  algorithm::for_each_if( group.queues, normalizer, predicate);
+               });
+            });
          }
 
          {
             state.count = {};
             
-            {
-               auto normalizer = alias::normalize::mutator( state, []( auto& value)
-               { 
-                  if( value.connect == decltype( value.connect)::reversed)
-                     return "reverse.inbound";
-                  return "inbound";
-               
-               });
-               algorithm::for_each( model.gateway.inbound.groups, normalizer);
-            }
+            auto inbound = alias::normalize::mutator( state, []( auto& value)
+            { 
+               if( value.connect == decltype( value.connect)::reversed)
+                  return "reverse.inbound";
+               return "inbound";
+            });
+
+            auto outbound = alias::normalize::mutator( state, []( auto& value)
+            { 
+               if( value.connect == decltype( value.connect)::reversed)
+                  return "reverse.outbound";
+               return "outbound";
+            });
 
+            alias::normalize::prioritize( [ &]( auto predicate)
             {
-               auto normalizer = alias::normalize::mutator( state, []( auto& value)
-               { 
-                  if( value.connect == decltype( value.connect)::reversed)
-                     return "reverse.outbound";
-                  return "outbound";
-               
-               });
-               algorithm::for_each( model.gateway.outbound.groups, normalizer);
-            }
+               algorithm::for_each_if( model.gateway.inbound.groups, inbound, predicate);
+               algorithm::for_each_if( model.gateway.outbound.groups, outbound, predicate);
+            });
          }
 
          // take care of alias placeholder mappings...
-- 
2.43.0


From d063c19290dafc541888ee37cd1fb05acd5b0d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:58 +0000
Subject: [PATCH 61/64] fix: default limit is not used for inbound groups
 without a limit of their own

---
 middleware/configuration/source/user.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/middleware/configuration/source/user.cpp b/middleware/configuration/source/user.cpp
index 9f8faa7..785274d 100644
--- a/middleware/configuration/source/user.cpp
+++ b/middleware/configuration/source/user.cpp
@@ -117,11 +117,11 @@ namespace casual
                   auto limit = local_default.limit.value();
 
                   for( auto& group : inbound.groups)
-                     if( group.limit)
-                     {
-                        group.limit->size = algorithm::coalesce( group.limit->size, limit.size);
-                        group.limit->messages = algorithm::coalesce( group.limit->messages, limit.messages);
-                     }
+                  {
+                     auto& group_limit = local::value_or_emplace( group.limit);
+                     group_limit.size = algorithm::coalesce( group_limit.size, limit.size);
+                     group_limit.messages = algorithm::coalesce( group_limit.messages, limit.messages);
+                  }
                }
                return inbound;
             }
-- 
2.43.0


From 4f32f6fe3be08667453eb551d1523af0fbf74635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:23 +0000
Subject: [PATCH 62/64] fix: properties of groups and connections are lost when
 sections are split in several configuration files

---
 middleware/configuration/source/model.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/middleware/configuration/source/model.cpp b/middleware/configuration/source/model.cpp
index 948c021..c693584 100644
--- a/middleware/configuration/source/model.cpp
+++ b/middleware/configuration/source/model.cpp
@@ -299,6 +299,10 @@ namespace casual
             Group set_union( Group lhs, Group rhs)
             {
                lhs.note = algorithm::coalesce( std::move( rhs.note), std::move( lhs.note));
+               lhs.queuebase = algorithm::coalesce( std::move( rhs.queuebase), std::move( lhs.queuebase));
+               lhs.directory = algorithm::coalesce( std::move( rhs.directory), std::move( lhs.directory));
+               if( rhs.capacity)
+                  lhs.capacity = rhs.capacity;
                local::range::replace( std::move( rhs.queues), lhs.queues, local::predicate::equal::name());
                
                return lhs;
@@ -323,6 +327,7 @@ namespace casual
                Group set_union( Group lhs, Group rhs)
                {
                   lhs.note = algorithm::coalesce( std::move( rhs.note), std::move( lhs.note));
+                  lhs.memberships = algorithm::coalesce( std::move( rhs.memberships), std::move( lhs.memberships));
                   local::range::replace( std::move( rhs.services), lhs.services, local::predicate::equal::alias());
                   local::range::replace( std::move( rhs.queues), lhs.queues, local::predicate::equal::alias());
 
@@ -403,6 +408,7 @@ namespace casual
                {
                   lhs.note = algorithm::coalesce( std::move( rhs.note), std::move( lhs.note));
                   lhs.discovery = rhs.discovery;
+                  lhs.memberships = algorithm::coalesce( std::move( rhs.memberships), std::move( lhs.memberships));
 
                   return lhs;
                }
@@ -411,7 +417,8 @@ namespace casual
                {
                   lhs.note = algorithm::coalesce( std::move( rhs.note), std::move( lhs.note));
                   lhs.connect = rhs.connect;
-                  lhs.limit = rhs.limit;
+                  if( rhs.limit)
+                     lhs.limit = rhs.limit;
                   local::range::update( std::move( rhs.connections), lhs.connections, []( auto& l, auto& r){ return l.address == r.address;});
 
                   return lhs;
@@ -464,6 +471,8 @@ namespace casual
                   algorithm::append_unique( rhs.services, lhs.services);
                   algorithm::append_unique( rhs.queues, lhs.queues);
 
+                  lhs.memberships = algorithm::coalesce( std::move( rhs.memberships), std::move( lhs.memberships));
+
                   return lhs;
                }
 
-- 
2.43.0


From c458f4c6f5aaf21ddb291ce21ca8fc5238d08384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:37 +0000
Subject: [PATCH 63/64] fix: negative number of instances is accepted for queue
 to queue forwards

---
 middleware/configuration/source/model/validate.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/middleware/configuration/source/model/validate.cpp b/middleware/configuration/source/model/validate.cpp
index d17a4ce..771b8e9 100644
--- a/middleware/configuration/source/model/validate.cpp
+++ b/middleware/configuration/source/model/validate.cpp
@@ -47,6 +47,7 @@ namespace casual
             algorithm::for_each( model.queue.forward.groups, []( auto& group)
             {
                algorithm::for_each( group.services, local::validate::instances);
+               algorithm::for_each( group.queues, local::validate::instances);
             });
          }
       } // model
-- 
2.43.0


From 068571cf018f82f34d7afba79d4fe6868a4ebc70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:26 +0000
Subject: [PATCH 64/64] fix: exported configuration has the queue directory of
 one group for all groups

---
 .../configuration/source/model/transform.cpp      | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/middleware/configuration/source/model/transform.cpp b/middleware/configuration/source/model/transform.cpp
index be25dba..946fa12 100644
--- a/middleware/configuration/source/model/transform.cpp
+++ b/middleware/configuration/source/model/transform.cpp
@@ -872,20 +872,21 @@ namespace casual
                   user::domain::queue::Manager result;
                   result.note  = null_if_empty( queue.note);
 
-                  // set the default directory, if any. Either all groups has the same, ore non has any
-                  {
-                     auto has_directory = []( auto& group){ return ! group.directory.empty();};
+                  // set the default directory, if all groups has the same. Otherwise we need to be explicit for each group.
+                  auto same_directory = algorithm::all_of( queue.groups, [ &groups = queue.groups]( auto& group){ return group.directory == groups.front().directory;});
 
-                     if( auto found = algorithm::find_if( queue.groups, has_directory))
-                        result.defaults.emplace().directory = found->directory;
-                  }
+                  if( same_directory && ! queue.groups.empty() && ! queue.groups.front().directory.empty())
+                     result.defaults.emplace().directory = queue.groups.front().directory;
 
-                  result.groups = null_if_empty( algorithm::transform( queue.groups, []( auto& value)
+                  result.groups = null_if_empty( algorithm::transform( queue.groups, [ same_directory]( auto& value)
                   {                           
                      user::domain::queue::Group result;
                      result.alias = null_if_empty( value.alias);
                      result.queuebase = null_if_empty( value.queuebase);
 
+                     if( ! same_directory && ! result.queuebase && ! value.directory.empty())
+                        result.queuebase = value.directory + "/" + value.alias + ".qb";
+
                      if( value.capacity)
                         result.capacity = user::domain::queue::Group::Capacity{ .size = common::quantity::bytes::to::string( value.capacity.value())};
 
-- 
2.43.0

