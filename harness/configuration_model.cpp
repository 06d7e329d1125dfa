// C03 a configuration means what its files say: defaults, references, aliases, groups, several
// files, old and new forms; and what is exported is what was loaded.
#include "pbt.h"

#include "configuration/user.h"
#include "configuration/model.h"
#include "configuration/model/load.h"
#include "configuration/model/change.h"
#include "configuration/model/transform.h"
#include "configuration/model/validate.h"

#include "common/serialize/create.h"
#include "common/chronology.h"
#include "common/quantity.h"
#include "common/file.h"

#include <fstream>
#include <set>

namespace
{
   using namespace casual;
   using pbt::require;
   using pbt::Source;
   using pbt::show;
   using pbt::cat;

   namespace user = configuration::user;
   namespace model = configuration::model;
   using names = std::vector< std::string>;

   template< typename T>
   std::string text( T& value)
   {
      auto writer = common::serialize::create::writer::from( "json");
      writer << CASUAL_NAMED_VALUE_NAME( value, "value");
      std::ostringstream out;
      writer.consume( out);
      return out.str();
   }

   // ------------------------------------------------------------------ values

   struct Amount { std::string text; long long value;};

   Amount duration( Source& source)
   {
      static const std::vector< std::pair< std::string, long long>> units{
         { "", 1'000'000'000}, { "s", 1'000'000'000}, { "ms", 1'000'000}, { "us", 1000}, { "ns", 1}, { "min", 60'000'000'000}, { "h", 3'600'000'000'000}, { "d", 86'400'000'000'000}};
      Amount result{ {}, 0};
      auto part = [ &]()
      {
         auto& unit = source.pick( units);
         auto count = source.integer( 0, unit.second > 1'000'000'000'000 ? 300 : 100000);
         result.text += std::to_string( count) + unit.first;
         result.value += count * unit.second;
      };
      part();
      while( source.chance( 15))
      {
         result.text += source.pick( { " + ", "+", " +"});
         part();
      }
      return result;
   }

   Amount bytes( Source& source)
   {
      static const std::vector< std::pair< std::string, long long>> units{
         { "", 1}, { "B", 1}, { "kB", 1000}, { "KiB", 1024}, { "MB", 1'000'000}, { "MiB", 1 << 20}, { "GB", 1'000'000'000}, { "GiB", 1 << 30}, { "TB", 1'000'000'000'000}, { "TiB", 1ll << 40}};
      auto& unit = source.pick( units);
      auto count = source.integer( 0, 4000);
      return { cat( count, source.chance( 10) ? " " : "", unit.first), count * unit.second};
   }

   std::string name( Source& source, const char* prefix, int count = 5)
   {
      return cat( prefix, source.draw( count) + 1);
   }

   std::string note( Source& source)
   {
      return source.pick( { "a note", "n", "with: colon", "fyra öar", "a # b", "'quoted' \"twice\"", "two\nlines", "true", "12", "<tag>&amp;"});
   }

   names some( Source& source, const char* prefix, int count = 4, std::size_t min = 0)
   {
      names result;
      source.repeat( min, 4, 2, [ &]( auto)
      {
         auto value = name( source, prefix, count);
         if( std::find( result.begin(), result.end(), value) == result.end())
            result.push_back( value);
      });
      if( result.size() < min)
         result.push_back( cat( prefix, 1));
      return result;
   }

   template< typename F>
   auto maybe( Source& source, unsigned percent, F&& f) -> std::optional< std::decay_t< decltype( f())>>
   {
      if( source.chance( percent))
         return f();
      return std::nullopt;
   }

   //! one of `count` keys that is not in `used`, empty if there are none
   std::string key( Source& source, std::set< std::string>& used, const char* prefix, int count)
   {
      auto value = name( source, prefix, count);
      return used.insert( value).second ? value : std::string{};
   }

   // ------------------------------------------------------------------ one file

   user::domain::Environment environment( Source& source, const char* prefix)
   {
      user::domain::Environment result;
      std::set< std::string> used;
      auto& variables = result.variables.emplace();
      source.repeat( 1, 4, 2, [ &]( auto)
      {
         if( auto name = key( source, used, prefix, 6); ! name.empty())
            variables.push_back( { name, source.pick( { "v1", "", "a=b", "with space", "${PATH}"})});
      });
      return result;
   }

   user::domain::service::Execution execution( Source& source)
   {
      user::domain::service::Execution result;
      auto& timeout = result.timeout.emplace();
      auto what = source.draw( 3);
      if( what != 1)
         timeout.duration = duration( source).text;
      if( what != 0)
         timeout.contract = source.pick( { "linger", "interrupt", "kill", "abort"});
      return result;
   }

   template< typename T>
   T executable( Source& source, const std::string& prefix, std::set< std::string>& used, bool& valid)
   {
      T result;
      result.path = source.pick( { "bin/", "/opt/x/", "", "./"}) + name( source, "prog", 3);
      if( source.chance( 50))
      {
         // sometimes what others get when they have none
         auto alias = source.chance( 20) ? source.pick( prefix == "exe" ? std::initializer_list< std::string>{ "prog1", "prog1.2"} : std::initializer_list< std::string>{ "prog2", "prog2.2"}) : name( source, prefix.c_str(), 6);
         if( used.insert( alias).second)
            result.alias = alias;
      }
      else if( source.chance( 10))
         result.alias = ""; // none
      result.note = maybe( source, 30, [ &](){ return note( source);});
      result.arguments = maybe( source, 30, [ &](){ return source.vector( 0, 3, 1, [ &](){ return std::string{ source.pick( { "--x", "a b", "", "7"})};});});
      result.instances = maybe( source, 40, [ &](){ return platform::size::type( source.integer( 0, 20));});
      if( valid == false && source.chance( 30))
         result.instances = -1 - source.draw( 3);
      result.memberships = maybe( source, 50, [ &](){ return some( source, "G");});
      result.environment = maybe( source, 25, [ &](){ return environment( source, "E");});
      result.restart = maybe( source, 30, [ &](){ return source.boolean();});
      return result;
   }

   user::domain::executable::Default executable_default( Source& source)
   {
      user::domain::executable::Default result;
      result.instances = source.chance( 50) ? source.integer( 0, 9) : 1;
      result.memberships = maybe( source, 50, [ &](){ return some( source, "G");});
      result.environment = maybe( source, 40, [ &](){ return environment( source, "E");});
      result.restart = source.boolean();
      return result;
   }

   user::domain::gateway::inbound::Limit limit( Source& source)
   {
      user::domain::gateway::inbound::Limit result;
      auto what = source.draw( 3);
      if( what != 1)
         result.size = source.integer( 1, 1 << 30);
      if( what != 0)
         result.messages = source.integer( 1, 1000);
      return result;
   }

   user::domain::gateway::Inbound inbound( Source& source, const char* prefix, std::set< std::string>& aliases)
   {
      user::domain::gateway::Inbound result;
      if( source.chance( 40))
      {
         auto& defaults = result.defaults.emplace();
         defaults.limit = maybe( source, 60, [ &](){ return limit( source);});
         if( source.chance( 50))
            defaults.connection.emplace().discovery = user::domain::gateway::inbound::connection::Discovery{ source.boolean()};
      }
      source.repeat( 0, 3, 1, [ &]( auto)
      {
         user::domain::gateway::inbound::Group group;
         if( source.chance( 60))
            if( auto alias = key( source, aliases, prefix, 6); ! alias.empty())
               group.alias = alias;
         // what others get when they have none
         if( ! group.alias && std::string_view{ prefix} == "in" && source.chance( 20) && aliases.insert( "inbound").second)
            group.alias = "inbound";
         group.limit = maybe( source, 40, [ &](){ return limit( source);});
         group.note = maybe( source, 30, [ &](){ return note( source);});
         std::set< std::string> used;
         source.repeat( 0, 3, 1, [ &]( auto)
         {
            auto address = key( source, used, "host:770", 6);
            if( address.empty())
               return;
            user::domain::gateway::inbound::Connection connection;
            connection.address = address;
            connection.discovery = maybe( source, 40, [ &](){ return user::domain::gateway::inbound::connection::Discovery{ source.boolean()};});
            connection.note = maybe( source, 20, [ &](){ return note( source);});
            connection.memberships = maybe( source, 30, [ &](){ return some( source, "G");});
            group.connections.push_back( std::move( connection));
         });
         result.groups.push_back( std::move( group));
      });
      return result;
   }

   user::domain::gateway::Outbound outbound( Source& source, const char* prefix, std::set< std::string>& aliases)
   {
      user::domain::gateway::Outbound result;
      source.repeat( 0, 3, 1, [ &]( auto)
      {
         user::domain::gateway::outbound::Group group;
         if( source.chance( 60))
            if( auto alias = key( source, aliases, prefix, 6); ! alias.empty())
               group.alias = alias;
         if( ! group.alias && std::string_view{ prefix} == "rout" && source.chance( 20) && aliases.insert( "outbound").second)
            group.alias = "outbound";
         group.order = maybe( source, 30, [ &](){ return platform::size::type( source.integer( 0, 30));});
         group.note = maybe( source, 30, [ &](){ return note( source);});
         std::set< std::string> used;
         source.repeat( 0, 3, 1, [ &]( auto)
         {
            auto address = key( source, used, "host:880", 6);
            if( address.empty())
               return;
            user::domain::gateway::outbound::Connection connection;
            connection.address = address;
            connection.services = maybe( source, 40, [ &](){ return some( source, "service");});
            connection.queues = maybe( source, 40, [ &](){ return some( source, "queue");});
            connection.note = maybe( source, 20, [ &](){ return note( source);});
            connection.memberships = maybe( source, 30, [ &](){ return some( source, "G");});
            group.connections.push_back( std::move( connection));
         });
         result.groups.push_back( std::move( group));
      });
      return result;
   }

   template< typename T>
   T forward( Source& source, const std::string& prefix, std::set< std::string>& aliases, bool& valid)
   {
      T result;
      result.source = name( source, "queue", 3);
      if( source.chance( 50))
         if( auto alias = key( source, aliases, prefix.c_str(), 5); ! alias.empty())
            result.alias = alias;
      if( ! result.alias && prefix == "f-fg1-s" && source.chance( 10) && aliases.insert( "queue1").second)
         result.alias = "queue1";
      result.instances = maybe( source, 40, [ &](){ return platform::size::type( source.integer( 0, 9));});
      if( valid == false && source.chance( 30))
         result.instances = -1 - source.draw( 3);
      result.note = maybe( source, 20, [ &](){ return note( source);});
      result.memberships = maybe( source, 30, [ &](){ return some( source, "G");});
      return result;
   }

   user::domain::queue::Queue::Retry retry( Source& source)
   {
      user::domain::queue::Queue::Retry result;
      auto what = source.draw( 3);
      if( what != 1)
         result.count = source.integer( 0, 20);
      if( what != 0)
         result.delay = duration( source).text;
      return result;
   }

   //! what all the files of a case know about each other
   struct Shared
   {
      std::optional< std::string> directory;
      int file = 0;
   };

   user::Model file( Source& source, const Shared& shared, bool valid)
   {
      user::Model result;

      if( source.chance( 30))
      {
         auto& resources = result.system.emplace().resources.emplace();
         std::set< std::string> used;
         source.repeat( 1, 3, 1, [ &]( auto)
         {
            user::system::Resource resource;
            resource.key = key( source, used, "key", 4);
            if( resource.key.empty())
               return;
            resource.server = name( source, "proxy");
            resource.xa_struct_name = name( source, "xa_switch");
            resource.note = maybe( source, 30, [ &](){ return note( source);});
            resource.libraries = maybe( source, 50, [ &](){ return some( source, "lib");});
            if( source.chance( 40))
            {
               resource.paths.emplace();
               resource.paths->include = maybe( source, 60, [ &](){ return some( source, "/include/");});
               resource.paths->library = maybe( source, 60, [ &](){ return some( source, "/lib/");});
            }
            resources.push_back( std::move( resource));
         });
         if( resources.empty())
            result.system.reset();
      }

      auto& domain = result.domain.emplace();
      domain.name = maybe( source, 40, [ &](){ return name( source, "domain");});

      if( source.chance( 25))
      {
         domain.global.emplace().service.emplace().execution = execution( source);
      }

      if( source.chance( 60))
      {
         auto& defaults = domain.defaults.emplace();
         defaults.note = maybe( source, 10, [ &](){ return note( source);});
         defaults.server = maybe( source, 60, [ &](){ return executable_default( source);});
         defaults.executable = maybe( source, 60, [ &](){ return executable_default( source);});
         if( source.chance( 60))
         {
            auto& service = defaults.service.emplace();
            service.execution = maybe( source, 60, [ &](){ return execution( source);});
            service.visibility = maybe( source, 40, [ &](){ return std::string{ source.pick( { "discoverable", "undiscoverable"})};});
         }
      }

      domain.environment = maybe( source, 30, [ &](){ return environment( source, "D");});

      if( source.chance( 60))
      {
         auto& groups = domain.groups.emplace();
         std::set< std::string> used;
         source.repeat( 0, 4, 3, [ &]( auto)
         {
            user::domain::Group group;
            group.name = key( source, used, "G", 4);
            if( group.name.empty())
               return;
            group.note = maybe( source, 20, [ &](){ return note( source);});
            group.enabled = maybe( source, 50, [ &](){ return source.chance( 70);});
            group.resources = maybe( source, 40, [ &](){ return some( source, "rm", 3);});
            group.dependencies = maybe( source, 50, [ &](){ return some( source, "G");});
            groups.push_back( std::move( group));
         });
      }

      if( source.chance( 40))
      {
         auto& transaction = domain.transaction.emplace();
         if( source.chance( 50))
         {
            auto& defaults = transaction.defaults.emplace();
            defaults.resource.key = maybe( source, 60, [ &](){ return name( source, "key", 3);});
            defaults.resource.instances = maybe( source, 60, [ &](){ return platform::size::type( source.integer( 0, 9));});
         }
         if( source.chance( 50))
            transaction.log = source.pick( { ":memory:", "/tmp/log.db"});
         std::set< std::string> used;
         source.repeat( 0, 3, 1, [ &]( auto)
         {
            user::domain::transaction::Resource resource;
            resource.name = key( source, used, "rm", 4);
            if( resource.name.empty())
               return;
            resource.key = maybe( source, 60, [ &](){ return name( source, "key", 3);});
            resource.instances = maybe( source, 50, [ &](){ return platform::size::type( source.integer( 0, 9));});
            if( ! valid && source.chance( 30))
               resource.instances = -1;
            resource.note = maybe( source, 20, [ &](){ return note( source);});
            resource.openinfo = maybe( source, 40, [ &](){ return note( source);});
            resource.closeinfo = maybe( source, 40, [ &](){ return note( source);});
            transaction.resources.push_back( std::move( resource));
         });
      }

      {
         std::set< std::string> used;
         if( source.chance( 60))
         {
            auto& servers = domain.servers.emplace();
            source.repeat( 0, 4, 2, [ &]( auto)
            {
               auto server = executable< user::domain::Server>( source, "server", used, valid);
               server.restrictions = maybe( source, 30, [ &](){ return some( source, "service");});
               server.resources = maybe( source, 40, [ &](){ return some( source, "rm", 3);});
               servers.push_back( std::move( server));
            });
         }
         if( source.chance( 50))
         {
            auto& executables = domain.executables.emplace();
            source.repeat( 0, 3, 1, [ &]( auto)
            {
               executables.push_back( executable< user::domain::Executable>( source, "exe", used, valid));
            });
         }
      }

      if( source.chance( 50))
      {
         auto& services = domain.services.emplace();
         std::set< std::string> used;
         source.repeat( 0, 4, 2, [ &]( auto)
         {
            user::domain::Service service;
            service.name = key( source, used, "service", 5);
            if( service.name.empty())
               return;
            service.note = maybe( source, 20, [ &](){ return note( source);});
            service.execution = maybe( source, 50, [ &](){ return execution( source);});
            service.routes = maybe( source, 30, [ &](){ return some( source, "route");});
            service.visibility = maybe( source, 40, [ &](){ return std::string{ source.pick( { "discoverable", "undiscoverable"})};});
            services.push_back( std::move( service));
         });
      }

      if( source.chance( 40))
      {
         auto& gateway = domain.gateway.emplace();
         std::set< std::string> aliases;
         if( source.chance( 60))
            gateway.inbound = inbound( source, "in", aliases);
         if( source.chance( 60))
            gateway.outbound = outbound( source, "out", aliases);
         if( source.chance( 40))
         {
            auto& reverse = gateway.reverse.emplace();
            if( source.chance( 60))
               reverse.inbound = inbound( source, "rin", aliases);
            if( source.chance( 60))
               reverse.outbound = outbound( source, "rout", aliases);
         }
      }

      if( source.chance( 50))
      {
         auto& queue = domain.queue.emplace();
         queue.note = maybe( source, 20, [ &](){ return note( source);});

         if( source.chance( 50) || shared.directory)
         {
            auto& defaults = queue.defaults.emplace();
            if( source.chance( 60))
               defaults.queue.emplace().retry = maybe( source, 80, [ &](){ return retry( source);});
            defaults.directory = shared.directory;
         }
         std::set< std::string> used;
         auto& groups = queue.groups.emplace();
         source.repeat( 0, 3, 1, [ &]( auto)
         {
            user::domain::queue::Group group;
            auto alias = key( source, used, "qg", 4);
            if( alias.empty())
               return;
            group.alias = alias;
            group.queuebase = maybe( source, 50, [ &](){ return std::string{ source.pick( { ":memory:", "/tmp/a.qb", "/tmp/b.qb"})};});
            group.note = maybe( source, 20, [ &](){ return note( source);});
            if( source.chance( 40))
               group.capacity.emplace().size = maybe( source, 90, [ &](){ return bytes( source).text;});
            std::set< std::string> queues;
            source.repeat( 0, 4, 2, [ &]( auto)
            {
               user::domain::queue::Queue queue;
               queue.name = key( source, queues, "queue", 6);
               if( queue.name.empty())
                  return;
               queue.retry = maybe( source, 50, [ &](){ return retry( source);});
               queue.enable = maybe( source, 30, [ &](){ return user::domain::queue::Queue::Enable{ source.boolean(), source.boolean()};});
               queue.note = maybe( source, 20, [ &](){ return note( source);});
               group.queues.push_back( std::move( queue));
            });
            groups.push_back( std::move( group));
         });

         if( source.chance( 50))
         {
            auto& forwards = queue.forward.emplace();
            if( source.chance( 50))
            {
               auto& defaults = forwards.defaults.emplace();
               if( source.chance( 60))
               {
                  auto& service = defaults.service.emplace();
                  service.instances = maybe( source, 60, [ &](){ return platform::size::type( source.integer( 0, 9));});
                  if( source.chance( 60))
                     service.reply.emplace().delay = duration( source).text;
               }
               if( source.chance( 60))
               {
                  auto& queue = defaults.queue.emplace();
                  queue.instances = maybe( source, 60, [ &](){ return platform::size::type( source.integer( 0, 9));});
                  if( source.chance( 60))
                     queue.target.emplace().delay = duration( source).text;
               }
            }
            std::set< std::string> used, aliases;
            auto& groups = forwards.groups.emplace();
            source.repeat( 0, 3, 1, [ &]( auto)
            {
               user::domain::queue::forward::Group group;
               if( source.chance( 60))
                  if( auto alias = key( source, used, "fg", 4); ! alias.empty())
                     group.alias = alias;
               if( ! group.alias && source.chance( 10) && used.insert( "forward").second)
                  group.alias = "forward";
               group.note = maybe( source, 20, [ &](){ return note( source);});
               group.memberships = maybe( source, 30, [ &](){ return some( source, "G");});
               const auto prefix = group.alias ? cat( "f-", *group.alias, '-') : cat( "f-", shared.file, '-', groups.size(), '-');
               if( source.chance( 70))
                  group.services = source.vector( 0, 3, 1, [ &]()
                  {
                     auto result = forward< user::domain::queue::forward::Service>( source, prefix + "s", aliases, valid);
                     result.target.service = name( source, "service");
                     if( source.chance( 50))
                     {
                        auto& reply = result.reply.emplace();
                        reply.queue = name( source, "queue");
                        reply.delay = maybe( source, 50, [ &](){ return duration( source).text;});
                     }
                     return result;
                  });
               if( source.chance( 70))
                  group.queues = source.vector( 0, 3, 1, [ &]()
                  {
                     auto result = forward< user::domain::queue::forward::Queue>( source, prefix + "q", aliases, valid);
                     result.target.queue = name( source, "queue");
                     result.target.delay = maybe( source, 50, [ &](){ return duration( source).text;});
                     return result;
                  });
               groups.push_back( std::move( group));
            });
         }
      }

      return result;
   }

   // ------------------------------------------------------------------ old forms of the same

   //! @returns a file that says the same as `current`, with forms that are deprecated
   user::Model deprecated( Source& source, user::Model current)
   {
      if( current.system && source.chance( 30))
      {
         current.resources = std::move( current.system->resources);
         current.system.reset();
         source.label( "old resources");
      }

      if( ! current.domain)
         return current;
      auto& domain = *current.domain;

      if( domain.global && domain.global->service && source.chance( 30))
      {
         domain.service = std::move( domain.global->service);
         domain.global.reset();
         source.label( "old global service");
      }

      auto old_timeout = [ &]( auto& value)
      {
         if( ! value.execution || ! value.execution->timeout || ! value.execution->timeout->duration || ! source.chance( 30))
            return;
         value.timeout = std::move( value.execution->timeout->duration);
         value.execution->timeout->duration.reset();
         if( ! value.execution->timeout->contract)
            value.execution.reset();
         source.label( "old timeout");
      };

      if( domain.defaults && domain.defaults->service)
         old_timeout( *domain.defaults->service);
      if( domain.services)
         for( auto& service : *domain.services)
            old_timeout( service);

      if( domain.environment && ( ! domain.defaults || ! domain.defaults->environment) && source.chance( 30))
      {
         if( ! domain.defaults)
            domain.defaults.emplace();
         domain.defaults->environment = std::move( domain.environment);
         domain.environment.reset();
         source.label( "old environment");
      }

      if( domain.queue)
      {
         auto old_retry = [ &]( auto& value)
         {
            if( ! value.retry || ! value.retry->count || ! source.chance( 30))
               return;
            value.retries = std::move( value.retry->count);
            value.retry->count.reset();
            if( ! value.retry->delay)
               value.retry.reset();
            source.label( "old retries");
         };
         if( domain.queue->defaults && domain.queue->defaults->queue)
            old_retry( *domain.queue->defaults->queue);
         if( domain.queue->groups)
            for( auto& group : *domain.queue->groups)
            {
               for( auto& queue : group.queues)
                  old_retry( queue);
               if( source.chance( 20))
                  group.name = std::exchange( group.alias, std::nullopt);
            }
      }
      return current;
   }

   // ------------------------------------------------------------------ reference

   namespace reference
   {
      template< typename T>
      auto first( const std::optional< T>& value, const std::optional< T>& otherwise, T last = {})
      {
         return value ? *value : otherwise ? *otherwise : last;
      }

      std::chrono::nanoseconds time( const std::string& value)
      {
         // sum of <count><unit>
         static const std::map< std::string, long long> units{
            { "", 1'000'000'000}, { "s", 1'000'000'000}, { "ms", 1'000'000}, { "us", 1000}, { "ns", 1}, { "min", 60'000'000'000}, { "h", 3'600'000'000'000}, { "d", 86'400'000'000'000}};
         long long result = 0;
         std::istringstream in{ value};
         std::string part;
         while( std::getline( in, part, '+'))
         {
            part.erase( std::remove( part.begin(), part.end(), ' '), part.end());
            auto pivot = part.find_first_not_of( "0123456789");
            auto unit = pivot == std::string::npos ? std::string{} : part.substr( pivot);
            result += std::stoll( part) * units.at( unit);
         }
         return std::chrono::nanoseconds{ result};
      }

      long long size( std::string value)
      {
         static const std::map< std::string, long long> units{
            { "", 1}, { "B", 1}, { "kB", 1000}, { "KiB", 1024}, { "MB", 1'000'000}, { "MiB", 1 << 20}, { "GB", 1'000'000'000}, { "GiB", 1 << 30}, { "TB", 1'000'000'000'000}, { "TiB", 1ll << 40}};
         value.erase( std::remove( value.begin(), value.end(), ' '), value.end());
         auto pivot = value.find_first_not_of( "0123456789");
         return std::stoll( value) * units.at( pivot == std::string::npos ? std::string{} : value.substr( pivot));
      }

      std::vector< common::environment::Variable> variables( const std::optional< user::domain::Environment>& environment)
      {
         std::vector< common::environment::Variable> result;
         if( environment && environment->variables)
            for( auto& variable : *environment->variables)
               result.emplace_back( variable.key + "=" + variable.value);
         return result;
      }

      model::service::Timeout timeout( const std::optional< user::domain::service::Execution>& value, const std::optional< user::domain::service::Execution>& defaults)
      {
         namespace contract = common::service::execution::timeout::contract;
         static const std::map< std::string, contract::Type> contracts{ { "linger", contract::Type::linger}, { "kill", contract::Type::kill}, { "interrupt", contract::Type::interrupt}, { "abort", contract::Type::abort}};
         model::service::Timeout result;
         for( auto* execution : { &defaults, &value})
            if( *execution && (*execution)->timeout)
            {
               auto& timeout = *(*execution)->timeout;
               if( timeout.duration)
                  result.duration = time( *timeout.duration);
               if( timeout.contract)
                  result.contract = contracts.at( *timeout.contract);
            }
         return result;
      }

      //! entities whose alias is generated, the rest of what is known about servers
      struct Server
      {
         model::domain::Server value;
         std::set< std::string> resources;
         names restrictions;
         //! of an alias that more than one file has: what other files say about these is not told
         bool sure_resources = true, sure_restrictions = true;
      };

      struct Model
      {
         configuration::Model model;         // but servers, mappings and restrictions
         std::vector< Server> servers;
      };

      template< typename T, typename P>
      void replace( std::vector< T>& target, std::vector< T> source, P&& same)
      {
         for( auto& value : source)
         {
            auto found = std::find_if( target.begin(), target.end(), [ &]( auto& other){ return same( other, value);});
            if( found == target.end())
               target.push_back( std::move( value));
            else
               *found = std::move( value);
         }
      }

      template< typename T, typename P, typename U>
      void update( std::vector< T>& target, std::vector< T> source, P&& same, U&& merge)
      {
         for( auto& value : source)
         {
            auto found = std::find_if( target.begin(), target.end(), [ &]( auto& other){ return same( other, value);});
            if( found == target.end())
               target.push_back( std::move( value));
            else
               merge( *found, std::move( value));
         }
      }

      auto alias = []( auto& l, auto& r){ return ! l.alias.empty() && l.alias == r.alias;};
      auto named = []( auto& l, auto& r){ return ! l.name.empty() && l.name == r.name;};
      auto address = []( auto& l, auto& r){ return l.address == r.address;};

      void text( std::string& target, const std::string& source) { if( ! source.empty()) target = source;}

      template< typename T, typename U>
      T executable( const U& source, const std::optional< user::domain::executable::Default>& defaults)
      {
         T result;
         result.path = source.path;
         result.alias = source.alias.value_or( "");
         result.note = source.note.value_or( "");
         result.arguments = source.arguments.value_or( names{});
         result.instances = source.instances ? *source.instances : defaults ? defaults->instances : 1;
         result.memberships = first( source.memberships, defaults ? defaults->memberships : std::nullopt);
         result.environment.variables = variables( source.environment ? source.environment : defaults ? defaults->environment : std::nullopt);
         result.lifetime.restart = source.restart ? *source.restart : defaults ? defaults->restart : false;
         return result;
      }

      //! adds the content of a file
      void add( Model& current, const user::Model& file)
      {
         auto& result = current.model;

         if( file.system && file.system->resources)
         {
            std::vector< model::system::Resource> resources;
            for( auto& resource : *file.system->resources)
            {
               auto& value = resources.emplace_back();
               value.key = resource.key;
               value.server = resource.server;
               value.xa_struct_name = resource.xa_struct_name;
               value.note = resource.note.value_or( "");
               value.libraries = resource.libraries.value_or( names{});
               if( resource.paths)
               {
                  value.paths.include = resource.paths->include.value_or( names{});
                  value.paths.library = resource.paths->library.value_or( names{});
               }
            }
            replace( result.system.resources, std::move( resources), []( auto& l, auto& r){ return l.key == r.key;});
         }

         if( ! file.domain)
            return;
         auto& domain = *file.domain;

         text( result.domain.name, domain.name.value_or( ""));
         replace( result.domain.environment.variables, variables( domain.environment), []( auto& l, auto& r){ return l.name() == r.name();});

         if( domain.groups)
            for( auto& group : *domain.groups)
            {
               model::domain::Group value;
               value.name = group.name;
               value.note = group.note.value_or( "");
               value.enabled = group.enabled.value_or( true);
               value.dependencies = group.dependencies.value_or( names{});
               replace( result.domain.groups, { value}, named);
            }

         auto defaults = domain.defaults.value_or( user::domain::Default{});

         if( domain.executables)
            for( auto& executable : *domain.executables)
               replace( result.domain.executables, { reference::executable< model::domain::Executable>( executable, defaults.executable)}, alias);

         if( domain.servers)
            for( auto& server : *domain.servers)
            {
               Server value;
               value.value = executable< model::domain::Server>( server, defaults.server);
               for( auto& resource : server.resources.value_or( names{}))
                  value.resources.insert( resource);
               // the resources of the groups it is a member of
               for( auto& membership : value.value.memberships)
                  if( domain.groups)
                     for( auto& group : *domain.groups)
                        if( group.name == membership)
                           for( auto& resource : group.resources.value_or( names{}))
                              value.resources.insert( resource);
               value.restrictions = server.restrictions.value_or( names{});
               update( current.servers, { value}, []( auto& l, auto& r){ return alias( l.value, r.value);}, []( auto& l, auto r)
               {
                  r.sure_resources = ! r.resources.empty() || ( l.sure_resources && l.resources.empty());
                  r.sure_restrictions = ! r.restrictions.empty() || ( l.sure_restrictions && l.restrictions.empty());
                  l = std::move( r);
               });
            }

         if( domain.global && domain.global->service)
         {
            auto timeout = reference::timeout( domain.global->service->execution, {});
            if( timeout.duration)
               result.service.global.timeout.duration = timeout.duration;
            if( timeout.contract)
               result.service.global.timeout.contract = timeout.contract;
         }

         if( domain.services)
            for( auto& service : *domain.services)
            {
               auto service_defaults = defaults.service.value_or( user::domain::service::Default{});
               model::service::Service value;
               value.name = service.name;
               value.note = service.note.value_or( "");
               value.routes = service.routes.value_or( names{});
               value.timeout = timeout( service.execution, service_defaults.execution);
               auto visibility = service.visibility ? service.visibility : service_defaults.visibility;
               if( visibility)
                  value.visibility = *visibility == "discoverable" ? common::service::visibility::Type::discoverable : common::service::visibility::Type::undiscoverable;
               replace( result.service.services, { value}, named);
            }

         if( domain.transaction)
         {
            auto& transaction = *domain.transaction;
            text( result.transaction.log, transaction.log);
            auto resource_defaults = transaction.defaults ? transaction.defaults->resource : user::domain::transaction::resource::Default{};
            for( auto& resource : transaction.resources)
            {
               model::transaction::Resource value;
               value.name = resource.name;
               value.key = first( resource.key, resource_defaults.key);
               value.instances = first( resource.instances, resource_defaults.instances, platform::size::type{ 1});
               value.note = resource.note.value_or( "");
               value.openinfo = resource.openinfo.value_or( "");
               value.closeinfo = resource.closeinfo.value_or( "");
               replace( result.transaction.resources, { value}, named);
            }
         }

         if( domain.gateway)
         {
            using Semantic = model::gateway::connect::Semantic;

            auto same_group = []( auto& l, auto& r){ return alias( l, r) && l.connect == r.connect;};

            auto inbounds = [ &]( const std::optional< user::domain::gateway::Inbound>& source, Semantic semantic)
            {
               if( ! source)
                  return;
               auto defaults = source->defaults.value_or( user::domain::gateway::inbound::Default{});
               for( auto& group : source->groups)
               {
                  model::gateway::inbound::Group value;
                  value.connect = semantic;
                  value.alias = group.alias.value_or( "");
                  value.note = group.note.value_or( "");
                  auto limit = group.limit.value_or( user::domain::gateway::inbound::Limit{});
                  auto limit_defaults = defaults.limit.value_or( user::domain::gateway::inbound::Limit{});
                  value.limit.size = first( limit.size, limit_defaults.size);
                  value.limit.messages = first( limit.messages, limit_defaults.messages);
                  for( auto& connection : group.connections)
                  {
                     auto& target = value.connections.emplace_back();
                     target.address = connection.address;
                     target.note = connection.note.value_or( "");
                     target.memberships = connection.memberships.value_or( names{});
                     auto discovery = connection.discovery ? connection.discovery : defaults.connection ? defaults.connection->discovery : std::nullopt;
                     if( discovery && discovery->forward)
                        target.discovery = model::gateway::inbound::connection::discovery::Directive::forward;
                  }
                  update( result.gateway.inbound.groups, { value}, same_group, []( auto& l, auto r)
                  {
                     text( l.note, r.note);
                     if( r.limit)
                        l.limit = r.limit;
                     update( l.connections, std::move( r.connections), address, []( auto& l, auto r)
                     {
                        text( l.note, r.note);
                        l.discovery = r.discovery;
                        if( ! r.memberships.empty())
                           l.memberships = r.memberships;
                     });
                  });
               }
            };

            auto outbounds = [ &]( const std::optional< user::domain::gateway::Outbound>& source, Semantic semantic)
            {
               if( ! source)
                  return;
               auto unique = []( auto& target, auto& source)
               {
                  for( auto& value : source)
                     if( std::find( target.begin(), target.end(), value) == target.end())
                        target.push_back( value);
               };
               platform::size::type implied{};
               for( auto& group : source->groups)
               {
                  ++implied;
                  model::gateway::outbound::Group value;
                  value.connect = semantic;
                  value.alias = group.alias.value_or( "");
                  value.note = group.note.value_or( "");
                  value.order = group.order.value_or( implied);
                  for( auto& connection : group.connections)
                  {
                     auto& target = value.connections.emplace_back();
                     target.address = connection.address;
                     target.note = connection.note.value_or( "");
                     target.memberships = connection.memberships.value_or( names{});
                     target.services = connection.services.value_or( names{});
                     target.queues = connection.queues.value_or( names{});
                  }
                  update( result.gateway.outbound.groups, { value}, same_group, [ &]( auto& l, auto r)
                  {
                     text( l.note, r.note);
                     update( l.connections, std::move( r.connections), address, [ &]( auto& l, auto r)
                     {
                        text( l.note, r.note);
                        unique( l.services, r.services);
                        unique( l.queues, r.queues);
                        if( ! r.memberships.empty())
                           l.memberships = r.memberships;
                     });
                  });
               }
            };

            auto& gateway = *domain.gateway;
            inbounds( gateway.inbound, Semantic::regular);
            outbounds( gateway.outbound, Semantic::regular);
            if( gateway.reverse)
            {
               inbounds( gateway.reverse->inbound, Semantic::reversed);
               outbounds( gateway.reverse->outbound, Semantic::reversed);
            }
         }

         if( domain.queue)
         {
            auto& queue = *domain.queue;
            text( result.queue.note, queue.note.value_or( ""));
            auto retry_default = queue.defaults && queue.defaults->queue && queue.defaults->queue->retry ? *queue.defaults->queue->retry : user::domain::queue::Queue::Retry{};

            if( queue.groups)
               for( auto& group : *queue.groups)
               {
                  model::queue::Group value;
                  value.alias = group.alias.value_or( "");
                  value.queuebase = group.queuebase.value_or( "");
                  value.note = group.note.value_or( "");
                  if( queue.defaults)
                     value.directory = queue.defaults->directory.value_or( "");
                  if( group.capacity && group.capacity->size)
                     value.capacity = size( *group.capacity->size);
                  for( auto& queue : group.queues)
                  {
                     auto& target = value.queues.emplace_back();
                     target.name = queue.name;
                     target.note = queue.note.value_or( "");
                     auto retry = queue.retry.value_or( user::domain::queue::Queue::Retry{});
                     target.retry.count = first( retry.count, retry_default.count);
                     if( auto delay = retry.delay ? retry.delay : retry_default.delay)
                        target.retry.delay = time( *delay);
                     if( queue.enable)
                        target.enable = { queue.enable->enqueue, queue.enable->dequeue};
                  }
                  update( result.queue.groups, { value}, alias, []( auto& l, auto r)
                  {
                     text( l.note, r.note);
                     text( l.queuebase, r.queuebase);
                     text( l.directory, r.directory);
                     if( r.capacity)
                        l.capacity = r.capacity;
                     replace( l.queues, std::move( r.queues), named);
                  });
               }

            if( queue.forward && queue.forward->groups)
            {
               auto defaults = queue.forward->defaults.value_or( user::domain::queue::forward::Default{});
               auto base = []( auto& source, auto& defaults, auto& target)
               {
                  target.alias = source.alias.value_or( "");
                  target.source = source.source;
                  target.note = source.note.value_or( "");
                  target.memberships = source.memberships.value_or( names{});
                  target.instances = first( source.instances, defaults ? defaults->instances : std::nullopt, platform::size::type{ 1});
               };
               for( auto& group : *queue.forward->groups)
               {
                  model::queue::forward::Group value;
                  value.alias = group.alias.value_or( "");
                  value.note = group.note.value_or( "");
                  value.memberships = group.memberships.value_or( names{});
                  if( group.services)
                     for( auto& service : *group.services)
                     {
                        auto& target = value.services.emplace_back();
                        base( service, defaults.service, target);
                        target.target.service = service.target.service;
                        if( service.reply)
                        {
                           target.reply.emplace().queue = service.reply->queue;
                           if( service.reply->delay)
                              target.reply->delay = time( *service.reply->delay);
                           else if( defaults.service && defaults.service->reply)
                              target.reply->delay = time( defaults.service->reply->delay);
                        }
                     }
                  if( group.queues)
                     for( auto& queue : *group.queues)
                     {
                        auto& target = value.queues.emplace_back();
                        base( queue, defaults.queue, target);
                        target.target.queue = queue.target.queue;
                        if( queue.target.delay)
                           target.target.delay = time( *queue.target.delay);
                        else if( defaults.queue && defaults.queue->target)
                           target.target.delay = time( defaults.queue->target->delay);
                     }
                  update( result.queue.forward.groups, { value}, alias, []( auto& l, auto r)
                  {
                     text( l.note, r.note);
                     if( ! r.memberships.empty())
                        l.memberships = r.memberships;
                     replace( l.services, std::move( r.services), alias);
                     replace( l.queues, std::move( r.queues), alias);
                  });
               }
            }
         }
      }

      bool enabled( const std::vector< model::domain::Group>& groups, const names& memberships)
      {
         std::set< std::string> seen;
         names pending = memberships;
         while( ! pending.empty())
         {
            auto name = pending.back();
            pending.pop_back();
            if( ! seen.insert( name).second)
               continue;
            for( auto& group : groups)
               if( group.name == name)
               {
                  if( ! group.enabled)
                     return false;
                  pending.insert( pending.end(), group.dependencies.begin(), group.dependencies.end());
               }
         }
         return true;
      }
   } // reference

   // ------------------------------------------------------------------ comparing

   //! gives `expected` the alias of `actual`, if it is to be generated
   template< typename E, typename A>
   void generated( E& expected, A& actual, const std::string& prospect, std::set< std::string>& used)
   {
      if( expected.alias.empty())
      {
         auto rest = std::string_view{ actual.alias};
         require( rest.substr( 0, prospect.size()) == prospect, "generated alias ", show( actual.alias), " does not start with ", show( prospect));
         rest.remove_prefix( prospect.size());
         require( rest.empty() || ( rest.front() == '.' && rest.find_first_not_of( ".0123456789") == std::string_view::npos), "generated alias ", show( actual.alias), " for ", show( prospect));
         expected.alias = actual.alias;
      }
      require( used.insert( actual.alias).second, "alias ", show( actual.alias), " is not unique");
   }

   template< typename T>
   void equal( const char* what, T expected, T actual)
   {
      if( expected == actual)
         return;
      pbt::fail( what, " differs\nexpected: ", text( expected), "\nactual:   ", text( actual));
   }

   template< typename T>
   void equal_elements( const char* what, const std::vector< T>& expected, const std::vector< T>& actual)
   {
      require( expected.size() == actual.size(), what, ": ", actual.size(), " elements, expected ", expected.size());
      for( std::size_t index = 0; index < expected.size(); ++index)
         equal( what, expected[ index], actual[ index]);
   }

   //! checks `actual` against `expected`
   void verify( reference::Model expected, const configuration::Model& actual)
   {
      auto& model = expected.model;

      equal_elements( "system resource", model.system.resources, actual.system.resources);
      equal( "domain name", model.domain.name, actual.domain.name);
      equal_elements( "domain environment", model.domain.environment.variables, actual.domain.environment.variables);
      equal_elements( "group", model.domain.groups, actual.domain.groups);

      // executables and servers
      {
         std::set< std::string> used;
         require( model.domain.executables.size() == actual.domain.executables.size(), "number of executables ", actual.domain.executables.size(), " expected ", model.domain.executables.size());
         require( expected.servers.size() == actual.domain.servers.size(), "number of servers ", actual.domain.servers.size(), " expected ", expected.servers.size());

         for( std::size_t index = 0; index < actual.domain.executables.size(); ++index)
         {
            auto& value = model.domain.executables[ index];
            generated( value, actual.domain.executables[ index], value.path.filename(), used);
            value.enabled = reference::enabled( model.domain.groups, value.memberships);
            equal( "executable", value, actual.domain.executables[ index]);
         }
         for( std::size_t index = 0; index < actual.domain.servers.size(); ++index)
         {
            auto& value = expected.servers[ index].value;
            auto& server = expected.servers[ index];
            generated( value, actual.domain.servers[ index], value.path.filename(), used);
            value.enabled = reference::enabled( model.domain.groups, value.memberships);
            equal( "server", value, actual.domain.servers[ index]);

            if( server.sure_resources)
            {
               std::set< std::string> resources;
               for( auto& mapping : actual.transaction.mappings)
                  if( mapping.alias == value.alias)
                     for( auto& resource : mapping.resources)
                        require( resources.insert( resource).second, "server ", value.alias, " has resource ", resource, " twice");
               require( resources == server.resources, "resources of server ", value.alias, ": ", resources.size(), " expected ", server.resources.size());
            }
            if( server.sure_restrictions)
            {
               names restrictions;
               for( auto& restriction : actual.service.restriction.servers)
                  if( restriction.alias == value.alias)
                     restrictions.insert( restrictions.end(), restriction.services.begin(), restriction.services.end());
               require( restrictions == server.restrictions, "restrictions of server ", value.alias, ": ", restrictions.size(), " expected ", server.restrictions.size());
            }
         }
         for( auto& mapping : actual.transaction.mappings)
            require( used.contains( mapping.alias), "resources for the alias ", mapping.alias, " that no server has");
         for( auto& restriction : actual.service.restriction.servers)
            require( used.contains( restriction.alias), "restrictions for the alias ", restriction.alias, " that no server has");
      }

      equal( "global timeout", model.service.global.timeout, actual.service.global.timeout);
      equal_elements( "service", model.service.services, actual.service.services);
      equal( "transaction log", model.transaction.log, actual.transaction.log);
      equal_elements( "resource", model.transaction.resources, actual.transaction.resources);

      // gateway
      {
         std::set< std::string> used;
         auto groups = [ &]( auto& expected, auto& actual, const char* what, const char* reverse)
         {
            require( expected.size() == actual.size(), what, ": ", actual.size(), " expected ", expected.size());
            for( std::size_t index = 0; index < expected.size(); ++index)
            {
               generated( expected[ index], actual[ index], expected[ index].connect == model::gateway::connect::Semantic::reversed ? reverse : what, used);
               for( auto& connection : expected[ index].connections)
                  connection.enabled = reference::enabled( model.domain.groups, connection.memberships);
               equal( what, expected[ index], actual[ index]);
            }
         };
         groups( model.gateway.inbound.groups, actual.gateway.inbound.groups, "inbound", "reverse.inbound");
         groups( model.gateway.outbound.groups, actual.gateway.outbound.groups, "outbound", "reverse.outbound");
      }

      // queue
      equal( "queue note", model.queue.note, actual.queue.note);
      equal_elements( "queue group", model.queue.groups, actual.queue.groups);
      {
         std::set< std::string> used;
         auto& groups = model.queue.forward.groups;
         require( groups.size() == actual.queue.forward.groups.size(), "number of forward groups");
         for( std::size_t index = 0; index < groups.size(); ++index)
         {
            auto& group = actual.queue.forward.groups[ index];
            generated( groups[ index], group, "forward", used);
            require( groups[ index].services.size() == group.services.size(), "number of forward services");
            require( groups[ index].queues.size() == group.queues.size(), "number of forward queues");
            for( std::size_t forward = 0; forward < group.services.size(); ++forward)
               generated( groups[ index].services[ forward], group.services[ forward], group.services[ forward].source, used);
            for( std::size_t forward = 0; forward < group.queues.size(); ++forward)
               generated( groups[ index].queues[ forward], group.queues[ forward], group.queues[ forward].source, used);
            equal( "forward group", groups[ index], group);
         }
      }
   }

   //! regular groups before reversed: what an exported configuration has
   configuration::Model canonical( configuration::Model model)
   {
      auto regular = []( auto& group){ return group.connect != model::gateway::connect::Semantic::reversed;};
      std::stable_partition( model.gateway.inbound.groups.begin(), model.gateway.inbound.groups.end(), regular);
      std::stable_partition( model.gateway.outbound.groups.begin(), model.gateway.outbound.groups.end(), regular);

      // where the group is stored
      for( auto& group : model.queue.groups)
      {
         if( group.queuebase.empty() && ! group.directory.empty())
            group.queuebase = group.directory + "/" + group.alias + ".qb";
         group.directory = {};
      }

      for( auto& mapping : model.transaction.mappings)
         std::sort( mapping.resources.begin(), mapping.resources.end());

      // of servers that are not there
      auto alias = []( auto& l, auto& r){ return l.alias < r.alias;};
      std::sort( model.transaction.mappings.begin(), model.transaction.mappings.end(), alias);
      std::sort( model.service.restriction.servers.begin(), model.service.restriction.servers.end(), alias);
      return model;
   }

   void write( const std::string& path, const std::string& format, const user::Model& model)
   {
      auto writer = common::serialize::create::writer::from( format);
      writer << model;
      std::ofstream out{ path};
      writer.consume( out);
   }

   // ------------------------------------------------------------------ properties

   auto keys( const auto& range, auto key)
   {
      std::set< std::string> result;
      for( auto& value : range)
         result.insert( key( value));
      return result;
   }

   //! keyed lists of two models, and of the three set operations
   template< typename R, typename K>
   void set_laws( const char* what, K key, const R& a, const R& b, const R& in_union, const R& difference, const R& intersection)
   {
      auto find = [ &]( const R& range, const std::string& value)
      {
         return std::find_if( range.begin(), range.end(), [ &]( auto& element){ return key( element) == value;});
      };
      auto A = keys( a, key), B = keys( b, key);

      std::set< std::string> all = A, left, both;
      all.insert( B.begin(), B.end());
      for( auto& value : A)
         ( B.contains( value) ? both : left).insert( value);

      require( keys( in_union, key) == all && in_union.size() == all.size(), what, ": union");
      require( keys( difference, key) == left && difference.size() == left.size(), what, ": difference");
      require( keys( intersection, key) == both && intersection.size() == both.size(), what, ": intersection");

      for( auto& value : difference)
         require( value == *find( a, key( value)), what, ": difference changes ", key( value));
      for( auto& value : in_union)
      {
         if( ! B.contains( key( value)))
            require( value == *find( a, key( value)), what, ": union changes ", key( value));
         else if( ! A.contains( key( value)))
            require( value == *find( b, key( value)), what, ": union changes the other's ", key( value));
      }
   }

   void operations( Source& source, const configuration::Model& a, const configuration::Model& b)
   {
      auto in_union = set_union( a, b);
      auto difference = set_difference( a, b);
      auto intersection = set_intersection( a, b);

      auto laws = [ &]( const char* what, auto key, auto select)
      {
         set_laws( what, key, select( a), select( b), select( in_union), select( difference), select( intersection));
      };

      auto alias = []( auto& value){ return value.alias;};
      auto name = []( auto& value){ return value.name;};

      laws( "system resources", []( auto& value){ return value.key;}, []( auto& model) -> auto& { return model.system.resources;});
      laws( "environment", []( auto& value){ return std::string{ value.name()};}, []( auto& model) -> auto& { return model.domain.environment.variables;});
      laws( "groups", name, []( auto& model) -> auto& { return model.domain.groups;});
      laws( "servers", alias, []( auto& model) -> auto& { return model.domain.servers;});
      laws( "executables", alias, []( auto& model) -> auto& { return model.domain.executables;});
      laws( "services", name, []( auto& model) -> auto& { return model.service.services;});
      laws( "resources", name, []( auto& model) -> auto& { return model.transaction.resources;});
      laws( "mappings", alias, []( auto& model) -> auto& { return model.transaction.mappings;});
      laws( "queue groups", alias, []( auto& model) -> auto& { return model.queue.groups;});
      laws( "forward groups", alias, []( auto& model) -> auto& { return model.queue.forward.groups;});
      auto connect = []( auto& value){ return cat( value.alias, '/', int( value.connect));};
      laws( "inbound", connect, []( auto& model) -> auto& { return model.gateway.inbound.groups;});
      laws( "outbound", connect, []( auto& model) -> auto& { return model.gateway.outbound.groups;});

      // what a running domain is to do to get from a to b
      auto change = [ &]( const char* what, auto current, auto wanted, auto key)
      {
         auto same = [ key]( auto& l, auto& r){ return key( l) == key( r);};
         auto result = model::change::concrete::calculate( current, wanted, same);
         auto find = []( auto& range, auto& value, auto same){ return std::find_if( range.begin(), range.end(), [ &]( auto& other){ return same( other, value);});};

         // apply
         for( auto& value : result.removed)
         {
            auto found = find( current, value, same);
            require( found != current.end(), what, ": removes what is not there");
            current.erase( found);
         }
         for( auto& value : result.modified)
         {
            auto found = find( current, value, same);
            require( found != current.end(), what, ": modifies what is not there");
            require( ! ( *found == value), what, ": modifies what is the same");
            *found = value;
         }
         for( auto& value : result.added)
         {
            require( find( current, value, same) == current.end(), what, ": adds what is there");
            current.push_back( value);
         }
         auto sort = [ key]( auto& range){ std::sort( range.begin(), range.end(), [ key]( auto& l, auto& r){ return key( l) < key( r);});};
         sort( current);
         sort( wanted);
         require( current == wanted, what, ": the changes do not lead to what is wanted");
      };
      change( "servers", a.domain.servers, b.domain.servers, alias);
      change( "executables", a.domain.executables, b.domain.executables, alias);
      change( "groups", a.domain.groups, b.domain.groups, name);
      change( "queue groups", a.queue.groups, b.queue.groups, alias);
      change( "resources", a.transaction.resources, b.transaction.resources, name);
      source.label( "set operations");
   }

   void property( Source& source)
   {
      const auto directory = source.scratch;
      std::filesystem::create_directories( directory);

      Shared shared;
      if( source.chance( 30))
         shared.directory = "/some/directory";

      const bool valid = ! source.chance( 10);

      std::vector< user::Model> files;
      std::size_t count = 0;
      source.repeat( 1, 3, 1, [ &]( auto)
      {
         shared.file = ++count;
         if( source.chance( 20))
            shared.directory = source.pick( { "/some/directory", "/other/directory"});
         files.push_back( file( source, shared, valid));
      });

      reference::Model expected;
      for( auto& file : files)
         reference::add( expected, file);

      std::vector< std::filesystem::path> paths;
      std::size_t index = 0;
      for( auto& file : files)
      {
         auto format = std::string{ source.pick( { "yaml", "json", "xml"})};
         auto model = deprecated( source, file);

         // environment in files of their own
         int environments = 0;
         std::function< void( user::domain::Environment&)> split = [ &]( user::domain::Environment& environment)
         {
            if( ! environment.variables || environment.variables->empty() || ! source.chance( 30))
               return;
            auto pivot = source.draw( environment.variables->size()) + 1;
            user::domain::Environment nested;
            nested.variables.emplace( environment.variables->begin(), environment.variables->begin() + pivot);
            environment.variables->erase( environment.variables->begin(), environment.variables->begin() + pivot);
            auto format = std::string{ source.pick( { "yaml", "json"})};
            auto path = cat( directory, "/environment", index, '-', ++environments, '.', format);
            if( environments < 20)
               split( nested);
            // refers to it self: read once
            if( source.chance( 20))
            {
               if( ! nested.files)
                  nested.files.emplace();
               nested.files->push_back( path);
            }
            auto writer = common::serialize::create::writer::from( format);
            writer << CASUAL_NAMED_VALUE_NAME( nested, "environment");
            std::ofstream out{ path};
            writer.consume( out);
            environment.files.emplace().push_back( path);
            source.label( "environment files");
         };
         auto split_if = [ &]( auto& optional){ if( optional) split( *optional);};
         if( model.domain)
         {
            split_if( model.domain->environment);
            for( auto* entities : { &model.domain->servers})
               if( *entities)
                  for( auto& entity : **entities)
                     split_if( entity.environment);
            if( model.domain->executables)
               for( auto& entity : *model.domain->executables)
                  split_if( entity.environment);
         }

         auto path = cat( directory, "/file", ++index, '.', format);
         write( path, format, model);
         paths.push_back( path);
         source.log( path, ": ", text( model));
      }

      if( ! valid)
      {
         // there may be values that are not allowed
         bool bad = false;
         auto negative = [ &]( auto& range){ for( auto& value : range) bad = bad || value.instances < 0;};
         negative( expected.model.domain.executables);
         for( auto& server : expected.servers) bad = bad || server.value.instances < 0;
         negative( expected.model.transaction.resources);
         for( auto& group : expected.model.queue.forward.groups)
         {
            negative( group.services);
            negative( group.queues);
         }
         if( bad)
         {
            bool refused = false;
            try { model::load( paths);}
            catch( const std::exception& exception) { refused = true; source.log( exception.what());}
            require( refused, "a configuration with a negative number of instances is accepted");
            source.label( "negative");
            source.nontrivial();
            return;
         }
      }

      // a property that there is not
      if( source.chance( 5))
      {
         auto path = cat( directory, "/other.json");
         auto json = text( files.front());
         // "value" is the name of it all
         auto begin = json.find( '{', json.find( "\"value\"")), end = json.rfind( '}');
         json = json.substr( begin, end - begin);
         // after one of the {
         std::vector< std::size_t> places;
         bool quoted = false;
         for( std::size_t at = 0; at < json.size(); ++at)
         {
            if( json[ at] == '\\') ++at;
            else if( json[ at] == '"') quoted = ! quoted;
            else if( json[ at] == '{' && ! quoted) places.push_back( at + 1);
         }
         auto place = source.pick( places);
         auto rest = json.find_first_not_of( " \n", place);
         json.insert( place, rest != std::string::npos && json[ rest] == '}' ? "\"unknown\": 42" : "\"unknown\": 42,");
         std::ofstream{ path} << json;

         bool refused = false;
         try { model::load( { path});}
         catch( const std::exception& exception) { refused = true;}
         require( refused, "a configuration with an unknown property is accepted: ", show( json, 4000));
         source.label( "unknown property");
      }

      const auto loaded = model::load( paths);

      source.log( "loaded: ", text( loaded));

      std::size_t entities = loaded.domain.servers.size() + loaded.domain.executables.size() + loaded.service.services.size()
         + loaded.transaction.resources.size() + loaded.queue.groups.size() + loaded.gateway.inbound.groups.size() + loaded.gateway.outbound.groups.size() + loaded.queue.forward.groups.size();
      source.nontrivial( entities > 2);
      source.label( cat( "files ", count));

      verify( expected, loaded);

      // what is exported is what was loaded, in all formats, and again
      {
         auto format = std::string{ source.pick( { "yaml", "json", "xml"})};
         const auto exported = model::transform( loaded);
         auto path = cat( directory, "/exported.", format);
         write( path, format, exported);
         source.log( "exported: ", text( exported));
         // nothing at all is no document in some formats
         if( exported.system || exported.domain)
         {
            const auto again = model::load( { path});
            equal( "exported and loaded", canonical( loaded), canonical( again));
         }

         // what a running domain does with it
         equal( "exported and set", canonical( loaded), canonical( normalize( model::transform( exported))));
      }

      // loaded twice is the same
      if( source.chance( 30))
      {
         equal( "union with itself", loaded, set_union( loaded, loaded));
         equal( "normalized twice", loaded, normalize( loaded));
      }

      if( source.chance( 40))
      {
         auto path = cat( directory, "/second.yaml");
         write( path, "yaml", file( source, shared, true));
         operations( source, loaded, model::load( { path}));
      }
   }

} // namespace

int main( int argc, char** argv)
{
   pbt::Options options;
   options.name = "configuration_model";
   options.property = "C03";
   options.case_timeout = 20;
   options.rule = "one to three configuration files with all sections (defaults, groups with dependencies, resources, restrictions, environments in files of their own, gateways, queues, forwards, deprecated forms of the same) in different formats, loaded and compared to a reference, exported and loaded again; union, difference, intersection and the changes between two configurations; values and properties that are not allowed. Non-trivial: more than 2 entities in it";
   options.quick = 10000;
   options.thorough = 300000;
   return pbt::run( argc, argv, options, property);
}
