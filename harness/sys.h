// What every system level harness shares: a booted domain, transactions, error codes.
#pragma once

#include "pbt.h"

#include "domain/unittest/manager.h"

#include "common/unittest.h"
#include "common/code/raise.h"
#include "common/code/tx.h"
#include "common/code/queue.h"
#include "common/code/xatmi.h"
#include "common/exception/capture.h"
#include "common/transaction/context.h"
#include "common/transaction/id.h"
#include "common/environment.h"
#include "common/process.h"

#include <system_error>

namespace sys
{
   namespace code = casual::common::code;
   namespace tx
   {
      inline auto& context() { return casual::common::transaction::context();}

      inline void expect( code::tx result, code::tx expected, const std::string& what)
      {
         if( result != expected)
            pbt::fail( what, ": expected ", casual::common::code::description( expected), ", got ", casual::common::code::description( result));
      }
      inline void begin() { expect( context().begin(), code::tx::ok, "tx_begin");}
      inline void commit() { expect( context().commit(), code::tx::ok, "tx_commit");}
      inline void rollback() { expect( context().rollback(), code::tx::ok, "tx_rollback");}
   } // tx

   //! invokes `f`: ok -> nullopt, otherwise the error code
   template< typename F>
   std::optional< std::error_code> error( F&& f)
   {
      try
      {
         f();
         return std::nullopt;
      }
      catch( const std::system_error& exception)
      {
         return exception.code();
      }
   }

   template< typename C>
   std::string to_string( const C& value)
   {
      std::ostringstream out;
      out << value;
      return out.str();
   }

   inline std::string binary( std::string_view path)
   {
      return pbt::cat( std::getenv( "CASUAL_MAKE_SOURCE_ROOT"), "/middleware/", path);
   }

   //! the yaml of a domain with service- and transaction-manager, and `extra` servers (yaml list entries)
   inline std::string base( const std::string& name, const std::string& servers = {})
   {
      return pbt::cat( R"(
domain:
   name: )", name, R"(
   groups:
      - name: base
      - name: queue
        dependencies: [ base]
      - name: user
        dependencies: [ queue]
      - name: gateway
        dependencies: [ user]
   servers:
      - path: )", binary( "service/bin/casual-service-manager"), R"(
        memberships: [ base]
      - path: )", binary( "transaction/bin/casual-transaction-manager"), R"(
        memberships: [ base]
)", servers);
   }

   inline std::string queue_manager()
   {
      return pbt::cat( "      - path: ", binary( "queue/bin/casual-queue-manager"), "\n        memberships: [ queue]\n");
   }

} // sys
