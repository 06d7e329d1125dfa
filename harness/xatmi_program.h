// Programs against the XATMI and TX interfaces: a tree of service invocations. The client
// and the servers interpret the nodes from shared memory, and log what they observe there.
#pragma once

#include <atomic>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <string>

#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>

namespace xp
{
   enum Kind : int
   {
      k_info, k_begin, k_commit, k_rollback, k_suspend, k_resume, k_control, k_return, k_timeout, k_dynamic, k_dynamic_done,
      k_call, k_acall, k_getrply, k_getany, k_cancel, k_sleep, k_plan, k_connect, k_send, k_recv, k_discon, k_settle, k_count
   };

   inline const char* name( int kind)
   {
      static const char* names[] = { "info", "tx_begin", "tx_commit", "tx_rollback", "tx_suspend", "tx_resume", "tx_set_transaction_control", "tx_set_commit_return", "tx_set_transaction_timeout",
         "dynamic work", "dynamic done", "tpcall", "tpacall", "tpgetrply", "tpgetrply any", "tpcancel", "sleep", "plan", "tpconnect", "tpsend", "tprecv", "tpdiscon", "settle"};
      return kind >= 0 && kind < k_count ? names[ kind] : "?";
   }

   enum Type : int { t_null, t_octet, t_string};

   struct Data
   {
      int type = t_null;
      long size = 0;
      unsigned seed = 0;
      int header = -1;        // the node the data begins with
   };

   enum Finish : int { f_success, f_fail, f_nothing, f_throw, f_forward, f_kill};

   struct Op
   {
      int kind = 0;
      int node = -1;          // the invoked node
      int reference = -1;     // the op that acquired the descriptor, or the xid; -1: the conversation of the node
      long flags = 0;
      long value = 0;
      Data data;
      int output = t_octet;   // type of the output buffer
      char service[ 64] = {};
   };

   constexpr int max_ops = 64;
   constexpr int max_nodes = 200;

   struct Node
   {
      int used = 0;
      int finish = f_success;
      int forward = -1;
      long code = 0;
      Data reply;
      char service[ 64] = {}; // forward
      int count = 0;
      Op ops[ max_ops];
   };

   struct Entry
   {
      std::atomic< int> ready;
      int node;
      int op;                 // -1: begins, -2: done
      int pid;
      long result;
      int error;
      long user;
      long event;
      long flags;             // -1: of the service information
      char service[ 64];
      int transaction;        // in transaction mode
      long state;
      int gtrid_size;
      int bqual_size;
      char xid[ 128];
      char type[ 12];
      long size;
      std::uint64_t hash;
      int descriptor;

      std::string gtrid() const { return std::string( xid, gtrid_size);}
      std::string bqual() const { return std::string( xid + gtrid_size, bqual_size);}
   };

   struct Shared
   {
      std::atomic< int> entries;
      Entry entry[ 20000];
      Node node[ max_nodes];
   };

   inline Shared* map( const std::string& path, bool create)
   {
      int fd = ::open( path.c_str(), create ? O_RDWR | O_CREAT : O_RDWR, 0600);
      if( fd < 0)
         return nullptr;
      if( create && ::ftruncate( fd, sizeof( Shared)) != 0)
         return nullptr;
      void* address = ::mmap( nullptr, sizeof( Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
      ::close( fd);
      return address == MAP_FAILED ? nullptr : static_cast< Shared*>( address);
   }

   inline Shared* shared()
   {
      static Shared* result = std::getenv( "VERIF_XP") ? map( std::getenv( "VERIF_XP"), false) : nullptr;
      return result;
   }

   inline std::string content( const Data& data)
   {
      std::string result( data.size, '\0');
      std::uint64_t state = data.seed * 0x9e3779b97f4a7c15ull + 0x1234567;
      for( long index = 0; index < data.size; ++index)
      {
         if( index % 8 == 0)
         {
            state ^= state >> 30; state *= 0xbf58476d1ce4e5b9ull;
            state ^= state >> 27; state *= 0x94d049bb133111ebull;
            state ^= state >> 31;
            state += 0x9e3779b97f4a7c15ull;
         }
         auto value = static_cast< unsigned char>( state >> ( ( index % 8) * 8));
         result[ index] = data.type == t_string ? char( 'a' + value % 26) : char( value);
      }
      if( data.header >= 0 && data.size >= 4)
      {
         char text[ 8];
         std::snprintf( text, sizeof( text), "%04d", data.header);
         std::memcpy( result.data(), text, 4);
      }
      return result;
   }

   inline std::uint64_t hash( const char* data, long size)
   {
      std::uint64_t result = 0xcbf29ce484222325ull;
      for( long index = 0; index < size; ++index)
         result = ( result ^ static_cast< unsigned char>( data[ index])) * 0x100000001b3ull;
      return result;
   }

   //! the local state of an invocation. descriptor: of the conversation
   void interpret( int node, int descriptor);

   //! appends an entry
   Entry* log( int node, int op);
   void publish( Entry* entry);
} // xp
