// A resource manager whose every call is recorded in shared memory, and whose
// answers are planned there. Used by resource proxies, servers and clients.
#pragma once

#include <atomic>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>

#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>

namespace rm
{
   enum Operation : int { op_open, op_close, op_start, op_end, op_prepare, op_commit, op_rollback, op_recover, op_forget, op_count };

   inline const char* name( int operation)
   {
      static const char* names[] = { "open", "close", "start", "end", "prepare", "commit", "rollback", "recover", "forget"};
      return operation >= 0 && operation < op_count ? names[ operation] : "?";
   }

   struct Entry
   {
      std::atomic< int> ready; // 0 nothing, 1 begun, 2 ended
      int rm;
      int pid;
      int operation;
      long flags;
      long format;
      int gtrid_size;
      int bqual_size;
      char xid[ 128];
      int code;
      int wrong;              // strict: what the caller did wrong, an index into `wrongs`
      int begin;
      std::atomic< int> end;

      std::string gtrid() const { return std::string( xid, gtrid_size);}
      std::string bqual() const { return std::string( xid + gtrid_size, bqual_size);}
   };

   struct Plan
   {
      std::atomic< int> ready;
      int rm;                 // 0: all
      int gtrid_size;         // 0: all
      char gtrid[ 64];
      int code[ op_count];
      int delay_us[ op_count];
      int failures[ op_count]; // how many times `code` is answered, then ok; -1: always
      std::atomic< int> used[ op_count];
   };

   // strict: a branch the resource manager knows of
   struct Association
   {
      int pid;
      int state;              // 1 active, 2 suspended
   };

   struct Branch
   {
      int rm;                 // 0: free
      int size;
      char xid[ 128];
      bool prepared;
      bool rollback_only;
      Association associations[ 8];
   };

   struct Shared
   {
      int strict;             // the resource manager keeps track of branches, and answers as one would
      std::atomic< int> lock;
      int dead[ 64];          // processes known to be dead
      std::atomic< int> deads;
      Branch branch[ 1000];
      char completed[ 2000][ 132]; // rm + xid
      int completions;
      std::atomic< int> ticket;
      std::atomic< int> entries;
      std::atomic< int> plans;
      Entry entry[ 40000];
      Plan plan[ 4000];
   };

   inline const char* wrongs[] = { "", "start while associated with another branch", "start of a prepared branch", "join of an unknown branch",
      "resume of what is not suspended", "end of what is not started", "suspend of what is not active", "prepare while associated", "prepare twice",
      "prepare of an unknown branch", "commit while associated", "commit of a branch not prepared", "commit of an unknown branch", "rollback while associated",
      "rollback of an unknown branch", "completed twice", "prepare of a branch that has to be rolled back", "start of a branch that is known", "commit one phase of a prepared branch"};

   inline Shared* map( const std::string& path, bool create)
   {
      int fd = ::open( path.c_str(), create ? O_RDWR | O_CREAT : O_RDWR, 0600);
      if( fd < 0)
         return nullptr;
      if( create && ::ftruncate( fd, sizeof( Shared)) != 0)
         return nullptr;
      void* address = ::mmap( nullptr, sizeof( Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
      ::close( fd);
      return address == MAP_FAILED ? nullptr : static_cast< Shared*>( address);
   }

   inline Shared* shared()
   {
      static Shared* result = std::getenv( "VERIF_RM") ? map( std::getenv( "VERIF_RM"), false) : nullptr;
      return result;
   }
} // rm

int rm_work( int rmid);
int rm_done( int rmid);
