// the xa switches
#include "rm.h"

#include <xa.h>

namespace
{
   struct Lock
   {
      rm::Shared& shared;
      explicit Lock( rm::Shared& shared) : shared{ shared}
      {
         for( int expected = 0; ! shared.lock.compare_exchange_weak( expected, 1); expected = 0)
            ::usleep( 1);
      }
      ~Lock() { shared.lock.store( 0);}
   };

   enum Wrong { w_none, w_other, w_prepared, w_join, w_resume, w_end, w_suspend, w_prepare_associated, w_prepare_twice, w_prepare_unknown,
      w_commit_associated, w_commit_not_prepared, w_commit_unknown, w_rollback_associated, w_rollback_unknown, w_twice, w_prepare_rollback_only, w_known, w_one_phase};

   bool dead( rm::Shared& shared, int pid)
   {
      for( int index = 0; index < shared.deads.load() && index < 64; ++index)
         if( shared.dead[ index] == pid)
            return true;
      return false;
   }

   bool rm_dynamic( int rm) { return rm == 3;}

   //! what a resource manager would answer; `planned` is what it is told to answer, if it can
   int strict( rm::Shared& shared, rm::Entry& entry, int planned)
   {
      Lock lock{ shared};
      const auto size = entry.gtrid_size + entry.bqual_size;
      auto rollback_code = []( int code){ return code >= XA_RBBASE && code <= XA_RBEND;};

      rm::Branch* branch = nullptr;
      rm::Branch* other = nullptr;
      rm::Branch* free = nullptr;
      for( auto& candidate : shared.branch)
      {
         if( candidate.rm == 0)
         {
            if( ! free)
               free = &candidate;
            continue;
         }
         if( candidate.rm != entry.rm)
            continue;
         if( candidate.size == size && std::memcmp( candidate.xid, entry.xid, size) == 0)
            branch = &candidate;
         else
            for( auto& association : candidate.associations)
               if( association.pid == entry.pid && association.state == 1)
                  other = &candidate;
      }
      auto association = [&]() -> rm::Association*
      {
         if( branch)
            for( auto& candidate : branch->associations)
               if( candidate.pid == entry.pid)
                  return &candidate;
         return nullptr;
      };
      auto associated = [&]()
      {
         for( auto& candidate : branch->associations)
            if( candidate.pid && ! dead( shared, candidate.pid))
               return true;
         return false;
      };
      auto associate = [&]()
      {
         for( auto& candidate : branch->associations)
            if( ! candidate.pid || dead( shared, candidate.pid))
            {
               candidate.pid = entry.pid;
               candidate.state = 1;
               return;
            }
      };
      auto wrong = [&]( Wrong what, int code)
      {
         entry.wrong = what;
         return code;
      };
      auto completed = [&]()
      {
         for( int index = 0; index < shared.completions && index < 2000; ++index)
            if( std::memcmp( shared.completed[ index], &entry.rm, sizeof( int)) == 0 && std::memcmp( shared.completed[ index] + sizeof( int), entry.xid, 128) == 0)
               return true;
         return false;
      };
      auto complete = [&]()
      {
         if( shared.completions < 2000)
         {
            std::memcpy( shared.completed[ shared.completions], &entry.rm, sizeof( int));
            std::memcpy( shared.completed[ shared.completions] + sizeof( int), entry.xid, 128);
            ++shared.completions;
         }
         *branch = rm::Branch{};
      };

      switch( entry.operation)
      {
         case rm::op_start:
         {
            // the dynamic one has registered, it can't fail after that
            if( rm_dynamic( entry.rm))
               planned = XA_OK;
            if( other)
               return wrong( w_other, XAER_PROTO);
            if( entry.flags & TMRESUME)
            {
               auto found = association();
               if( ! found || found->state != 2)
                  return wrong( w_resume, XAER_PROTO);
               if( planned != XA_OK)
                  return planned;
               found->state = 1;
               return XA_OK;
            }
            if( branch && branch->prepared)
               return wrong( w_prepared, XAER_PROTO);
            if( auto found = association(); found && found->state == 1)
               return wrong( w_known, XAER_PROTO);
            if( entry.flags & TMJOIN)
            {
               if( ! branch)
                  return wrong( w_join, XAER_NOTA);
            }
            else if( branch)
               return wrong( w_known, XAER_DUPID);
            if( planned != XA_OK)
               return planned;
            if( ! branch)
            {
               if( completed())
                  return wrong( w_twice, XAER_DUPID);
               if( ! free)
                  return XAER_RMERR;
               branch = free;
               branch->rm = entry.rm;
               branch->size = size;
               std::memcpy( branch->xid, entry.xid, sizeof( branch->xid));
            }
            associate();
            return XA_OK;
         }
         case rm::op_end:
         {
            auto found = association();
            if( ! found)
               return wrong( w_end, branch ? XAER_PROTO : XAER_NOTA);
            if( ( entry.flags & TMSUSPEND) && found->state != 1)
               return wrong( w_suspend, XAER_PROTO);
            if( planned != XA_OK && ! rollback_code( planned))
               return planned;
            if( entry.flags & TMSUSPEND && planned == XA_OK)
               found->state = 2;
            else
               *found = rm::Association{};
            if( rollback_code( planned))
               branch->rollback_only = true;
            return planned;
         }
         case rm::op_prepare:
            if( ! branch)
               return wrong( completed() ? w_twice : w_prepare_unknown, XAER_NOTA);
            if( associated())
               return wrong( w_prepare_associated, XAER_PROTO);
            if( branch->prepared)
               return wrong( w_prepare_twice, XAER_PROTO);
            if( branch->rollback_only)
            {
               complete();
               return XA_RBROLLBACK;
            }
            if( planned == XA_OK)
               branch->prepared = true;
            else if( planned == XA_RDONLY || rollback_code( planned))
               complete();
            return planned;
         case rm::op_commit:
            if( ! branch)
               return wrong( completed() ? w_twice : w_commit_unknown, XAER_NOTA);
            if( associated())
               return wrong( w_commit_associated, XAER_PROTO);
            if( ( entry.flags & TMONEPHASE) && branch->prepared)
               return wrong( w_one_phase, XAER_PROTO);
            if( ! ( entry.flags & TMONEPHASE) && ! branch->prepared)
               return wrong( w_commit_not_prepared, XAER_PROTO);
            if( branch->rollback_only)
            {
               complete();
               return XA_RBROLLBACK;
            }
            // prepared is prepared
            if( rollback_code( planned) && ! ( entry.flags & TMONEPHASE))
               planned = XA_OK;
            if( planned == XA_OK || rollback_code( planned))
               complete();
            return planned;
         case rm::op_rollback:
            if( ! branch)
               return wrong( completed() ? w_twice : w_rollback_unknown, XAER_NOTA);
            if( associated())
               return wrong( w_rollback_associated, XAER_PROTO);
            if( planned == XA_OK || rollback_code( planned))
               complete();
            return planned;
         default:
            return planned;
      }
   }

   int record( int operation, const XID* xid, int rmid, long flags)
   {
      auto shared = rm::shared();
      if( ! shared)
         return XA_OK;

      auto index = shared->entries.fetch_add( 1);
      if( index >= int( std::size( shared->entry)))
         return XA_OK;
      auto& entry = shared->entry[ index];
      entry.rm = rmid;
      entry.pid = ::getpid();
      entry.operation = operation;
      entry.flags = flags;
      if( xid && xid->formatID != -1)
      {
         entry.format = xid->formatID;
         entry.gtrid_size = xid->gtrid_length;
         entry.bqual_size = xid->bqual_length;
         std::memcpy( entry.xid, xid->data, sizeof( entry.xid));
      }
      entry.begin = shared->ticket.fetch_add( 1);
      entry.ready.store( 1);

      int code = XA_OK;
      int delay = 0;
      auto count = shared->plans.load();
      for( int i = 0; i < count; ++i)
      {
         auto& plan = shared->plan[ i];
         if( ! plan.ready.load() || ( plan.rm && plan.rm != rmid))
            continue;
         if( plan.gtrid_size && ( plan.gtrid_size != entry.gtrid_size || std::memcmp( plan.gtrid, entry.xid, plan.gtrid_size) != 0))
            continue;
         if( plan.delay_us[ operation])
            delay = plan.delay_us[ operation];
         if( plan.code[ operation] != XA_OK)
         {
            auto used = plan.used[ operation].fetch_add( 1);
            if( plan.failures[ operation] < 0 || used < plan.failures[ operation])
               code = plan.code[ operation];
         }
      }
      if( delay)
         ::usleep( delay);
      if( shared->strict && entry.gtrid_size)
         code = strict( *shared, entry, code);
      entry.code = code;
      entry.end.store( shared->ticket.fetch_add( 1));
      entry.ready.store( 2);
      return code;
   }

   // the dynamic one registers its associations
   int& registered( int rmid)
   {
      static int values[ 16];
      return values[ rmid & 15];
   }

   int open_entry( const char*, int rmid, long flags) { return record( rm::op_open, nullptr, rmid, flags);}
   int close_entry( const char*, int rmid, long flags) { return record( rm::op_close, nullptr, rmid, flags);}
   int start_entry( XID* xid, int rmid, long flags) { return record( rm::op_start, xid, rmid, flags);}
   int dynamic_end_entry( XID* xid, int rmid, long flags)
   {
      registered( rmid) = 0;
      return record( rm::op_end, xid, rmid, flags);
   }
   int end_entry( XID* xid, int rmid, long flags) { return record( rm::op_end, xid, rmid, flags);}
   int rollback_entry( XID* xid, int rmid, long flags) { return record( rm::op_rollback, xid, rmid, flags);}
   int prepare_entry( XID* xid, int rmid, long flags) { return record( rm::op_prepare, xid, rmid, flags);}
   int commit_entry( XID* xid, int rmid, long flags) { return record( rm::op_commit, xid, rmid, flags);}
   int recover_entry( XID*, long, int rmid, long flags) { record( rm::op_recover, nullptr, rmid, flags); return 0;}
   int forget_entry( XID* xid, int rmid, long flags) { return record( rm::op_forget, xid, rmid, flags);}
   int complete_entry( int*, int*, int, long) { return XA_OK;}
}

extern "C"
{
   struct xa_switch_t verif_xa_switch_static{
      "verif-rm", TMNOFLAGS, 0, &open_entry, &close_entry, &start_entry, &end_entry, &rollback_entry,
      &prepare_entry, &commit_entry, &recover_entry, &forget_entry, &complete_entry};

   struct xa_switch_t verif_xa_switch_dynamic{
      "verif-rm", TMREGISTER, 0, &open_entry, &close_entry, &start_entry, &dynamic_end_entry, &rollback_entry,
      &prepare_entry, &commit_entry, &recover_entry, &forget_entry, &complete_entry};
}

int& rm_registered( int rmid) { return registered( rmid);}
int rm_record( int operation, const XID* xid, int rmid, long flags) { return record( operation, xid, rmid, flags);}
