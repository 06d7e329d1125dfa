// work in the dynamic resource manager, from the process that is linked with it
#include "rm.h"

#include <xa.h>

int& rm_registered( int rmid);
int rm_record( int operation, const XID* xid, int rmid, long flags);

// the resource manager registers with the transaction manager, if it isn't registered.
// -> the code of the registration, or 100 if it was registered
int rm_work( int rmid)
{
   if( rm_registered( rmid))
      return 100;
   XID xid{};
   xid.formatID = -1;
   auto code = ax_reg( rmid, &xid, TMNOFLAGS);
   if( code == TM_OK || code == TM_JOIN || code == TM_RESUME)
   {
      rm_registered( rmid) = 1;
      if( xid.formatID != -1)
         rm_record( rm::op_start, &xid, rmid, code == TM_JOIN ? TMJOIN : code == TM_RESUME ? TMRESUME : TMNOFLAGS);
   }
   return code;
}

int rm_done( int rmid)
{
   auto code = ax_unreg( rmid, TMNOFLAGS);
   if( code == TM_OK)
      rm_registered( rmid) = 0;
   return code;
}
