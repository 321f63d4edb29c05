/* unpack_mpc_desig( ) of any twelve printable bytes.  C0, C4, C5: ranges for those bytes */
#include <stdio.h>
#include <string.h>
#include "watdefs.h"
#include "mpc_func.h"
#include "vp.h"

#define OSIZE 26
extern "C" void harness( void)
{
   char packed[LEN + 1], obuff[OSIZE];
   int i, n, type;

   for( i = 0; i < LEN; i++)
      packed[i] = (char)vp_int( "c", i == 0 ? C0L : i == 4 ? C4L : i == 5 ? C5L : ' ', i == 0 ? C0H : i == 4 ? C4H : i == 5 ? C5H : '~');
   packed[LEN] = '\0';
   memset( obuff, 1, OSIZE);
   type = unpack_mpc_desig( obuff, packed);
   vp_reach( "end");
   vp_assert( type == OBJ_DESIG_OTHER || (type >= 0 && type < 8), "the type returned is one of the documented ones");
   for( n = 0; n < OSIZE && obuff[n]; n++)
      ;
   vp_assert( n < OSIZE, "the unpacked name is NUL-terminated within the buffer");
   vp_assert( unpack_mpc_desig( NULL, packed) == type, "asking only for the type gives the same answer");
}
