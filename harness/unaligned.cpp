/* unpack_unaligned_mpc_desig( ): LEAD blanks, LEN non-blank bytes, then the end or a blank and more */
#include <stdio.h>
#include <string.h>
#include "watdefs.h"
#include "mpc_func.h"
#include "vp.h"

extern "C" void harness( void)
{
   char text[LEAD + LEN + 3], aligned[13], a[26], b[26];
   const int col = (LEN == 7 || LEN == 8) ? 12 - LEN : 0;
   int i, ta, tb;

   memset( text, ' ', LEAD);
   for( i = 0; i < LEN; i++)
      text[LEAD + i] = (char)vp_int( "c", '!', '~');
   strcpy( text + LEAD + LEN, TAIL);
   memset( aligned, ' ', 12);
   aligned[12] = '\0';
   memcpy( aligned + col, text + LEAD, LEN > 12 ? 12 : LEN);
   memset( a, 1, sizeof( a));
   ta = unpack_unaligned_mpc_desig( a, text);
   vp_reach( "end");
#if LEN > 12
   vp_assert( ta == OBJ_DESIG_OTHER && !memcmp( a, text + LEAD, 12) && !a[12], "a name of more than twelve bytes is truncated to twelve");
#else
   tb = unpack_mpc_desig( b, aligned);
   vp_assert( ta == tb, "the type is that of the aligned designation");
   for( i = 0; i < 26 && b[i]; i++)
      vp_assert( a[i] == b[i], "the name is that of the aligned designation");
   vp_assert( i < 26 && !a[i], "the name is terminated");
#endif
}
