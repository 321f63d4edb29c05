/* create_mpc_packed_desig( ) of any name of LEN bytes (between FIRST and LAST classes) */
#include <stdio.h>
#include <string.h>
#include "watdefs.h"
#include "mpc_func.h"
#include "vp.h"

extern "C" void harness( void)
{
   char name[LEN + 1], packed[16];
   int i, rval, lead = 0, len;

   for( i = 0; i < LEN; i++)
      name[i] = (char)vp_int( "c", i == 0 ? C0L : i == 1 ? C1L : ' ', i == 0 ? C0H : i == 1 ? C1H : '~');
   name[LEN] = '\0';
   memset( packed, 1, sizeof( packed));
   rval = create_mpc_packed_desig( packed, name);
   vp_reach( "end");
   vp_assert( rval == 0 || rval == -1, "returns 0 (packed) or -1 (can't be packed)");
   for( i = 0; i < 12; i++)
      vp_assert( packed[i] >= ' ' && packed[i] <= '~', "the packed form is twelve printable bytes");
   vp_assert( packed[12] == '\0', "the packed form is terminated after twelve bytes");
   vp_assert( packed[13] == 1 && packed[14] == 1, "nothing is written beyond thirteen bytes");
   if( rval == -1)
      {                 /* stored literally,  without its leading and trailing blanks */
      while( name[lead] == ' ')
         lead++;
      for( len = LEN; len > lead && name[len - 1] == ' '; len--)
         ;
      len -= lead;
      if( name[lead] == '(')
         {              /* parentheses around a number are dropped in any case */
         for( i = 1; i < len && name[lead + i] >= '0' && name[lead + i] <= '9'; i++)
            ;
         if( i == LEN - lead - 1 && name[lead + i] == ')')
            return;
         }
      for( i = 0; i < len && i < 11; i++)
         vp_assert( packed[i + (len <= 7 ? 5 : 1)] == name[lead + i], "a name that can't be packed is stored literally");
      vp_assert( len <= 7 ? !memcmp( packed, "     ", 5) : packed[0] == '$', "a long name that can't be packed is marked with a $");
      }
}
