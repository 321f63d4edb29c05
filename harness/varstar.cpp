/* variable star designations */
#include <string.h>
#include "watdefs.h"
#include "afuncs.h"
#include "vp.h"

/* independent description of the order:  R..Z, RR..ZZ, AA..QZ without J, V335... */
static void reference( char *out, int no)
{
   const char *second = "ABCDEFGHIKLMNOPQRSTUVWXYZ";
   int n = no;

   if( n < 10)
      {
      out[0] = (char)( 'Q' + n);
      out[1] = '\0';
      return;
      }
   n -= 10;
   out[2] = '\0';
   for( int i = 16; i < 25; i++)          /* R..Z */
      for( int j = i; j < 25; j++)
         if( !n--)
            {
            out[0] = second[i];
            out[1] = second[j];
            return;
            }
   for( int i = 0; i < 16; i++)           /* A..Q */
      for( int j = i; j < 25; j++)
         if( !n--)
            {
            out[0] = second[i];
            out[1] = second[j];
            return;
            }
   out[0] = 0;
}

extern "C" void harness( void)
{
#if MODE == 1
   const int no = vp_int( "number", 1, 334);
   char buff[8], want[8];

   make_var_desig( buff, no);
   reference( want, no);
   vp_reach( "end");
   vp_assert( !strcmp( buff, want), "designations are assigned in the traditional order");
   vp_assert( decipher_var_desig( buff) == no, "number -> designation -> number is the identity");
   for( int i = 0; buff[i]; i++)
      buff[i] += 'a' - 'A';
   if( no > 9)
      vp_assert( decipher_var_desig( buff) == no, "lower-case designations mean the same star");
#elif MODE == 2
   const int no = vp_int( "number", LO, HI);
   char buff[8];

   make_var_desig( buff, no);
   vp_reach( "end");
   vp_assert( buff[0] == 'V', "later stars are V followed by the number");
   vp_assert( buff[LO < 1000 ? 4 : 5] == '\0', "no extra digits");
   vp_assert( decipher_var_desig( buff) == no, "number -> designation -> number is the identity");
#elif MODE == 3         /* any two letters */
   char buff[8], back[8];
   buff[0] = (char)vp_int( "first", 'A', 'Z');
   buff[1] = (char)vp_int( "second", 'A', 'Z');
   buff[2] = '\0';
   const int no = decipher_var_desig( buff);
   const bool ok = buff[0] != 'J' && buff[1] != 'J' && buff[1] >= buff[0];
   vp_reach( "end");
   vp_assert( ok == (no > 0), "just the pairs in use are accepted");
   if( ok)
      {
      vp_assert( no >= 10 && no <= 334, "two letters are numbers 10 to 334");
      make_var_desig( back, no);
      vp_assert( !strcmp( buff, back), "designation -> number -> designation is the identity");
      }
#endif
}
