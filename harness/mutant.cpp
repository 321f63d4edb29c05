/* "mutant hex" (base 62) helpers of unpack.cpp */
#include <stdio.h>
#include <string.h>
#include "watdefs.h"
#include "mpc_func.h"
#include "vp.h"

extern "C" void harness( void)
{
#if MODE == 1           /* characters */
   const int c = vp_int( "char", -128, 127);
   const int v = mutant_hex_char_to_int( (char)c);
   const int want = c >= '0' && c <= '9' ? c - '0' : c >= 'A' && c <= 'Z' ? c - 'A' + 10 : c >= 'a' && c <= 'z' ? c - 'a' + 36 : -1;

   vp_reach( "end");
   vp_assert( v == want, "0-9, A-Z, a-z are the digits 0 to 61 and nothing else is a digit");
   if( v >= 0)
      vp_assert( int_to_mutant_hex_char( v) == (char)c, "digit -> value -> digit is the identity");
#elif MODE == 2         /* values */
   const int v = vp_int( "value", -2147483647L - 1, 2147483647L);
   const char c = int_to_mutant_hex_char( v);

   vp_reach( "end");
   vp_assert( (c == 0) == (v < 0 || v > 61), "exactly the values 0 to 61 have a digit");
   if( c)
      vp_assert( mutant_hex_char_to_int( c) == v, "value -> digit -> value is the identity");
#elif MODE == 3         /* n digits, n = ND : encode, then decode */
   char buff[ND + 2];
   long lim = 1;
   int i, rval;
   const int v = vp_int( "value", LO, HI);

   for( i = 0; i < ND; i++)
      lim *= 62;
   memset( buff, 1, sizeof( buff));
   rval = encode_value_in_mutant_hex( buff + 1, ND, v);
   vp_reach( "end");
   vp_assert( buff[0] == 1 && buff[ND + 1] == 1, "exactly n digits are written");
   vp_assert( (rval == 0) == (v < lim), "non-zero is returned just when the value doesn't fit");
   if( v < lim)
      vp_assert( get_mutant_hex_value( buff + 1, ND) == v, "a value that fits decodes to itself");
#elif MODE == 4         /* decode n arbitrary bytes, then encode */
   char buff[ND + 1], back[ND + 1];
   int i, v, bad = 0;

   vp_bytes( "text", buff, ND);
   v = get_mutant_hex_value( buff, ND);
   for( i = 0; i < ND; i++)
      if( mutant_hex_char_to_int( buff[i]) < 0)
         bad = 1;
   vp_reach( "end");
   vp_assert( (v == -1) == bad, "-1 just when some byte isn't a digit");
   if( !bad)
      {
      vp_assert( v >= 0, "a decoded value isn't negative");
      vp_assert( encode_value_in_mutant_hex( back, ND, v) == 0, "a decoded value fits");
      vp_assert( !memcmp( buff, back, ND), "digits decode and encode back to themselves");
      }
#endif
}
