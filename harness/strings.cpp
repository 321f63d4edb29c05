/* bounded string helpers of snprintf.cpp */
#include <stdio.h>
#include <string.h>
#include "stringex.h"
#include "vp.h"



static size_t len( const char *s) { size_t n = 0; while( s[n]) n++; return( n); }

int snprintf_append_trunc( char *string, const size_t max_len, const char *format, ...);

extern "C" void harness( void)
{
   char src[N + 1], dst[D + 2], want[2 * N + 30];
   size_t i, slen, dlen = 0, wlen, size = (size_t)vp_choose( "dsize", MINSIZE, D);

   vp_string( "src", src, N);           /* any string of up to N bytes */
   slen = len( src);
   memset( dst, 1, sizeof( dst));
#if MODE != 1 && MODE != 3 && MODE != 6
   dlen = (size_t)vp_choose( "dlen", 0, MODE == 2 ? D : (long)size - 1);
   for( i = 0; i < dlen; i++)
      dst[i] = (char)('a' + i);
   dst[dlen] = '\0';
#endif
   for( i = 0; i < dlen; i++)
      want[i] = dst[i];
   for( i = 0; i <= slen; i++)
      want[dlen + i] = src[i];
   wlen = dlen + slen;
#if MODE == 1
   const size_t rval = strlcpy( dst, src, size);
   vp_assert( rval == slen, "strlcpy returns the length of the source");
#elif MODE == 2
   const size_t rval = strlcat( dst, src, size);
   vp_assert( rval == (dlen < size ? dlen : size) + slen, "strlcat returns the length it tried to create");
   if( dlen >= size)
      {
      for( i = 0; i <= dlen; i++)
         vp_assert( dst[i] == (i == dlen ? 0 : (char)( 'a' + i)), "a destination that is already full is left alone");
      vp_reach( "end");
      return;
      }
#elif MODE == 3
   vp_allow_exit( wlen >= size);
   const size_t rval = strlcpy_err( dst, src, size);
   vp_assert( wlen < size, "strlcpy_err stops the program if the text doesn't fit");
   vp_assert( rval == slen, "strlcpy_err returns the length of the source");
#elif MODE == 4
   vp_allow_exit( wlen >= size);
   const size_t rval = strlcat_err( dst, src, size);
   vp_assert( wlen < size, "strlcat_err stops the program if the text doesn't fit");
   vp_assert( rval == wlen, "strlcat_err returns the total length");
#elif MODE == 5
   const int num = vp_int( "num", -99, 999);
   size_t j = wlen;
   const int u = num < 0 ? -num : num;
   if( num < 0)
      want[j++] = '-';
   if( u >= 100)
      want[j++] = '0' + u / 100;
   if( u >= 10)
      want[j++] = '0' + u / 10 % 10;
   want[j++] = '0' + u % 10;
   want[j] = '\0';
   wlen = j;
   vp_allow_exit( wlen >= size);
   const int rval = snprintf_append( dst, size, "%s%d", src, num);
   vp_assert( wlen < size, "snprintf_append stops the program if the text doesn't fit");
   vp_assert( rval == (int)wlen, "snprintf_append returns the total length");
#elif MODE == 6
   vp_allow_exit( wlen + 1 >= size);
   const int rval = snprintf_err( dst, size, "%s%c", src, 'q');
   want[wlen++] = 'q';
   want[wlen] = '\0';
   vp_assert( wlen < size, "snprintf_err stops the program if the text doesn't fit");
   vp_assert( rval == (int)wlen, "snprintf_err returns the length written");
#elif MODE == 7
   const int rval = snprintf_append_trunc( dst, size, "%s", src);
   vp_assert( rval == (int)wlen, "snprintf_append_trunc returns the length it tried to create");
#endif
   vp_reach( "end");
   if( size)
      {
      const size_t n = wlen < size ? wlen : size - 1;

      for( i = 0; i < n; i++)
         vp_assert( dst[i] == want[i], "the text is copied unchanged, as far as it fits");
      vp_assert( dst[n] == '\0', "the result is terminated");
      }
   for( i = size; i < sizeof( dst); i++)
      if( i > dlen)
         vp_assert( dst[i] == 1, "nothing is written beyond the stated size");
}
