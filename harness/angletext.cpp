/* output_angle_to_buff( ), output_signed_angle_to_buff( ), text_search_and_replace( ) */
#include <stdio.h>
#include <string.h>
#include "watdefs.h"
#include "mpc_func.h"
#include "vp.h"

static char want[40];
static int nw;

static void two( const int n) { want[nw++] = (char)( '0' + n / 10); want[nw++] = (char)( '0' + n % 10); }

#if defined( FMT)
static int decs[20];

static double decimals( const int n)
{
   double rval = 0., scale = 1.;
   int i;

   for( i = 0; i < n; i++)
      {
      scale /= 10.;
      decs[i] = vp_int( "digit", 0, 9);
      rval += (double)decs[i] * scale;
      }
   return( rval);
}

static void add_decimals( const int n, const int point)
{
   int i;

   if( n && point)
      want[nw++] = '.';
   for( i = 0; i < n; i++)
      want[nw++] = (char)( '0' + decs[i]);
}

extern "C" void harness( void)
{
   const double off = vp_double( "off", -.49, .49);     /* in units of the last digit shown */
   char buff[40];
   int i, n, len = 12, start = 0;
   double angle, unit = 1.;

   memset( buff, 1, sizeof( buff));
#ifdef SIGNED
   start = 1;
   const int neg = vp_int( "negative", 0, 1);
#endif
#if (FMT) >= 100 && (FMT) < 300            /* dd.dd  or ddd.dd */
   n = (FMT) % 100;
   if( (FMT) < 200)
      {
      const int d = vp_int( "degrees", 0, 99);

      two( d);
      angle = (double)d + decimals( n);
      }
   else
      {
      const int h = vp_int( "hundreds", 0, 3), d = vp_int( "degrees", 0, 99);

      want[nw++] = (char)( '0' + h);
      two( d);
      angle = (double)( h * 100 + d) + decimals( n);
      }
   add_decimals( n, 1);
   for( i = 0; i < n; i++)
      unit /= 10.;
   angle += off * unit;
   if( (FMT) >= 200)
      angle /= 15.;
   if( (FMT) >= 109 && (FMT) < 200)
      len += (FMT) - 109;
   if( (FMT) >= 208)
      len += (FMT) - 208;
#elif (FMT) < 0
   const int h = vp_int( "degrees", 0, 99), m = vp_int( "minutes", 0, 59);

   n = -1 - (FMT);
   two( h);
   want[nw++] = ' ';
   two( m);
   angle = (double)m + decimals( n);
   add_decimals( n, 1);
   for( i = 0; i < n; i++)
      unit /= 10.;
   angle = (double)h + (angle + off * unit) / 60.;
#else
   const int h = vp_int( "degrees", 0, 99), m = vp_int( "minutes", 0, 59), s = vp_int( "seconds", 0, 59);
   double whole = (double)h;
   const int packed = ((FMT) > 306 && (FMT) < 400);

   n = packed ? (FMT) - 306 : (FMT) % 400;
   if( (FMT) >= 400)
      {
      const int k = vp_int( "hundreds", 0, 3);

      want[nw++] = (char)( '0' + k);
      whole += 100. * (double)k;
      }
   two( h);
   if( !packed)
      want[nw++] = ' ';
   two( m);
   if( !packed)
      want[nw++] = ' ';
   two( s);
   angle = (double)s + decimals( n);
   add_decimals( n, !packed);
   for( i = 0; i < n; i++)
      unit /= 10.;
   angle = whole + (double)m / 60. + (angle + off * unit) / 3600.;
   if( (FMT) >= 400)
      angle /= 15.;
   if( (FMT) > 3 && (FMT) < 12)
      len += (FMT) - 3;
#endif
   while( nw < len)
      want[nw++] = ' ';
#ifdef SIGNED
   vp_assume( angle > 0.);
   output_signed_angle_to_buff( buff, neg ? -angle : angle, FMT);
   vp_assert( buff[0] == (neg ? '-' : '+'), "the sign is shown");
#else
   vp_assume( angle >= 0.);
   output_angle_to_buff( buff, angle, FMT);
#endif
   vp_reach( "end");
   for( i = 0; i < len; i++)
      vp_assert( buff[i + start] == want[i], "the angle is shown in the format asked for, rounded to the nearest unit");
   vp_assert( !buff[len + start], "the text has the length of the format");
   for( i = len + start + 1; i < 40; i++)
      vp_assert( buff[i] == 1, "nothing is written beyond it");
}
#elif defined( ODD)
extern "C" void harness( void)
{
   const double angle = vp_double( "angle", -1e+7, 1e+7);
   const int precision = vp_choose( "precision", LO, HI);
   char buff[40];
   int i;

   memset( buff, 1, sizeof( buff));
   output_angle_to_buff( buff, angle, precision);
   vp_reach( "end");
   vp_assert( buff[0] == '?', "an unknown format is marked as such");
   i = 0;
   while( i < 40 && buff[i])
      i++;
   vp_assert( i >= 12 && i <= 20, "padded to at least twelve bytes");
}
#else
/* every text of LEN bytes, 'old' of OLDLEN, 'new' of NEWLEN */
extern "C" void harness( void)
{
   char str[LEN * (NEWLEN + 1) + 8], olds[OLDLEN + 1], news[NEWLEN + 1], ref[LEN * (NEWLEN + 1) + 8], orig[LEN + 1];
   int i, j, n_found = 0, nr = 0, rval;

   vp_bytes_in( "text", orig, LEN, 97, 99);
   vp_bytes_in( "old", olds, OLDLEN, 97, 98);
   vp_bytes_in( "new", news, NEWLEN, 97, 100);
   orig[LEN] = olds[OLDLEN] = news[NEWLEN] = '\0';
   for( i = 0; i < LEN; )
      {
      for( j = 0; j < OLDLEN && i + j < LEN && orig[i + j] == olds[j]; j++)
         ;
      if( j == OLDLEN)
         {
         for( j = 0; j < NEWLEN; j++)
            ref[nr++] = news[j];
         n_found++;
         i += OLDLEN;
         }
      else
         ref[nr++] = orig[i++];
      }
   ref[nr] = '\0';
   memset( str, 1, sizeof( str));
   memcpy( str, orig, LEN + 1);
   rval = text_search_and_replace( str, olds, news);
   vp_reach( "end");
   vp_assert( rval == n_found, "the number of replacements is returned");
   for( i = 0; i <= nr; i++)
      vp_assert( str[i] == ref[i], "each occurrence, from left to right, is replaced");
}
#endif
