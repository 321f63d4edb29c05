/* RA/dec fields of 80-column astrometry records */
#include <stdio.h>
#include <string.h>
#include "watdefs.h"
#include "mpc_func.h"
#include "vp.h"

static const double pi = 3.141592653589793238462643383279502884;
static char rec[83];

#ifdef ANY
extern "C" void harness( void)
{
   int rf = 777, df = 777, rval;
   double ra = -777., dec = -777., rp = -777., dp = -777.;

   memset( rec, ' ', 80);
   rec[80] = '\0';
   vp_bytes_in( "position", rec + LO, HI - LO, 32, 126);
#define DIGIT( c)  ((c) >= '0' && (c) <= '9')
#if CLASS == 0
   vp_assume( DIGIT( rec[LO + 1]) && DIGIT( rec[LO + 3]));
#elif CLASS == 1
   vp_assume( DIGIT( rec[LO + 1]) && !DIGIT( rec[LO + 3]) && DIGIT( rec[LO + 5]));
#elif CLASS == 2
   vp_assume( DIGIT( rec[LO + 1]) && !DIGIT( rec[LO + 3]) && !DIGIT( rec[LO + 5]));
#else
   vp_assume( !DIGIT( rec[LO + 1]));
#endif
   rval = get_ra_dec_from_mpc_report( rec, &rf, &ra, &rp, &df, &dec, &dp);
   vp_reach( "end");
   vp_assert( rval == (rf == -99 ? -1 : 0) + (df == -99 ? -2 : 0), "the return value tells which of the two was unreadable");
   vp_assert( ra != -777. && dec != -777., "both values are always set");
   if( rf != -99)
      vp_assert( (rf >= -7 && rf <= 3) || (rf >= 100 && rf <= 109) || (rf >= 200 && rf <= 208) || (rf >= 307 && rf <= 312)
               || (rf >= 400 && rf <= 402), "RA format is a documented one");
   if( df != -99)
      vp_assert( (df >= -7 && df <= 3) || (df >= 100 && df <= 109) || (df >= 200 && df <= 208) || (df >= 307 && df <= 312)
               || (df >= 400 && df <= 402), "dec format is a documented one");
}
#else

static double put( const int col, const int n)        /* n arbitrary digits at col;  returns their value */
{
   int i, rval = 0;

   for( i = 0; i < n; i++)
      {
      rec[col + i] = (char)vp_int( "digit", '0', '9');
      rval = rval * 10 + (rec[col + i] - '0');
      }
   return( (double)rval);
}

static double scale;

static double fraction( const int col, const int n)
{
   int i;
   double rval = 0.;

   scale = 1.;
   for( i = 0; i < n; i++)
      {
      rec[col + i] = (char)vp_int( "digit", '0', '9');
      scale /= 10.;
      rval += (double)( rec[col + i] - '0') * scale;
      }
   return( rval);
}

/* writes a value in format 'fmt' at column 'col';  returns it in the units of the first field */
static double make( const int col, const int fmt, double *precision)
{
   double rval;

   if( fmt >= 0 && fmt < 10)
      {
      rval = put( col, 2);
      rval += put( col + 3, 2) / 60.;
      rval += put( col + 6, 2) / 3600.;
      if( fmt)
         rec[col + 8] = '.';
      rval += fraction( col + 9, fmt) / 3600.;
      *precision = scale;
      }
   else if( fmt < 0)
      {
      rval = put( col, 2);
      rval += put( col + 3, 2) / 60.;
      if( fmt < -1)
         rec[col + 5] = '.';
      rval += fraction( col + 6, -1 - fmt) / 60.;
      *precision = scale * 60.;
      }
   else if( fmt < 200)
      {
      rval = put( col, 2);
      rec[col + 2] = '.';
      rval += fraction( col + 3, fmt - 100);
      *precision = scale * 3600.;
      }
   else if( fmt < 300)
      {
      rval = put( col, 3);
      rec[col + 3] = '.';
      rval += fraction( col + 4, fmt - 200);
      rval /= 15.;
      *precision = scale * 3600. / 15.;
      }
   else if( fmt < 400)
      {
      rval = put( col, 2);
      rval += put( col + 2, 2) / 60.;
      rval += put( col + 4, 2) / 3600.;
      rval += fraction( col + 6, fmt - 306) / 3600.;
      *precision = scale;
      }
   else
      {
      rval = put( col, 3);
      rval += put( col + 4, 2) / 60.;
      rval += put( col + 7, 2) / 3600.;
      rec[col + 9] = '.';
      rval += fraction( col + 10, fmt - 400) / 3600.;
      rval /= 15.;
      *precision = scale / 15.;
      }
   return( rval);
}

extern "C" void harness( void)
{
   int rf = 777, df = 777, rval;
   double ra = -777., dec = -777., rp = -777., dp = -777., want_ra, want_dec, want_rp, want_dp;

   vp_bytes_in( "start", rec, 32, 32, 126);
   memset( rec + 32, ' ', 48);
   vp_bytes_in( "rest", rec + 57, 23, 32, 126);
   rec[80] = '\0';
   want_ra = make( 32, RA_FMT, &want_rp);
   rec[44] = vp_choose( "negative", 0, 1) ? '-' : '+';
   want_dec = make( 45, DEC_FMT, &want_dp);
   if( rec[44] == '-')
      want_dec = -want_dec;
   rval = get_ra_dec_from_mpc_report( rec, &rf, &ra, &rp, &df, &dec, &dp);
   vp_reach( "end");
   vp_assert( rf == RA_FMT, "RA format is the one used");
   vp_assert( df == DEC_FMT, "dec format is the one used");
   vp_assert( rval == 0, "both values are readable");
   vp_assert_req( ra, want_ra * (pi / 12.), 1e-11, "the RA is the one in the record");
   vp_assert_req( dec, want_dec * (pi / 180.), 1e-11, "the dec is the one in the record");
   vp_assert_req( rp, want_rp * 15., 1e-7, "precision of the RA");
   vp_assert_req( dp, want_dp, 1e-7, "precision of the dec");
}
#endif
