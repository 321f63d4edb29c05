/* TD-UTC, Delta-T */
#include <stdio.h>
#include <string.h>
#include <limits.h>
#include "watdefs.h"
#include "afuncs.h"
#include "vp.h"

static long mjd_of( const int year, const int month)     /* of the first of the month,  Gregorian */
{
   static const int days[12] = { 0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334 };
   const long y = year - 1;
   const int leap = (year % 4 == 0 && (year % 100 || year % 400 == 0));

   return( y * 365 + y / 4 - y / 100 + y / 400 - 678575 + days[month - 1] + (leap && month > 2 ? 1 : 0));
}

double default_td_minus_ut( const double jd);
extern int mjd_end_of_predictive_leap_seconds;

static double eop_jd = -1., eop_value;
static int n_eop;

extern "C" int DLL_FUNC get_earth_orientation_params( const double jd, earth_orientation_params *params, int desired_params)
{
   eop_jd = jd;
   n_eop++;
   params->tdt_minus_ut1 = eop_value;
   return( 0);
}

#if MODE == 0        /* 1972 Jan 1 to 2021 Dec 1 */
extern "C" void harness( void)
{
   static const int ym[][2] = { {1972,1}, {1972,7}, {1973,1}, {1974,1}, {1975,1}, {1976,1}, {1977,1}, {1978,1}, {1979,1}, {1980,1},
            {1981,7}, {1982,7}, {1983,7}, {1985,7}, {1988,1}, {1990,1}, {1991,1}, {1992,7}, {1993,7}, {1994,7}, {1996,1}, {1997,7},
            {1999,1}, {2006,1}, {2009,1}, {2012,7}, {2015,7}, {2017,1} };
   const int n = (int)( sizeof( ym) / sizeof( ym[0]));
   const int k = vp_choose( "interval", 0, n - 1);
   const long mjd0 = mjd_of( ym[k][0], ym[k][1]), mjd1 = (k == n - 1 ? mjd_of( 2021, 12) : mjd_of( ym[k + 1][0], ym[k + 1][1]));
   const double mjd = vp_double( "mjd", 41000., 60000.);
   double got;

   vp_assume( mjd >= (double)mjd0 && mjd <= (double)mjd1 - 1e-5);
   got = td_minus_utc( mjd + 2400000.5);
   vp_reach( "end");
   vp_assert_req( got, 32.184 + (double)( 10 + k), 1e-9, "TD-UTC is 32.184 s plus the leap seconds announced by then");
}
#elif MODE == 1            /* 1961 to 1972 */
extern "C" void harness( void)
{
   static const int ym[][2] = { {1961,1}, {1961,8}, {1962,1}, {1963,11}, {1964,1}, {1964,4}, {1964,9}, {1965,1}, {1965,3}, {1965,7},
            {1965,9}, {1966,1}, {1968,2}, {1972,1} };
   static const double c[13] = { 1.4228180, 1.3728180, 1.8458580, 1.9458580, 3.2401300, 3.3401300, 3.4401300, 3.5401300, 3.6401300,
            3.7401300, 3.8401300, 4.3131700, 4.2131700 };
   static const double ref[13] = { 37300, 37300, 37665, 37665, 38761, 38761, 38761, 38761, 38761, 38761, 38761, 39126, 39126 };
   static const double rate[13] = { .001296, .001296, .0011232, .0011232, .001296, .001296, .001296, .001296, .001296, .001296, .001296, .002592, .002592 };
   const int k = vp_choose( "interval", 0, 12);
   const double mjd = vp_double( "mjd", 37000., 42000.);
   double got;

   vp_assume( mjd >= (double)mjd_of( ym[k][0], ym[k][1]) && mjd <= (double)mjd_of( ym[k + 1][0], ym[k + 1][1]) - 1e-5);
   got = td_minus_utc( mjd + 2400000.5);
   vp_reach( "end");
   vp_assert_req( got, 32.184 + c[k] + (mjd - ref[k]) * rate[k], 1e-7, "TD-UTC is that of the USNO table for 1961-1972");
}
#elif MODE == 2            /* before 1961:  UTC = UT1 */
extern "C" void harness( void)
{
   const double jd = vp_double( "jd", 0., 2437300.49999);
   double got;

   eop_value = vp_double( "TD-UT1", 0., 100000.);
   got = td_minus_utc( jd);
   vp_reach( "end");
   vp_assert( n_eop == 1 && eop_jd == jd && got == eop_value, "before 1961, UTC is UT1");
   vp_assert( td_minus_ut( jd) == eop_value, "TD-UT is that of the earth orientation parameters");
}
#elif MODE == 3            /* after 2021:  predicted,  for each half year */
extern "C" void harness( void)
{
   const int year = YLO + vp_choose( "year", 0, YHI - YLO), half = vp_choose( "half", 0, 1);
   const int y = year - 1;
   const long jan1 = (long)y * 365 + y / 4 - y / 100 + y / 400 - 678575;      /* MJD of 1 Jan,  any year after 0 */
   const int leap = ((year & 3) == 0 && (year % 100 != 0 || year % 400 == 0));
   const long jul1 = jan1 + 181 + leap;
   const long a = half ? jul1 : jan1, b = half ? jan1 + 365 + leap : jul1;
   const double mjd = vp_double( "mjd", 59500., 1200000.);
   double got, rem;
   long secs;

   vp_assume( mjd >= (double)a && mjd <= (double)b - 1e-5);
   vp_assume( mjd > 59550.);
   secs = vp_int( "seconds", -1000, 20000);
   rem = vp_double( "offset", -.4999, .4999);
   eop_value = 32.184 + (double)secs + rem;
   got = td_minus_utc( mjd + 2400000.5);
   vp_reach( "end");
   vp_assert( n_eop == 1 && eop_jd > 2400000.5 + (double)a + 80. && eop_jd < 2400000.5 + (double)b - 80., "Delta-T is taken in the middle of the half year");
   vp_assert_req( got, 32.184 + (double)secs, 1e-6, "a whole number of seconds, nearest to the predicted Delta-T");
}
#elif MODE == 4            /* no predictions beyond a given date */
extern "C" void harness( void)
{
   const double mjd = vp_double( "mjd", 59550., 2000000.);
   double got;

   mjd_end_of_predictive_leap_seconds = (int)vp_int( "end", 57754, 59548);
   got = td_minus_utc( mjd + 2400000.5);
   vp_reach( "end");
   vp_assert( n_eop == 0, "nothing is predicted");
   vp_assert_req( got, 69.184, 1e-9, "the last announced leap second holds");
}
#elif MODE == 5            /* Delta-T from the table of observed values,  1620 to 2024,  and beyond */
extern "C" void harness( void)
{           /* Meeus,  Astronomical Algorithms,  table 10.A;  IERS from 1990 on */
   static const double ref[] = {
            124, 115, 106, 98, 91, 85, 79, 74, 70, 65,
            62, 58, 55, 53, 50, 48, 46, 44, 42, 40,
            37, 35, 33, 31, 28, 26, 24, 22, 20, 18,
            16, 14, 13, 12, 11, 10, 9, 9, 9, 9,
            9, 9, 9, 9, 10, 10, 10, 10, 10, 11,
            11, 11, 11, 11, 11, 11, 11, 12, 12, 12,
            12, 12, 13, 13, 13, 13, 14, 14, 14, 15,
            15, 15, 15, 16, 16, 16, 16, 16, 17, 17,
            17, 17, 17, 17, 17, 17, 16, 16, 15, 14,
            13.7, 13.1, 12.7, 12.5, 12.5, 12.5, 12.5, 12.5, 12.5, 12.3,
            12, 11.4, 10.6, 9.6, 8.6, 7.5, 6.6, 6, 5.7, 5.6,
            5.7, 5.9, 6.2, 6.5, 6.8, 7.1, 7.3, 7.5, 7.7, 7.8,
            7.9, 7.5, 6.4, 5.4, 2.9, 1.6, -1, -2.7, -3.6, -4.7,
            -5.4, -5.2, -5.5, -5.6, -5.8, -5.9, -6.2, -6.4, -6.1, -4.7,
            -2.7, 0, 2.6, 5.4, 7.7, 10.5, 13.4, 16, 18.2, 20.2,
            21.2, 22.4, 23.5, 23.9, 24.3, 24, 23.9, 23.9, 23.7, 24,
            24.3, 25.3, 26.2, 27.3, 28.2, 29.1, 30, 30.7, 31.4, 32.2,
            33.1, 34, 35, 36.5, 38.3, 40.2, 42.2, 44.5, 46.5, 48.5,
            50.5, 52.2, 53.8, 54.9, 55.8, 56.86, 58.31, 59.98, 61.63, 62.97,
            63.83, 64.3, 64.57, 64.85, 65.46, 66.07, 66.6, 67.28, 68.1, 68.97,
            69.36, 69.29, 69.18, };
   const double year = vp_double( "year", YLO, YHI), x = (year - 2024.) / 100.;
   double got, expect;

   if( YLO < 2024)
      {
      const int idx = (YLO - 1620) / 2 + vp_choose( "interval", 0, (YHI - YLO) / 2 - 1);
      const double y0 = 1620. + 2. * (double)idx;

      vp_assume( year >= y0 && year <= y0 + 2.);
      expect = ref[idx] + (ref[idx + 1] - ref[idx]) * (year - y0) / 2.;
      }
   else
      expect = 69.18 - 5.5 * x + 32.5 * x * x;
   got = default_td_minus_ut( 2451545. + (year - 2000.) * 365.25);
   vp_reach( "end");
   vp_assert_req( got, expect, .025, "Delta-T is that of the table,  linearly interpolated");
}
#elif MODE == 6            /* Delta-T before 1620:  Espenak & Meeus polynomials */
extern "C" void harness( void)
{
   const double year = vp_double( "year", YLO, YHI - .0001);
   double got, expect, x, p = 1.;
   int i;
   static const double c0[] = { -20., 0., 32. }, c1[] = { 10583.6, -1014.41, 33.78311, -5.952053, -.1798452, .022174192, .0090316521 },
               c2[] = { 1574.2, -556.01, 71.23472, .319781, -.8503463, -.005050998, .0083572073 }, c3[] = { 120., -98.08, -153.2, 140.272 };
   const double *c = (ERA == 0 ? c0 : ERA == 1 ? c1 : ERA == 2 ? c2 : c3);
   const int n = (ERA == 0 ? 3 : ERA == 3 ? 4 : 7);

   x = (year - (ERA == 0 ? 1820. : ERA == 1 ? 0. : ERA == 2 ? 1000. : 1600.)) / 100.;
   expect = 0.;
   for( i = 0; i < n; i++)
      {
      expect += c[i] * p;
      p *= x;
      }
   got = default_td_minus_ut( 2451545. + (year - 2000.) * 365.25);
   vp_reach( "end");
   vp_assert_req( got, expect, 1e-6, "Delta-T is that of the Five Millennium Catalogue polynomials");
}
#elif MODE == 7            /* user's own formula */
static char str[80];
static int len;

static void add( const char *t) { while( *t) str[len++] = *t++; }

static double coeff( void)
{
   const int neg = vp_int( "negative", 0, 1), d1 = vp_int( "digit", '0', '9'), d2 = vp_int( "digit", '0', '9');
   const double x = (double)( d1 - '0') + (double)( d2 - '0') / 10.;

   str[len++] = (char)( neg ? '-' : '+');
   str[len++] = (char)d1;
   str[len++] = '.';
   str[len++] = (char)d2;
   return( neg ? -x : x);
}

extern "C" void harness( void)
{
   const int part = vp_choose( "part", 0, 1);
   const double year = (part ? vp_double( "year", 1800., 1849.999) : vp_double( "year", 1700., 1799.999));
   const double x = (year - (part ? 2000. : 1750.)) / 100.;
   double c[2][3], got;

   add( "1700,1800:o1750,");
   c[0][0] = coeff( );
   add( ",");
   c[0][1] = coeff( );
   add( ",");
   c[0][2] = coeff( );
   add( ";1800,1850:");
   c[1][0] = coeff( );
   add( ",");
   c[1][1] = coeff( );
   c[1][2] = 0.;
   str[len] = '\0';
   reset_td_minus_dt_string( str);
   got = default_td_minus_ut( 2451545. + (year - 2000.) * 365.25);
   vp_reach( "end");
   vp_assert_req( got, c[part][0] + c[part][1] * x + c[part][2] * x * x, 1e-7, "the user's own formula is used where it applies");
}
#elif MODE == 8            /* any text as the user's formula */
extern "C" void harness( void)
{
   char str[LEN + 1];
   const double year = vp_double( "year", 1., 8.);
   double got;

   vp_bytes_in( "formula", str, LEN, 32, 126);
   str[LEN] = '\0';
   for( int i = 0; i < LEN; i++)        /* no inf,  nan,  hex or exponents */
      vp_assume( str[i] != 'i' && str[i] != 'I' && str[i] != 'n' && str[i] != 'N'
                      && str[i] != 'x' && str[i] != 'X' && str[i] != 'e' && str[i] != 'E');
   reset_td_minus_dt_string( str);
   got = default_td_minus_ut( 2451545. + (year - 2000.) * 365.25);
   vp_reach( "end");
   vp_assert( got > -1e+6 || got < 1e+6, "a value is given");
}
#else                      /* TDB-TDT */
static double s_arg[8], s_val[8];
static int n_sin;

extern "C" long double sinl( long double x) noexcept
{
   const double v = vp_double( "sine", -1., 1.);

   if( n_sin < 8)
      {
      s_arg[n_sin] = (double)x;
      s_val[n_sin] = v;
      }
   n_sin++;
   return( (long double)v);
}

extern "C" void harness( void)
{
   const double t = vp_double( "centuries", -100., 100.);
   /* USNO circular 179,  eq 2.6:  amplitude in microseconds,  radians per century,  radians */
   static const double ref[6][3] = {
      { 1657., 628.3076, 6.2401 }, { 22., 575.3385, 4.2970 }, { 14., 1256.6152, 6.1969 },
      { 5., 606.9777, 4.0212 }, { 5., 52.9691, 0.4444 }, { 2., 21.3299, 5.5431 } };
   double d;
   double sum = 0.;
   int i, j, used[6] = { 0, 0, 0, 0, 0, 0 };

   for( i = 0; i < 6; i++)          /* instants when two terms are in phase are left out */
      for( j = 0; j < i; j++)
         {
         const double diff = (ref[j][1] - ref[i][1]) * t + ref[j][2] - ref[i][2];

         vp_assume( diff < -.05 || diff > .05);
         }
#if MODE == 10          /* TDB-UTC is TDB-TDT plus TDT-UTC,  all in seconds */
   d = tdb_minus_utc( 2451545. + t * 36525.) - td_minus_utc( 2451545. + t * 36525.);
#else
   d = (double)tdb_minus_tdt( (long double)t);
#endif
   vp_reach( "end");
   vp_assert( n_sin == 6, "six periodic terms");
   for( i = 0; i < 6; i++)
      {
      double diff = 0.;
      int found = 0;

      for( j = 0; !found && j < 6; j++)
         if( !used[j])
            {
            diff = s_arg[i] - (ref[j][1] * t + ref[j][2]);
            if( diff > -.02 && diff < .02)
               {
               found = used[j] = 1;
               sum += ref[j][0] * 1e-6 * s_val[i];
               }
            }
      vp_assert( found, "each is one of those of USNO circular 179");
      }
   vp_assert_req( d, sum, 2e-6, "TDB-TDT is their sum");
   vp_assert( d > -.00171 && d < .00171, "TDB and TDT differ by less than 1.71 ms");
}
#endif
