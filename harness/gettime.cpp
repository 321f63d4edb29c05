/* get_time_from_string( ):  text -> time.  The calendar routines are replaced by models that record
   what they are asked for (they are decided on their own:  P01 to P04) */
#include <stdio.h>
#include <string.h>
#include <time.h>
#include "watdefs.h"
#include "date.h"
#include "vp.h"

#define SECS 86400.
#define J2000 2451545.

static char txt[100];
static int n;

static long the_now = 1700000000;

extern "C" time_t time( time_t *t)
{
   if( t)
      *t = the_now;
   return( the_now);
}

#if MODE == 7
#include <math.h>
extern "C" long double find_nearest_lunar_phase_time( const int phase_idx, const long double t2k);

/* Meeus,  _Astronomical Algorithms_,  chap. 47 (49 in the second edition),  without E and the planetary terms */
extern "C" void harness( void)
{
   static const double c[3][9] = {      /* new, full, quarters */
      { -.40720, .17241, .01608, .01039, .00739, -.00514, .00208, -.00111, -.00057 },
      { -.40614, .17302, .01614, .01043, .00734, -.00515, .00209, -.00111, -.00057 },
      { -.62801, .17172, .00862, .00804, .00454, -.01183, .00204, -.00180, -.00070 } };
   const int phase = vp_choose( "phase", 0, 3);
   const double *a = c[phase == 0 ? 0 : phase == 2 ? 1 : 2];
   const double k = (double)vp_int( "lunation", -60000, 60000) + phase / 4.;
   const double t2k = 5.09765 + (k + vp_double( "part of a lunation", -.4999, .4999)) * 29.530588853;
   const double got = find_nearest_lunar_phase_time( phase, t2k);
   const double d = 3.1415926535897932384626 / 180.;
   const double M = (2.5534 + 29.10535669 * k) * d, Mp = (201.5643 + 385.81693528 * k) * d, F = (160.7108 + 390.67050274 * k) * d;
   double want = 5.09765 + k * 29.530588853;

   want += a[0] * sin( Mp) + a[1] * sin( M) + a[2] * sin( Mp + Mp) + a[3] * sin( F + F) + a[4] * sin( Mp - M)
         + a[5] * sin( Mp + M) + a[6] * sin( M + M) + a[7] * sin( Mp - F - F) + a[8] * sin( Mp + F + F);
   if( phase == 1)
      want += .00306;
   if( phase == 3)
      want -= .00306;
   vp_reach( "end");
   vp_assert_req( got, want, 3e-4, "the nearest phase, according to Meeus");
}
#elif MODE == 6
/* the real calendar,  for any month and day whatever */
extern "C" void harness( void)
{
   const int calendar = vp_choose( "calendar", 0, 9), month = vp_int( "month", -2147483647, 2147483647);
   const long year = vp_choose( "year", 0, 2) * 1500 - 1400;
   const int day = vp_int( "day", -100, 100000);

   vp_assume( calendar != CALENDAR_CHINESE);
   if( vp_choose( "what", 0, 1))
      {
      const int rval = days_in_month( month, year, calendar);

      vp_assert( rval >= 0 && rval <= 31, "a possible length");
      if( month < 1 || month > 13)
         vp_assert( rval == 0, "no such month");
      }
   else
      {
      const long rval = dmy_to_day( day, month, year, calendar);

      vp_assert( rval > -2000000 && rval < 5000000, "near that year");
      }
   vp_reach( "end");
}
#else
/* ---- the calendar: dmy_to_day() gives any number for the date asked for */
static int n_dmy, got_day, got_month, got_cal;
static long got_year, dmy_result;

extern "C" long dmy_to_day( const int day, const int month, const long year, const int calendar)
{
   n_dmy++;
   got_day = day;
   got_month = month;
   got_year = year;
   got_cal = calendar;
   dmy_result = vp_long( "day number", -3000000, 9000000);
   return( dmy_result);
}

/* ... and the present date is any date */
static int ini_day = 17, ini_month = 5;
static long ini_year = 1987, ini_jd;

extern "C" void day_to_dmy( const long jd, int *day, int *month, long *year, const int calendar)
{
   vp_assert( jd == ini_jd, "the default date is that of the initial time");
   *day = ini_day;
   *month = ini_month;
   *year = ini_year;
   (void)calendar;
}

/* ---- text */
static void put( const char *s)
{
   while( *s)
      txt[n++] = *s++;
}

/* any number of exactly 'width' digits */
static long digits( int width, long lo, long hi)
{
   long v = 0;

   while( width--)
      {
      const int d = vp_int( "digit", 0, 9);

      txt[n++] = (char)( '0' + d);
      v = v * 10 + d;
      }
   vp_assume( v >= lo && v <= hi);
   return( v);
}

/* any number lo to hi, written without leading zeroes, or with 'width' digits */
static long number( int width, long lo, long hi)
{
   if( !width)
      {
      const int lo_w = (lo < 10 ? 1 : lo < 100 ? 2 : 3), hi_w = (hi < 10 ? 1 : hi < 100 ? 2 : hi < 1000 ? 3 : 4);

      width = vp_choose( "digits", lo_w, hi_w);
      if( width > 1)
         {
         const long p = (width == 2 ? 10 : width == 3 ? 100 : 1000);

         return( digits( width, p > lo ? p : lo, hi));
         }
      }
   return( digits( width, lo, hi));
}

static double fraction( int width)
{
   double scale = 1.;
   int i;

   txt[n++] = '.';
   for( i = 0; i < width; i++)
      scale *= 10.;
   return( (double)digits( width, 0, (long)scale - 1) / scale);
}

#if MODE == 8
static int got_phase = -1;
static double got_near, phase_result;

extern "C" long double find_nearest_lunar_phase_time( const int phase_idx, const long double t2k)
{
   vp_assert( got_phase == -1, "the phase is looked up once");
   got_phase = phase_idx;
   got_near = (double)t2k;
   return( phase_result = vp_double( "time of phase", -1e6, 1e6));
}
#elif MODE == 5
extern "C" long double find_nearest_lunar_phase_time( const int phase_idx, const long double t2k)
{
   (void)phase_idx;
   (void)t2k;
   return( vp_double( "time of phase", -1e6, 1e6));
}
#endif

static const char *names[12] = { "jan", "Feb", "MAR", "apr", "may", "June", "July", "august", "Sept", "october", "Nov", "december" };
static const char *dow[7] = { "Sun", "Monday", "tue", "WEDNESDAY", "thurs", "Fri", "Sat" };

static void same( double got, double want, const char *msg)
{
   vp_assert_req( got, want, 2e-9, msg);
}

static int expect_ut = 0;

static double run( double ini, int format)
{
   int is_ut = 99;
   double rval;

   txt[n] = '\0';
   rval = get_time_from_string( ini, txt, format, &is_ut);
   vp_assert( is_ut == expect_ut, "the text is understood, and marked as UT if a (modified) Julian Day");
   return( rval);
}

static double initial( void)
{
   ini_jd = vp_long( "initial JD", 1000000, 4000000);
   return( (double)ini_jd - .5 + (double)vp_int( "initial half minutes", 0, 2879) / 2880.);
}

static void expect_date( long year, int month, int day, int calendar)
{
   vp_assert( n_dmy == 1, "the date is looked up once");
   vp_assert( got_year == year, "year is as written");
   vp_assert( got_month == month, "month is as written");
   vp_assert( got_day == day, "day is as written");
   vp_assert( got_cal == calendar, "the calendar asked for is used");
}

/* a time of day;  returns seconds */
static double time_of_day( int style)
{
   double rval;
   const int width = (style & 1) ? 2 : 0;

   style >>= 1;
   rval = 3600. * (double)number( width, 0, 23);
   put( ":");
   if( style == 4)
      return( rval);                               /* HH: */
   rval += 60. * (double)number( width, 0, 59);
   if( style == 1)
      rval += 60. * fraction( 3);                  /* HH:MM.mmm */
   if( style >= 2)
      {
      put( ":");
      rval += (double)number( width, 0, 59);
      }
   if( style == 3)
      rval += fraction( FRAC);
   return( rval);
}

#if MODE == 0           /* Julian Days and other running counts */
extern "C" void harness( void)
{
   static const char *pre[8] = { "JD ", "jd", "J", "j ", "", " JD", "mjd ", "MJD" };
   const int kind = KIND;
   const double ini = J2000;
   double want = 0., got;

   if( kind < 6)
      {
      put( pre[kind]);
      want = (double)( kind == 4 ? digits( 7, 1000000, 9999999) : digits( 7, 0, 9999999));
      if( vp_choose( "decimals", 0, 1))
         want += fraction( FRAC);
      vp_assume( want > 1e-3);        /* JD 0.0 is not recognised */
      expect_ut = 1;
      }
   else if( kind < 8)
      {
      put( pre[kind]);
      want = 2400000.5 + (double)number( vp_choose( "digits", 1, 5), 0, 99999);
      if( vp_choose( "decimals", 0, 1))
         want += fraction( FRAC);
      expect_ut = 1;
      }
   else if( kind == 8)
      {
      put( "unix ");
      want = (double)digits( vp_choose( "digits", 1, 10), 0, 9999999999L);
      if( vp_choose( "decimals", 0, 1))
         want += fraction( FRAC);
      want = 2440587.5 + want / SECS;
      }
   else if( kind == 9)
      {
      put( vp_choose( "space", 0, 1) ? "gps " : "GPS");
      want = 7. * (double)digits( 4, 0, 9999) + 2444244.5;
      want += (double)digits( 1, 0, 9);
      }
   else if( kind == 10)                /* decimal years */
      {
      put( vp_choose( "letter", 0, 1) ? "y" : "Y");
      want = (double)digits( 4, 0, 9999);
      want += fraction( FRAC);
      want = J2000 + (want - 2000.) * 365.25 - .5;
      }
   else
      {
      want = (double)digits( 4, 1000, 9999);
      want += fraction( FRAC);
      vp_assume( want - (double)(long)want > 1e-6);
      want = J2000 + (want - 2000.) * 365.25 - .5;
      }
   ini_jd = (long)ini;
   got = run( ini, 0);
   vp_reach( "end");
   vp_assert( !n_dmy, "no date is looked up");
   same( got, want, "the time is as written");
}
#endif

#if MODE == 1        /* three fields */
/* ORDER: which field is first, second, third (y, m, d = 0, 1, 2);  SEP: separator;
   MONTH: 0 number, 1 name;  DAY: 0 integer, 1 decimal;  YEAR: 0 four digits, 1 five,
   2 two digits (as they stand),  3 two digits (with the two-digit option), 4 negative, 5 BC, 6 AD */
extern "C" void harness( void)
{
   static const char *separators[] = { "-", "/", " ", "." };
   static const int order[6][3] = { {0,1,2}, {0,2,1}, {1,0,2}, {2,0,1}, {1,2,0}, {2,1,0} };
   const int calendar = CALENDAR;
   const int max_month = (calendar == CALENDAR_HEBREW || calendar == CALENDAR_CHINESE) ? 13 : 12;
   const int month_day = vp_choose( "month before day", 0, 1), year_first = vp_choose( "year first", 0, 1);
   int format = calendar | (month_day ? FULL_CTIME_MONTH_DAY : 0) | (year_first ? FULL_CTIME_YEAR_FIRST : 0);
   const int which = (ORDER < 0 ? vp_choose( "order", 0, 5) : ORDER), sep = (SEP < 0 ? vp_choose( "separator", 0, 2) : SEP);
   const int *o = order[which];
   const int md_order = (which == 0 || which == 2 || which == 4);    /* month before day,  as written */
   const double ini = initial( );
   double got, frac = 0., secs = 0.;
   long year = 0;
   int month = 0, day = 0, i;

   for( i = 0; i < 3; i++)
      {
      if( i)
         put( separators[sep]);
      if( o[i] == 0)
         {
         if( YEAR == 0)
            year = digits( 4, 100, 9999);
         else if( YEAR == 1)
            year = digits( 5, 10000, 99999);
         else if( YEAR == 2 || YEAR == 3)
            year = number( 2, 1, 99);
         else if( YEAR == 7)       /* month spelt and day decimal: the rest is the year */
            year = number( 2, 1, 99);
         else if( YEAR == 4)
            {
            put( "-");
            year = -number( 0, 1, 999);
            }
         else if( YEAR == 5)
            {
            put( vp_choose( "BC", 0, 1) ? "BC" : "B.C.");
            year = 1 - number( 0, 33, 9999);
            }
         else
            {
            year = number( 0, 100, 9999);
            put( vp_choose( "AD", 0, 1) ? " AD" : " a.d.");
            }
         }
      else if( o[i] == 1)
         {
         if( MONTH)
            put( names[(month = (MNAMES == 12 ? vp_choose( "month", 1, 12) : 5 * vp_choose( "month", 1, 2))) - 1]);
         else
            month = number( vp_choose( "width", 1, 2), 1, max_month);
         }
      else
         {
         day = number( vp_choose( "width", 1, 2), 1, 31);
         if( DAY)
            frac = fraction( FRAC);
         }
      }
   if( YEAR == 2)       /* small year:  one beyond 32 is recognised;  otherwise it has to be in its usual place */
      vp_assume( year > 32 || (!MONTH && year_first == (o[0] == 0) && !DAY && md_order == month_day
                     && o[1] != 0 && o[year_first ? 0 : 2] == 0));
   if( YEAR == 2)
      vp_assume( year > 32 || (year_first ? which < 2 : which > 3));
   if( YEAR == 3)
      {
      format |= FULL_CTIME_TWO_DIGIT_YEAR;
      vp_assume( year > 32 || (!MONTH && (year_first ? which < 2 : which > 3) && !DAY && md_order == month_day));
      }
   /* all-number dates:  the order has to be that of the format,  unless it's clear which is the day */
   if( !MONTH && !DAY)
      vp_assume( md_order == month_day || (day > max_month && (YEAR != 2 && YEAR != 3)) || day == month);
   if( vp_choose( "with a time", 0, WITH_TIME))
      {
      put( " ");
      secs = time_of_day( 7);
      }
   got = run( ini, format);
   vp_reach( "end");
   if( YEAR == 3)
      {
      const long this_year = 1970 + the_now / (1461 * 86400 / 4);

      vp_assert( (got_year - year) % 100 == 0 && got_year >= this_year - 60 && got_year < this_year + 40, "two-digit years are from 60 years ago to 40 years hence");
      year = got_year;
      }
   expect_date( year, month, day, calendar);
   same( got, (double)dmy_result - .5 + frac + secs / SECS, "the time is that of the date written");
}
#endif

#if MODE == 2        /* two fields,  or one;  the rest from the initial time */
extern "C" void harness( void)
{
   static const char *separators[] = { "-", "/", " " };
   const int month_day = vp_choose( "month before day", 0, 1);
   const int format = month_day ? FULL_CTIME_MONTH_DAY : 0;
   const double ini = initial( );
   double got, frac = 0., secs = 0.;
   long year = ini_year = vp_long( "initial year", -4000, 9000);
   int month = ini_month = vp_int( "initial month", 1, 12), day = ini_day = vp_int( "initial day", 1, 31);
   const int sep = (SEP < 0 ? vp_choose( "separator", 0, 2) : SEP);
   const int swapped = vp_choose( "second field first", 0, 1);
   int i;

   if( KIND == 0)          /* month name and day */
      for( i = 0; i < 2; i++)
         {
         if( i)
            put( separators[sep]);
         if( i == swapped)
            put( names[(month = vp_choose( "month", 1, 12)) - 1]);
         else
            {
            day = number( vp_choose( "width", 1, 2), 1, 31);
            if( vp_choose( "decimals", 0, 1))
               frac = fraction( FRAC);
            }
         }
   else if( KIND == 1)        /* month and day, both numbers */
      {
      for( i = 0; i < 2; i++)
         {
         if( i)
            put( separators[sep]);
         if( i == swapped)
            month = number( vp_choose( "width", 1, 2), 1, 12);
         else
            {
            day = number( vp_choose( "width", 1, 2), 1, 31);
            if( vp_choose( "decimals", 0, DECIMALS))
               frac = fraction( FRAC);
            }
         }
#if !DECIMALS
      vp_assume( month_day == !swapped || day > 12);
#else
      vp_assume( frac > 0.);
#endif
      }
   else if( KIND == 2)        /* month name and year: the day stays */
      for( i = 0; i < 2; i++)
         {
         if( i)
            put( separators[sep]);
         if( i == swapped)
            put( names[(month = vp_choose( "month", 1, 12)) - 1]);
         else
            year = digits( 4, 32, 9999);
         }
   else if( KIND == 3)        /* year and day of year */
      for( i = 0; i < 2; i++)
         {
         if( i)
            put( separators[sep]);
         if( i == swapped)
            year = digits( 4, 1000, 9999);
         else
            {
            month = 1;
            day = number( vp_choose( "width", 1, 3), 1, 366);
            if( vp_choose( "decimals", 0, 1))
               frac = fraction( FRAC);
            }
         }
   else if( KIND == 4)        /* month alone */
      put( names[(month = vp_choose( "month", 1, 12)) - 1]);
   else if( KIND == 5)        /* day alone */
      {
      day = number( vp_choose( "width", 1, 2), 1, 31);
      if( vp_choose( "decimals", 0, 1))
         frac = fraction( FRAC);
      }
   else if( KIND == 6)        /* day of the present year */
      {
      day = digits( 3, 1, 366);
      month = 1;
      if( vp_choose( "decimals", 0, 1))
         frac = fraction( FRAC);
      }
   else if( KIND == 7)        /* year alone */
      {
      const int width = vp_choose( "width", 4, 5);

      year = digits( width, 0, 99999);
      month = day = 1;
      }
   else if( KIND == 8)        /* YYMMDD,  YYYYMMDD */
      {
      const int width = vp_choose( "year digits", 0, 1);

      year = width ? digits( 4, 0, 9999) : digits( 2, 0, 99);
      if( !width)
         year += (year < 40 ? 2000 : 1900);
      month = digits( 2, 1, 12);
      day = digits( 2, 1, 31);
      if( vp_choose( "decimals", 0, 1))
         frac = fraction( FRAC);
      }
   else if( KIND == 9)        /* day of the week:  the nearest such day */
      {
      const int d = vp_choose( "day of week", 0, 6);

      put( dow[d]);
      if( vp_choose( "with a time", 0, 1))
         {
         put( " ");
         secs = time_of_day( 7);
         }
      got = run( ini, 0);
      vp_reach( "end");
      vp_assert( got_year == ini_year && got_month == ini_month, "the date is the initial one");
      vp_assert( got_day - ini_day >= -3 && got_day - ini_day <= 3, "the nearest such day");
      vp_assert( (ini_jd + 1 + got_day - ini_day) % 7 == d, "it falls on that day of the week");
      same( got, (double)dmy_result - .5 + secs / SECS, "the time is that of that day");
      return;
      }
   if( KIND != 2 && vp_choose( "with a time", 0, WITH_TIME))
      {
      put( " ");
      secs = time_of_day( 7);
      }
   got = run( ini, format);
   vp_reach( "end");
   expect_date( year, month, day, 0);
   same( got, (double)dmy_result - .5 + frac + secs / SECS, "the time is that of the date written");
}
#endif

#if MODE == 3           /* times of day,  after a date,  FITS style,  or on the initial date */
extern "C" void harness( void)
{
   const double ini = initial( );
   double got, secs = 0.;
   long year = ini_year;
   int month = ini_month, day = ini_day;
   const double minutes = (ini - (double)ini_jd + .5) * 1440.;
   const int hour = (int)( minutes / 60.);

   if( KIND == 0)       /* FITS */
      {
      year = digits( 4, 0, 9999);
      put( "-");
      month = digits( 2, 1, 12);
      put( "-");
      day = digits( 2, 1, 31);
      put( "T");
      secs = 3600. * (double)digits( 2, 0, 23);
      put( ":");
      secs += 60. * (double)digits( 2, 0, 59);
      put( ":");
      secs += (double)digits( 2, 0, 60);
      if( vp_choose( "decimals", 0, 1))
         secs += fraction( FRAC);
      }
   else if( KIND == 1)        /* time alone */
      secs = time_of_day( vp_choose( "time style", 0, 9));
   else if( KIND == 2)        /* after a date */
      {
      put( "2009-01-23 ");
      year = 2009;
      month = 1;
      day = 23;
      secs = time_of_day( vp_choose( "time style", 0, 9));
      }
   else if( KIND == 3)        /* AM, PM */
      {
      static const char *text[10] = { " am", " AM", " a.m.", " A.M.", "am", " pm", " PM", " p.m.", " P.M.", "PM" };
      const int which = vp_choose( "AM or PM", 0, 9);
      const long h = number( 0, 1, 12);

      secs = 3600. * (double)( h % 12 + (which >= 5 ? 12 : 0));
      put( ":");
      secs += 60. * (double)digits( 2, 0, 59);
      if( vp_choose( "seconds", 0, 1))
         {
         put( ":");
         secs += (double)digits( 2, 0, 59);
         }
      put( text[which]);
      }
   else if( KIND == 4)        /* the hour stays: ":MM" or ":MM:SS" */
      {
      secs = 3600. * (double)hour;
      put( ":");
      secs += 60. * (double)number( vp_choose( "width", 1, 2), 0, 59);
      if( vp_choose( "seconds", 0, 1))
         {
         put( ":");
         secs += (double)digits( 2, 0, 59);
         if( vp_choose( "decimals", 0, 1))
            secs += fraction( FRAC);
         }
      }
   else if( KIND == 5)        /* the time of day stays:  "date :" */
      {
      put( "2009-01-23 :");
      year = 2009;
      month = 1;
      day = 23;
      secs = minutes * 60.;
      }
   else                       /* d.m.yyyy */
      {
      day = number( vp_choose( "width", 1, 2), 1, 31);
      put( ".");
      month = number( vp_choose( "width", 1, 2), 1, 12);
      put( ".");
      year = digits( 4, 33, 9999);
      put( " ");
      secs = time_of_day( 7);
      }
   got = run( ini, 0);
   vp_reach( "end");
   expect_date( year, month, day, 0);
   same( got, (double)dmy_result - .5 + secs / SECS, "the time is as written");
}
#endif

#if MODE == 4           /* offsets */
extern "C" void harness( void)
{
   static const char *units = "smhdwlyc";
   static const double scale[8] = { 1. / 86400., 1. / 1440., 1. / 24., 1., 7., 29.530588853, 365.25, 36525. };
   const double ini = initial( );
   double got, want = ini, offset = 0.;
   int i;

   if( KIND == 0)       /* any number of days */
      {
      const int minus = vp_choose( "minus", 0, 1);

      put( minus ? "-" : "+");
      offset = (double)number( 0, 1, 999);
      if( vp_choose( "decimals", 0, 1))
         offset += fraction( FRAC);
      if( minus)
         offset = -offset;
      }
   else
      {
      if( KIND == 2)
         {
         put( "JD 2451545.25 ");
         want = 2451545.25;
         expect_ut = 1;
         }
      if( KIND == 3)
         put( "now ");
      for( i = 0; i < N_OFFSETS; i++)
         {
         const int odd = i & 1;        /* the second is spelt in one way,  in hours or days */
         const int minus = vp_choose( "minus", 0, 1), unit = odd ? vp_choose( "unit", 2, 3) : vp_choose( "unit", 0, 7);
         double v;

         put( minus ? "-" : "+");
         v = (double)number( odd ? 2 : 0, 1, 99);
         if( odd || vp_choose( "decimals", 0, 1))
            v += fraction( 2);
         if( !odd && vp_choose( "space", 0, 1))
            put( " ");
         txt[n++] = units[unit];
         if( !odd && vp_choose( "space", 0, 1))
            put( " ");
         offset += (minus ? -v : v) * scale[unit];
         }
      }
   if( KIND == 3)
      {
      the_now = vp_long( "now", 0, 4000000000L);
      want = 2440587.5 + (double)the_now / SECS;
      }
   got = run( ini, 0);
   vp_reach( "end");
   vp_assert( !n_dmy, "no date is looked up");
   same( got, want + offset, "the time is changed by the offsets written");
}
#endif

#if MODE == 5           /* any text:  memory safe,  and it ends */
extern "C" void harness( void)
{
   char text[90];
   int is_ut = 0;
   double got;

   ini_jd = 2451545;
   memset( text, 0, sizeof( text));
#if KIND == 0           /* any bytes */
   vp_bytes_in( "text", text, LEN, 1, 255);
#elif KIND == 1         /* a repeated pattern,  up to and beyond the longest text allowed */
   {
   static const int lengths[] = { 10, 52, 53, 54, 55, 60, 64, 70, 75, 78, 79, 80, 85 };
   const int len = lengths[vp_choose( "length", LEN, LEN + 3)], period = vp_choose( "period", 1, 4);
   char pattern[4];
   int letters = 0;

   for( int i = 0; i < period; i++)
      {
      const int kind = vp_choose( "kind", 0, 1);

      pattern[i] = (char)( kind ? '1' : 'x');
      letters += !kind;
      }
   vp_assume( letters > 0);
   for( int i = 0; i < len; i++)
      text[i] = pattern[i % period];
   }
#else                   /* fields that look like dates,  with any numbers,  and a stray letter or sign */
   {
   static const char *seps = "-/ .:+";
   const int s2 = vp_choose( "separator", 0, 5), s3 = vp_choose( "separator", 0, 5);

   if( START == 1)
      put( "2009");
   if( START == 2)
      put( "13");
   if( START == 3)
      put( "oct");
   txt[n++] = seps[vp_choose( "separator", LEN, LEN + 2)];
   digits( 2, 0, 99);
   txt[n++] = seps[s2];
   digits( 1, 0, 9);
   txt[n++] = seps[s3];
   digits( 1, 0, 9);
   if( vp_choose( "letter", 0, 1))
      txt[n++] = "dxs"[vp_choose( "which", 0, 2)];
   memcpy( text, txt, n);
   }
#endif
   got = get_time_from_string( J2000, text, vp_choose( "format", 0, 1) ? FULL_CTIME_YMD : 0, &is_ut);
   vp_reach( "end");
   vp_assert( is_ut <= 1 && is_ut >= -6, "a known result");
   vp_assert( is_ut >= -3 || n_dmy < 3, "at most the date and that of a phase");
   (void)got;
}
#endif


#if MODE == 8           /* the nearest new moon,  first quarter... */
extern "C" void harness( void)
{
   static const char *text[8] = { "nm", "1q", "fm", "3q", "NM", "1Q", "Fm", "3Q" };
   static const char *offs[4] = { "", "-3d", " +2 h", "+9 m" };
   static const double offset[4] = { 0., -3., 2. / 24., 9. / 1440. };
   static const char *base[4] = { "", "2011 dec 13 ", "13-12-2011 6:00 ", "JD 2451545.25 " };
   const double ini = initial( );
   const int phase = vp_choose( "phase", 0, 7), o = vp_choose( "offset", 0, 3), b = vp_choose( "date", 0, 3), first = vp_choose( "offset first", 0, 3);
   double got, want = ini;

   put( base[b]);
   if( b)
      {
      put( offs[first]);
      if( first)
         put( " ");
      }
   put( text[phase]);
   put( offs[o]);
   expect_ut = 1;
   got = run( ini, 0);
   vp_reach( "end");
   if( b == 1 || b == 2)
      {
      expect_date( 2011, 12, 13, 0);
      want = (double)dmy_result - .5 + (b == 2 ? .25 : 0.);
      }
   if( b == 3)
      want = 2451545.25;
   if( b)
      want += offset[first];
   vp_assert( got_phase == phase % 4, "the phase written");
   same( got_near + J2000, want, "the phase nearest to the time written");
   same( got, phase_result + J2000 + offset[o], "the time is that of the phase");
}
#endif

#endif
