/* full_ctimel( ): the text shows exactly the date and time */
#include <stdio.h>
#include <string.h>
#include "watdefs.h"
#include "date.h"
#include "afuncs.h"
#include "vp.h"

static const char *months[12] = { "Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec" };
static const char *dows[7] = { "Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat" };

static char want[120];
static int nw;

static void add( const char *s) { while( *s) want[nw++] = *s++; }

static void number( long n, int width, char pad)
{
   int i;
   long p = 1;

   for( i = 1; i < width; i++)
      p *= 10;
   for( ; p; p /= 10)
      {
      if( n < p && p > 1)
         want[nw++] = pad;
      else
         want[nw++] = (char)( '0' + n / p % 10);
      }
}

static void fixed( long n, int width)     /* with leading zeroes */
{
   int i;
   long p = 1;

   for( i = 1; i < width; i++)
      p *= 10;
   for( ; p; p /= 10)
      want[nw++] = (char)( '0' + n / p % 10);
}

/* width four, sign included */
static void put_year( const long y, const char pad)
{
   const long a = (y < 0 ? -y : y);
   int n = 1, i;
   long p = 1;

   while( a >= p * 10)
      {
      n++;
      p *= 10;
      }
   if( y < 0 && pad == '0')
      want[nw++] = '-';
   for( i = n + (y < 0); i < 4; i++)
      want[nw++] = pad;
   if( y < 0 && pad != '0')
      want[nw++] = '-';
   fixed( a, n);
}

/* 'n' arbitrary decimals: their digits are kept in decs */
static int decs[20];

static long double decimals( const int n)
{
   long double rval = 0.L, scale = 1.L;
   int i;

   for( i = 0; i < n; i++)
      {
      scale /= 10.L;
      decs[i] = vp_int( "digit", 0, 9);
      rval += (long double)decs[i] * scale;
      }
   return( rval);
}

static void add_decimals( const int n)
{
   int i;

   if( n)
      want[nw++] = '.';
   for( i = 0; i < n; i++)
      want[nw++] = (char)( '0' + decs[i]);
}

/* The calendar (see P01-P04) is abstracted:  any day can be any date */
static long the_jd, the_year;
static int the_day, the_month, the_day_of_year;

void DLL_FUNC day_to_dmy( const long jd, int *day, int *month, long *year, const int calendar)
{
   vp_assert( jd == the_jd, "the date of the right day is shown");
   vp_assert( calendar == ((FORMAT) & CALENDAR_MASK), "the calendar asked for is used");
   *day = the_day;
   *month = the_month;
   *year = the_year;
}

long DLL_FUNC dmy_to_day( const int day, const int month, const long year, const int calendar)
{
   vp_assert( month == 1 && year == the_year, "day of year counts from the start of the year");
   vp_assert( calendar == ((FORMAT) & CALENDAR_MASK), "the calendar asked for is used");
   return( the_jd - the_day_of_year + day);
}

const char * DLL_FUNC set_month_name( const int month, const char *new_name)
{
   return( months[month - 1]);
}

const char * DLL_FUNC set_day_of_week_name( const int day_of_week, const char *new_name)
{
   return( dows[day_of_week]);
}

#if ((FORMAT) & FULL_CTIME_FORMAT_MASK) >= FULL_CTIME_FORMAT_YEAR      /* year, JD, MJD */
extern "C" void harness( void)
{
   char buff[90];
   const int of = (FORMAT) & FULL_CTIME_FORMAT_MASK, prec = ((FORMAT) >> 4) & 15;
   const bool rounding = ((FORMAT) & FULL_CTIME_ROUNDING) != 0;
   const int is_jd = (of == FULL_CTIME_FORMAT_JD), width = (of == FULL_CTIME_FORMAT_YEAR ? 4 : is_jd ? 7 : 5);
   long tens = 1;
   int i;

   for( i = 0; i < prec; i++)
      tens *= 10;
   const long whole = vp_int( "whole", of == FULL_CTIME_FORMAT_YEAR ? 1000 : is_jd ? 1000000 : 10000,
                                       of == FULL_CTIME_FORMAT_YEAR ? 9998 : is_jd ? 9999998 : 99998);
   const long double sub = decimals( prec);
   const double rest = vp_double( "rest", .01, .99);
   long double t = (long double)whole + sub + (long double)rest / (long double)tens;

   if( of == FULL_CTIME_FORMAT_YEAR)
      {                                     /* truncated unless rounding */
      if( rounding)
         t -= .5L / (long double)tens;
      t = (t - 2000.L) * 365.25L;
      if( !rounding)
         t -= .05L / (long double)( 86400L * tens);
      }
   else                                      /* always rounded */
      {
      t -= .5L / (long double)tens;
      if( !rounding)
         t -= .05L / (long double)( 86400L * tens);
      t -= (is_jd ? 2451545.L : 51544.5L);
      }
   memset( buff, 1, sizeof( buff));
   full_ctimel( buff, t, FORMAT);
   vp_reach( "end");
   nw = 0;
   if( of != FULL_CTIME_FORMAT_YEAR)
      add( is_jd ? "JD " : "MJD ");
   fixed( whole, width);
   add_decimals( prec);
   want[nw] = '\0';
   for( i = 0; i <= nw; i++)
      vp_assert( buff[i] == want[i], "the text shows the time in the format asked for");
   for( i = 80; i < 90; i++)
      vp_assert( buff[i] == 1, "nothing is written beyond 80 bytes");
}
#else
extern "C" void harness( void)
{
   char buff[90];
   const int of = (FORMAT) & FULL_CTIME_FORMAT_MASK, prec = ((FORMAT) >> 4) & 15;
   const char pad = ((FORMAT) & FULL_CTIME_LEADING_ZEROES) ? '0' : ' ';
   const long year = the_year = vp_int( "year", YLO, YHI);
#if (FORMAT) & FULL_CTIME_MONTHS_AS_DIGITS
   const int month = the_month = vp_int( "month", 1, 13);
#else
   const int month = the_month = vp_choose( "month", 1, 12);
#endif
   const int day = the_day = (int)vp_int( "day", 1, 31);
   const long units = (of == FULL_CTIME_FORMAT_SECONDS ? 86400 : of == FULL_CTIME_FORMAT_HH_MM ? 1440 :
                        of == FULL_CTIME_FORMAT_HH ? 24 : 1);
   long tens = 1;
   int i;

   the_day_of_year = (int)vp_int( "day of year", 1, 385);
#if (FORMAT) & (FULL_CTIME_DAY_OF_WEEK_FIRST | FULL_CTIME_DAY_OF_WEEK_LAST)
   const int dow = vp_choose( "day of week", 0, 6);
   const long jd = the_jd = vp_long( "week", -280000000, 280000000) * 7 + dow - 1;
#else
   const int dow = 0;
   const long jd = the_jd = vp_long( "jd", -2000000000, 2000000000);
#endif
   for( i = 0; i < prec; i++)
      tens *= 10;
   const int hr = (of == FULL_CTIME_FORMAT_DAY) ? 0 : vp_int( "hour", 0, 23);
   const int mi = (of == FULL_CTIME_FORMAT_DAY || of == FULL_CTIME_FORMAT_HH) ? 0 : vp_int( "minute", 0, 59);
   const int se = (of == FULL_CTIME_FORMAT_SECONDS) ? vp_int( "second", 0, 59) : 0;
   const long whole = (of == FULL_CTIME_FORMAT_SECONDS ? hr * 3600L + mi * 60L + se : of == FULL_CTIME_FORMAT_HH_MM ? hr * 60L + mi : hr);
   const long double sub = decimals( prec);
   const double rest = vp_double( "rest", .01, .99);
   long double t = (long double)( jd - 2451545) - .5L + (long double)whole / (long double)units
                     + (sub + (long double)rest / (long double)tens) / (long double)units;

   if( (FORMAT) & FULL_CTIME_ROUNDING)
      t -= .5L / (long double)( units * tens);
   else
      t -= .05L / (long double)( 86400L * tens);
   memset( buff, 1, sizeof( buff));
   full_ctimel( buff, t, FORMAT);
   vp_reach( "end");
   /* expected text */
   nw = 0;
   if( (FORMAT) & FULL_CTIME_DAY_OF_WEEK_FIRST)
      {
      add( dows[dow]);
      add( " ");
      }
   if( !((FORMAT) & FULL_CTIME_TIME_ONLY))
      {
      char d[40];
      int nd;
      const int start = nw;

      /* the day, with its decimals */
      if( (FORMAT) & FULL_CTIME_DAY_OF_YEAR)
         fixed( the_day_of_year, 3);
      else
         number( day, 2, pad);
      if( of == FULL_CTIME_FORMAT_DAY)
         add_decimals( prec);
      nd = nw - start;
      memcpy( d, want + start, nd);
      d[nd] = '\0';
      nw = start;
      if( ((FORMAT) & FULL_CTIME_YEAR_FIRST) && !((FORMAT) & FULL_CTIME_NO_YEAR))
         {
         if( (FORMAT) & FULL_CTIME_TWO_DIGIT_YEAR)
            fixed( (year < 0 ? -year : year) % 100, 2);
         else
            put_year( year, pad);
         add( " ");
         }
      if( (FORMAT) & FULL_CTIME_DAY_OF_YEAR)
         add( d);
      else for( i = 0; i < 2; i++)
         {
         if( (i == 0) == (((FORMAT) & FULL_CTIME_MONTH_DAY) != 0))
            {
            if( (FORMAT) & FULL_CTIME_MONTHS_AS_DIGITS)
               number( month, 2, pad);
            else
               add( months[month - 1]);
            }
         else
            add( d);
         if( !i)
            add( " ");
         }
      if( !((FORMAT) & (FULL_CTIME_YEAR_FIRST | FULL_CTIME_NO_YEAR)))
         {
         add( " ");
         if( (FORMAT) & FULL_CTIME_TWO_DIGIT_YEAR)
            fixed( (year < 0 ? -year : year) % 100, 2);
         else
            put_year( year, pad);
         }
      if( of != FULL_CTIME_FORMAT_DAY)
         add( " ");
      }
   if( of != FULL_CTIME_FORMAT_DAY)
      number( hr, 2, pad);
   if( of == FULL_CTIME_FORMAT_SECONDS || of == FULL_CTIME_FORMAT_HH_MM)
      {
      add( ":");
      fixed( mi, 2);
      }
   if( of == FULL_CTIME_FORMAT_SECONDS)
      {
      add( ":");
      fixed( se, 2);
      }
   if( of != FULL_CTIME_FORMAT_DAY)
      add_decimals( prec);
   if( (FORMAT) & FULL_CTIME_DAY_OF_WEEK_LAST)
      {
      add( " ");
      add( dows[dow]);
      }
   want[nw] = '\0';
   if( (FORMAT) & (FULL_CTIME_NO_SPACES | FULL_CTIME_NO_COLONS))
      {
      int j = 0;

      for( i = 0; i < nw; i++)
         if( !(want[i] == ' ' && ((FORMAT) & FULL_CTIME_NO_SPACES))
                  && !(want[i] == ':' && ((FORMAT) & FULL_CTIME_NO_COLONS)))
            want[j++] = want[i];
      want[j] = '\0';
      nw = j;
      }
   for( i = 0; i <= nw; i++)
      vp_assert( buff[i] == want[i], "the text shows the date and time in the format asked for");
   for( i = 80; i < 90; i++)
      vp_assert( buff[i] == 1, "nothing is written beyond 80 bytes");
}
#endif
