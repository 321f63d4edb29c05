/* date/time field of 80-column astrometry records */
#include <stdio.h>
#include <string.h>
#include "watdefs.h"
#include "mpc_func.h"
#include "vp.h"

static char rec[85];

static int put( const int col, const int n)        /* n arbitrary digits at col;  returns their value */
{
   int i, rval = 0;

   for( i = 0; i < n; i++)
      {
      rec[col + i] = (char)vp_int( "digit", '0', '9');
      rval = rval * 10 + (rec[col + i] - '0');
      }
   return( rval);
}

static double fraction( const int col, const int n)
{
   int i;
   double rval = 0., scale = 1.;

   for( i = 0; i < n; i++)
      {
      rec[col + i] = (char)vp_int( "digit", '0', '9');
      scale /= 10.;
      rval += (double)( rec[col + i] - '0') * scale;
      }
   return( rval);
}

/* JD of noon, from first principles */
static long ref_jd( const int day, const int month, const int year)
{
   static const int days[12] = { 0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334 };
   const bool greg = year > 1582 || (year == 1582 && (month > 10 || (month == 10 && day > 4)));
   const int y = year + 4799;             /* complete years since 1 Jan 4801 BC */
   bool leap = (year % 4 == 0);
   long rval = 365L * y + y / 4 - 31777L;

   if( greg)
      {
      rval += -(y / 100) + y / 400 + 38;
      if( year % 100 == 0 && year % 400 != 0)
         leap = false;
      }
   return( rval + days[month - 1] + (leap && month > 2) + day);
}

#ifdef ANY            /* arbitrary records;  the calendar (see P01) may return any day */
#include "date.h"
long DLL_FUNC dmy_to_day( const int day, const int month, const long year, const int calendar)
{
   vp_assert( day >= 0 && month >= 1 && month <= 12 && year >= 0 && year < 10000 && calendar == CALENDAR_JULIAN_GREGORIAN, "only sensible dates are converted");
   return( vp_long( "day", 1700000, 5400000));
}

extern "C" void harness( void)
{
   unsigned format = 777;
   const int len = LEN;

   vp_bytes_in( "record", rec, len, 1, 127);
   rec[len] = '\0';
   const bool ok = (len >= 80 && len <= 82) && (rec[12] == ' ' || rec[12] == '*' || rec[12] == '-');
   const bool is_radar = (rec[14] == 'R' || rec[14] == 'r');
   if( len > 79)
      vp_assert( is_valid_mpc_code( rec + 77) == (rec[77] > ' ' && rec[77] <= 'z' && rec[78] > ' ' && rec[78] <= 'z'
                  && rec[79] > ' ' && rec[79] <= 'z'), "station codes are three printing characters up to z");
   vp_assume( !is_radar);
   for( int i = 20; i < 32; i++)          /* exponents are beyond the model of atof( ) */
      vp_assume( rec[i] != 'e' && rec[i] != 'E');
   const double jd = extract_date_from_mpc_report( rec, &format);
   vp_reach( "end");
   if( !ok || !is_valid_mpc_code( rec + 77))
      vp_assert( jd == 0., "records of the wrong length,  or without an asterisk/blank/dash or a station code,  have no date");
   if( jd != 0.)
      vp_assert( format < 60, "a date comes with a format");
}
#else
extern "C" void harness( void)
{
   double want = 0.;
   unsigned format = 777, want_format = FMT;
   int i, year, month, day;

   for( i = 0; i < 80; i++)
      rec[i] = ' ';
   vp_bytes_in( "name", rec, 12, 32, 126);
   rec[14] = 'C';
   rec[13] = (char)vp_int( "note", 32, 126);
   vp_bytes_in( "position", rec + 32, 45, 32, 126);
   vp_bytes_in( "code", rec + 77, 3, 33, 122);
   rec[80] = '\0';
#if FMT < 10
#ifdef YEAR
   year = YEAR;
   rec[15] = YEAR / 1000 + '0';
   rec[16] = YEAR / 100 % 10 + '0';
   rec[17] = YEAR / 10 % 10 + '0';
   rec[18] = YEAR % 10 + '0';
#else
   year = put( 15, 4);
#endif
   month = vp_choose( "month", 1, 12);
   rec[20] = (char)( '0' + month / 10);
   rec[21] = (char)( '0' + month % 10);
   day = put( 23, 2);
   rec[25] = '.';
   vp_assume( day > 0 && day < 32);
   vp_assume( month != 10 || year != 1582 || day < 5 || day > 14);     /* no such dates */
   want = fraction( 26, FMT);
   if( month < 10)
      rec[20] = vp_choose( "blank month", 0, 1) ? ' ' : '0';
   if( day < 10)
      rec[23] = vp_choose( "blank day", 0, 1) ? ' ' : '0';
#elif FMT < 20
   want = put( 15, 7);
   vp_assume( want > 100.);
   rec[22] = '.';
   want += fraction( 23, FMT - 10);
#elif FMT >= 40 && FMT < 50
   rec[15] = 'M';
   want = put( 16, 6) + 2400000.5;
   rec[22] = '.';
   want += fraction( 23, FMT - 40);
#else
   const int century = vp_choose( "century", 17, 20);
   rec[15] = (char)( 'H' - 17 + century);
   year = century * 100 + put( 16, 2);
   month = vp_choose( "month", 1, 12);
   rec[18] = (char)( '0' + month / 10);
   rec[19] = (char)( '0' + month % 10);
   day = put( 20, 2);
   vp_assume( day > 0 && day < 32);
#if FMT >= 30 && FMT < 40
   rec[22] = '.';
   want = fraction( 23, FMT - 30);
#else
   rec[22] = ':';
   want = (double)put( 23, 2) / 24.;
   want += (double)put( 25, 2) / 1440.;
#if FMT < 30
   want += (double)put( 27, 2) / 86400.;
   want += fraction( 29, FMT - 20) / 86400.;
#endif
#endif
#endif
#if FMT < 10 || (FMT >= 20 && FMT < 40) || FMT >= 50
   want += (double)ref_jd( day, month, year) - .5;
#endif
#ifdef RADAR
   rec[14] = RADAR;
#endif
   double jd = extract_date_from_mpc_report( rec, &format);
   vp_reach( "end");
#ifdef RADAR
   vp_assert( jd > want - .5001 / 86400. && jd < want + .5001 / 86400., "radar times move by at most half a second");
   jd *= 86400.;
   const double frac = jd - (double)(long)jd;
   vp_assert( frac < .001 || frac > .999, "radar times are whole seconds");
   return;
#endif
   vp_assert_req( jd, want, 1e-9, "the date and time are those in the record");
   vp_assert( format == want_format, "the format found is the one used");
   vp_assert_req( extract_date_from_mpc_report( rec, NULL), want, 1e-9, "the format need not be asked for");
}
#endif
