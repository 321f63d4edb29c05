/* calendar conversions of date.cpp through its public interface only.
   CAL = calendar; MODE: 1 JD->d/m/y->JD, 2 d/m/y->JD->d/m/y, 3 year lengths and continuity */
#include "watdefs.h"
#include "date.h"
#include "vp.h"
#ifndef VPRINT
#define VPRINT vp_int
#endif

extern "C" void harness( void)
{
#if MODE == 1
#ifdef BLOCK          /* case split: blocks of BLOCK days */
   const long jd0 = LO + (long)BLOCK * vp_choose( "block", 0, (HI - LO) / BLOCK);
   const long jd = jd0 + vp_int( "offset", 0, BLOCK - 1);
#else
   const long jd = vp_long( "jd", LO, HI);
#endif
   int day = 0, month = 0;
   long year = 0;

   day_to_dmy( jd, &day, &month, &year, CAL);
   vp_reach( "end");
   vp_assert( month >= 1 && month <= NMON, "month number is one the calendar has");
   vp_assert( day >= 1 && day <= MAXDAY, "day of month is in range");
   vp_assert( dmy_to_day( day, month, year, CAL) == jd, "JD -> d/m/y -> JD gives back the same JD");
   vp_assert( day <= days_in_month( month, year, CAL), "day of month does not exceed days_in_month()");
#elif MODE == 2
#ifdef STEP
   const long year = (long)VPRINT( "cycle", LO, HI) * STEP + PHASE;
#elif defined BLOCK
   const long year0 = LO + (long)BLOCK * vp_choose( "block", 0, (HI - LO) / BLOCK);
   const long year = year0 + vp_int( "offset", 0, BLOCK - 1);
#else
   const long year = vp_long( "year", LO, HI);
#endif
#ifdef MONTH
   const int month = MONTH;
#else
   const int month = vp_int( "month", 1, NMON);
#endif
   const int day = vp_int( "day", 1, MAXDAY);
   int day1 = 0, month1 = 0;
   long year1 = 0, jd;

   vp_assume( day <= days_in_month( month, year, CAL));
#if CAL == 6          /* 5-14 October 1582 do not exist in the combined calendar */
   vp_assume( !(year == 1582 && month == 10 && day > 4 && day < 15));
#endif
   jd = dmy_to_day( day, month, year, CAL);
   day_to_dmy( jd, &day1, &month1, &year1, CAL);
   vp_reach( "end");
   vp_assert( year1 == year && month1 == month && day1 == day, "valid d/m/y -> JD -> d/m/y gives back the same date");
#elif MODE == 3
#ifdef STEP
   const long year = (long)VPRINT( "cycle", LO, HI) * STEP + PHASE;
#elif defined BLOCK
   const long year0 = LO + (long)BLOCK * vp_choose( "block", 0, (HI - LO) / BLOCK);
   const long year = year0 + vp_int( "offset", 0, BLOCK - 1);
#else
   const long year = vp_long( "year", LO, HI);
#endif
   long n = 0, jd0 = dmy_to_day( 1, 1, year, CAL);

   for( int m = 1; m <= NMON; m++)
      {
      const int len = days_in_month( m, year, CAL);

#if CAL == 6
      if( year == 1582 && m == 11)
         n -= 10;          /* the ten days dropped after 4 October 1582 */
#endif
      vp_assert( dmy_to_day( 1, m, year, CAL) == jd0 + n, "each month starts the day after the previous one ends");
#if CAL == 4
      vp_assert( m < 13 ? len == 30 : (len == 5 || len == 6), "legal month length");
#elif CAL == 2
      vp_assert( len == 29 || len == 30 || (m == 7 && len == 0), "legal month length");
#elif CAL == 7
      vp_assert( len == 29 || len == 30 || (m == 13 && len == 0), "legal month length");
#elif CAL == 3
      vp_assert( len == 29 || len == 30, "legal month length");
#elif CAL == 5 || CAL == 8
      vp_assert( m < 7 ? len == 31 : (m < 12 ? len == 30 : (len == 29 || len == 30)), "legal month length");
#else
      vp_assert( m == 2 ? (len == 28 || len == 29) :
                  len == ((m == 4 || m == 6 || m == 9 || m == 11) ? 30 : 31), "legal month length");
#endif
      n += len;
      }
   vp_reach( "end");
#if CAL == 2
   vp_assert( (n >= 353 && n <= 355) || (n >= 383 && n <= 385), "legal year length");
#elif CAL == 7
   vp_assert( (n >= 353 && n <= 355) || (n >= 383 && n <= 385), "legal year length");
#elif CAL == 3
   vp_assert( n == 354 || n == 355, "legal year length");
#else
   vp_assert( n == 365 || n == 366 || (CAL == 6 && year == 1582 && n == 355), "legal year length");
#endif
#ifndef NOCONT
   vp_assert( dmy_to_day( 1, 1, year + 1, CAL) == jd0 + n, "the next year starts the day after this one ends");
#endif
#endif
}
