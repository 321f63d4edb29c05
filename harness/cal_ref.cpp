/* dmy_to_day() against independently published day-number formulae (public interface only) */
#include "watdefs.h"
#include "date.h"
#include "vp.h"

static long fdiv( long a, long b)         /* floor division, b > 0 */
{
   return( a >= 0 ? a / b : -((b - 1 - a) / b));
}

#if CAL == 0 || CAL == 1 || CAL == 6
/* March-based count (Richards, Explanatory Supplement): month 0 = March */
static long ref_greg_jul( long d, long m, long y, int gregorian)
{
   const long y1 = (m < 3 ? y - 1 : y), m1 = (m < 3 ? m + 9 : m - 3);
   long rval = 365 * y1 + fdiv( y1, 4) + (153 * m1 + 2) / 5 + d;

   if( gregorian)
      return( rval - fdiv( y1, 100) + fdiv( y1, 400) + 1721119);
   return( rval + 1721117);
}
#endif
#if CAL == 2
/* Reingold & Dershowitz, Calendrical Calculations: elapsed days of the Hebrew calendar */
static long hebrew_elapsed( long y)
{
   const long months = fdiv( 235 * y - 234, 19);
   const long parts = 12084 + 13753 * months;
   const long day = 29 * months + fdiv( parts, 25920);

   return( (3 * (day + 1)) % 7 < 3 ? day + 1 : day);
}
static long hebrew_new_year( long y)
{
   const long n0 = hebrew_elapsed( y - 1), n1 = hebrew_elapsed( y), n2 = hebrew_elapsed( y + 1);

   return( n1 + (n2 - n1 == 356 ? 2 : (n1 - n0 == 382 ? 1 : 0)) + 347998);
}
#endif

extern "C" void harness( void)
{
#if CAL == 4
   /* 1 Vendemiaire of the years in which the calendar was in use, Gregorian day of September */
   static const char sept[14] = { 22, 22, 22, 23, 22, 22, 22, 23, 23, 23, 23, 24, 23, 23 };
   const int y = vp_choose( "year", 1, 14);
   const int m = vp_int( "month", 1, 13), d = vp_int( "day", 1, 30);

   vp_assume( m < 13 || d <= 5 + (y % 4 == 3));
   vp_assert( dmy_to_day( d, m, y, CAL) == dmy_to_day( sept[y - 1], 9, 1791 + y, 0) + 30 * (m - 1) + d - 1,
            "French Republican dates of years 1-14 match the historical calendar");
   vp_assert( days_in_month( 13, y, CAL) == 5 + (y % 4 == 3), "the sextile years are 3, 7 and 11");
   vp_reach( "end");
#else
#ifdef BLOCK
   const long y = LO + (long)BLOCK * vp_choose( "block", 0, (HI - LO) / BLOCK) + vp_int( "offset", 0, BLOCK - 1);
#elif defined PARTS         /* years whose molad falls exactly at a limit of one of the rules */
   const long y = (long)vp_int( "cycle", LO, HI) * 19 + vp_choose( "phase", 1, 19);
   const long molad = 5604 + 13753 * fdiv( 235 * y - 234, 19);
   vp_assume( molad - 25920 * fdiv( molad, 25920) == PARTS);
#elif defined STEP
   const long y = (long)vp_int( "cycle", LO, HI) * STEP + PHASE;
#else
   const long y = vp_long( "year", LO, HI);
#endif
#if CAL == 2
   /* 1 Tishri, and the months up to it */
   vp_assert( dmy_to_day( 1, 1, y, CAL) == hebrew_new_year( y), "1 Tishri agrees with the Reingold-Dershowitz calendar");
   vp_reach( "end");
#else
   const int m = vp_int( "month", 1, 12), d = vp_int( "day", 1, 31);
   const long jd = dmy_to_day( d, m, y, CAL);
   long ref;

#if CAL == 0
   ref = ref_greg_jul( d, m, y, 1);
#elif CAL == 1
   ref = ref_greg_jul( d, m, y, 0);
#elif CAL == 6
   vp_assume( !(y == 1582 && m == 10 && d > 4 && d < 15));
   ref = ref_greg_jul( d, m, y, y > 1582 || (y == 1582 && (m > 10 || (m == 10 && d >= 15))));
#elif CAL == 3
   ref = fdiv( 11 * y + 3, 30) + 354 * y + 30 * m - (m - 1) / 2 + d + 1948440 - 385;
#elif CAL == 8
   {     /* Birashk's 2820-year cycle */
   const long ep = y - 474, epy = 474 + ep - 2820 * fdiv( ep, 2820);

   ref = d + (m <= 7 ? (m - 1) * 31 : (m - 1) * 30 + 6) + (epy * 682 - 110) / 2816
               + (epy - 1) * 365 + fdiv( ep, 2820) * 1029983 + 1948320;
   }
#endif
   vp_reach( "end");
   vp_assert( jd == ref, "dmy_to_day() agrees with the published formula");
#endif
#endif
}
