/* dates of Easter */
#include "watdefs.h"
#include "vp.h"

void easter_date( const long year, int *month, int *day);
void easter_date_julian( const long year, int *month, int *day);

extern "C" void harness( void)
{
   const long century = CLO + vp_choose( "century", 0, CHI - CLO), y100 = vp_int( "year of the century", 0, 99);
   const long year = century * 100 + y100;
   int month = -99, day = -99;
   long golden, epact, moon, sunday, mar;
   /* day of the week of 1 March:  0 = Sunday.  Clavius' (Gregorian) or Dionysius' (Julian) lunar calendar */

   golden = year % 19 + 1;
#if GREGORIAN
   vp_assume( year >= 1583);
   /* sun equation:  S = 3(C+1)/4,  moon equation:  L = (8(C+1)+5)/25  (Knuth,  TAOCP 1.3.2 exercise 14) */
   const long c = century + 1, x = 3 * c / 4 - 12, z = (8 * c + 5) / 25 - 5;

   epact = (11 * golden + 20 + z - x) % 30;
   if( epact < 0)
      epact += 30;
   if( (epact == 25 && golden > 11) || epact == 24)
      epact++;
   moon = 44 - epact;                  /* of March */
   if( moon < 21)
      moon += 30;
   sunday = 5 * year / 4 - x - 10;     /* -sunday mod 7 is a Sunday in March */
#else
   vp_assume( year >= 326);
   moon = (19 * (golden - 1) + 15) % 30 + 21;
   sunday = 5 * year / 4;
   epact = 0;
   (void)epact;
#endif
   mar = moon + 7 - (sunday + moon) % 7;
   GREGORIAN ? easter_date( year, &month, &day) : easter_date_julian( year, &month, &day);
   vp_reach( "end");
   vp_assert( month == 3 || month == 4, "Easter is in March or April");
   vp_assert( day >= 1 && day <= (month == 3 ? 31 : 30), "on a day of that month");
   vp_assert( (month - 3) * 31 + day >= 22 && (month - 3) * 31 + day <= 56, "Easter is between 22 March and 25 April");
   vp_assert( (month - 3) * 31 + day == mar, "Easter is the Sunday after the paschal full moon");
}
