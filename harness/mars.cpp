/* Mars Coordinated Time, equation of time, true solar time */
#include <math.h>
#include "watdefs.h"
#include "vp.h"

double tt_to_mtc( const double jd);
double mtc_to_tt( const double mtc);
double mars_true_solar_minus_mean_solar_time( const double jd);
double mtst_at_airy_to_tt( const double mtst);

#if MODE == 0
extern "C" void harness( void)
{
   const double jd = vp_double( "jd", -1e7, 1e7);
   const double sols = vp_double( "sols", -1e5, 1e5);

   vp_reach( "end");
   vp_assert_req( mtc_to_tt( tt_to_mtc( jd)), jd, 1e-9, "TT -> MTC -> TT gives back the TT");
   vp_assert_req( tt_to_mtc( mtc_to_tt( jd)), jd, 1e-9, "MTC -> TT -> MTC gives back the MTC");
   vp_assert_req( tt_to_mtc( jd), 44796. - .0009626 + (jd - 2451549.5) / 1.0274912517, 1e-9, "MTC is Mars24's equation C-2");
   vp_assert_req( tt_to_mtc( jd + sols * 1.0274912517), tt_to_mtc( jd) + sols, 1e-7, "one sol of MTC is 1.0274912517 days");
}
#elif MODE == 1
/* Mars24's equations B-1 to B-5 and C-1 */
extern "C" void harness( void)
{
   const double t = vp_double( "days from J2000", -1e7, 1e7);
   const double D = 3.1415926535897932384626433832795028841971693993751058209749445923 / 180.;
   static const double a[7] = { .0071, .0057, .0039, .0037, .0021, .0020, .0018 };
   static const double tau[7] = { 2.2353, 2.7543, 1.1177, 15.7866, 2.1354, 2.4694, 32.8493 };
   static const double phi[7] = { 49.409, 168.173, 191.837, 21.736, 15.704, 95.528, 49.095 };
   const double m = 19.3871 * D + .52402073 * D * t, fms = 270.3871 * D + .524038496 * D * t;
   double nu_m = 0., pbs = 0.;

   for( int i = 0; i < 7; i++)
      pbs += a[i] * D * cos( 360. * D / 365.25 / tau[i] * t + phi[i] * D);
   nu_m = (10.691 + 3e-7 * t) * D * sin( m) + .623 * D * sin( 2. * m) + .05 * D * sin( 3. * m)
                + .005 * D * sin( 4. * m) + .0005 * D * sin( 5. * m) + pbs;
   const double ls = fms + nu_m;
   const double eot = 2.861 * sin( 2. * ls) - .071 * sin( 4. * ls) + .002 * sin( 6. * ls) - nu_m / D;
   const double got = mars_true_solar_minus_mean_solar_time( 2451545. + t);

   vp_reach( "end");
   vp_assert_req( got * 360., eot, 1e-6, "the Martian equation of time is Mars24's");
}
#else
/* the inverse of true solar time,  for any equation of time that changes by less than .001 sol per day
   (Mars' changes by less than half as much) and is at most .06 sol */
static double at[12], val[12];
static int n_calls;

double mars_true_solar_minus_mean_solar_time( const double jd)
{
   const double v = vp_double( "equation of time", -.06, .06);

   vp_assert( n_calls < 12, "the equation of time is evaluated a few times");
   for( int i = 0; i < n_calls; i++)
      {
      const double d = (jd - at[i]) * .001, dv = v - val[i];

      vp_assume( (d >= 0. && dv <= d && dv >= -d) || (d <= 0. && dv <= -d && dv >= d));
      }
   at[n_calls] = jd;
   val[n_calls++] = v;
   return( v);
}

extern "C" void harness( void)
{
   const double tt = vp_double( "tt", -1e7, 1e7);
   const double mtst = tt_to_mtc( tt) + mars_true_solar_minus_mean_solar_time( tt);
   const double tt2 = mtst_at_airy_to_tt( mtst);

   vp_reach( "end");
   vp_assert( tt2 - tt < 1e-7 && tt - tt2 < 1e-7, "true solar time -> TT gives back the TT to 10 milliseconds");
}
#endif
