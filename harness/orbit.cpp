/* two-body orbits:  orientation,  position and velocity,  Kepler's equation */
#include <math.h>
#include <string.h>
#include <stdint.h>
#include "watdefs.h"
#include "comets.h"
#include "afuncs.h"
#include "vp.h"

double kepler( const double ecc, double mean_anom);
void setup_orbit_vectors( ELEMENTS DLLPTR *e);
void comet_posn_part_ii( const ELEMENTS DLLPTR *elem, const double t,
                                    double DLLPTR *loc, double DLLPTR *vel);

#define PI 3.141592653589793238462643383279502884197
#define SOLAR_GM (.01720209895 * .01720209895)

static void same( double got, double want, const char *msg)
{
   vp_assert_req( got, want, 1e-9, msg);
}

#if MODE == 0
/* the orbit's axes are those given by inclination, node and argument of perihelion */
extern "C" void harness( void)
{
   ELEMENTS e;
   const double O = vp_double( "node", -7., 7.), w = vp_double( "argument", -7., 7.), i = vp_double( "inclination", 0., 3.15);
   const double cO = cos( O), sO = sin( O), cw = cos( w), sw = sin( w), ci = cos( i), si = sin( i);
   double ecc = vp_double( "eccentricity", 0., 2.);

   vp_assume( ci * ci > 1e-6);
   memset( &e, 0, sizeof( e));
   e.asc_node = O;
   e.arg_per = w;
   e.incl = i;
   e.ecc = ecc;
   setup_orbit_vectors( &e);
   vp_reach( "end");
   /* in the frame turned by the longitude of the node */
   const double *p = e.perih_vec, *q = e.sideways;
   same( p[2], sw * si, "direction of perihelion, z");
   same( cO * p[0] + sO * p[1], cw, "direction of perihelion, along the node");
   same( cO * p[1] - sO * p[0], sw * ci, "direction of perihelion, across the node");
   same( q[2], cw * si, "at right angles, z");
   same( cO * q[0] + sO * q[1], -sw, "at right angles, along the node");
   same( cO * q[1] - sO * q[0], cw * ci, "at right angles, across the node");
   vp_assert( e.minor_to_major >= 0., "ratio of the axes is not negative");
   same( e.minor_to_major * e.minor_to_major, ecc < 1. ? 1. - ecc * ecc : ecc * ecc - 1., "ratio of the axes");
}
#endif

#if MODE == 1 || MODE == 2
/* position and velocity from the eccentric anomaly (ellipse) or its hyperbolic
counterpart;  kepler( ) is replaced by one returning the given value */
static double the_e, the_m, anomaly;
static int n_calls;

extern "C" double weak_kepler( const double ecc, double mean_anom) __asm__( "_Z6keplerdd");

extern "C" double weak_kepler( const double ecc, double mean_anom)
{
   n_calls++;
   vp_assert( ecc == the_e && mean_anom == the_m, "Kepler's equation for the orbit's eccentricity and mean anomaly");
   return( anomaly);
}

extern "C" void harness( void)
{
   ELEMENTS e;
   double loc[4], vel[3], P[3], Q[3];
   const double h = vp_double( "angular momentum", .0001, 100.);
   const double q = vp_double( "perihelion distance", 0.0001, 1000.);
   int i;

#if MODE == 1
   the_e = vp_double( "eccentricity", 0., .9999999);
   const double m = sqrt( 1. - the_e * the_e);
   anomaly = vp_double( "eccentric anomaly", -3.2, 3.2);
   const double c = cos( anomaly), s = sin( anomaly);
#else
   the_e = vp_double( "eccentricity", 1.0000001, 100.);
   const double m = sqrt( the_e * the_e - 1.);
   anomaly = vp_double( "hyperbolic anomaly", -10., 10.);
   const double c = cosh( anomaly), s = sinh( anomaly);
#endif
   the_m = vp_double( "mean anomaly", -1e+5, 1e+5);
   memset( &e, 0, sizeof( e));
   e.ecc = the_e;
   e.q = q;
   e.minor_to_major = m;
   e.mean_anomaly = the_m;
   e.angular_momentum = h;
   P[0] = vp_double( "P0", -1., 1.);
   P[1] = vp_double( "P1", -1., 1.);
   P[2] = vp_double( "P2", -1., 1.);
   Q[0] = vp_double( "Q0", -1., 1.);
   Q[1] = vp_double( "Q1", -1., 1.);
   Q[2] = vp_double( "Q2", -1., 1.);
   for( i = 0; i < 3; i++)
      {
      e.perih_vec[i] = P[i];
      e.sideways[i] = Q[i];
      }
   n_calls = 0;
   comet_posn_part_ii( &e, 0., loc, vel);
   vp_assert( n_calls == 1, "Kepler's equation is solved");
   vp_reach( "end");
#if MODE == 1
   const double a = q / (1. - the_e), b = a * m, r = a * (1. - the_e * c);
   const double x = a * (c - the_e), y = b * s;
   const double vx = -h * s / (b * (1. - the_e * c)), vy = h * c / (a * (1. - the_e * c));
#else
   const double a = q / (the_e - 1.), b = a * m, r = a * (the_e * c - 1.);
   const double x = a * (the_e - c), y = b * s;
   const double vx = -h * s / (b * (the_e * c - 1.)), vy = h * c / (a * (the_e * c - 1.));
#endif
   same( loc[3], r, "distance");
   for( i = 0; i < 3; i++)
      {
      same( loc[i], P[i] * x + Q[i] * y, "position");
      same( vel[i], P[i] * vx + Q[i] * vy, "velocity");
      }
}
#endif

#if MODE == 3
/* position and velocity on a parabola:  Barker's equation */
extern "C" void harness( void)
{
   ELEMENTS e;
   double loc[4], vel[3];
   const double h = vp_double( "angular momentum", .0001, 100.);
   const double q = vp_double( "perihelion distance", 0.0001, 1000.);
   const double g = vp_double( "mean motion times time", -1000., 1000.);
   const double w0 = vp_double( "w0", .0001, 10.);

   memset( &e, 0, sizeof( e));
   e.ecc = 1.;
   e.q = q;
   e.w0 = w0;
   e.angular_momentum = h;
   e.perih_vec[0] = e.sideways[1] = 1.;
   comet_posn_part_ii( &e, g / w0, loc, vel);
   vp_reach( "end");
   const double s = loc[1] / (2. * q);         /* tangent of half the true anomaly */
   same( s * s * s + 3. * s, g, "Barker's equation");
   same( loc[3], q * (1. + s * s), "distance");
   same( loc[0], q * (1. - s * s), "position");
   same( vel[0] * loc[3], -h * s, "velocity");
   same( vel[1] * loc[3], h, "velocity");
   same( loc[2], 0., "position out of the plane");
   same( vel[2], 0., "velocity out of the plane");
}
#endif

#if MODE == 4
/* size and motion from perihelion distance and eccentricity */
extern "C" void weak_vectors( ELEMENTS *) __asm__( "_Z19setup_orbit_vectorsP8elements");
extern "C" void weak_vectors( ELEMENTS *) { }

extern "C" void harness( void)
{
   ELEMENTS e;
   const double q = vp_double( "perihelion distance", 0.0001, 1000.), gm = vp_double( "GM", 1e-10, 10.);
   double ecc = vp_double( "eccentricity", 0., 100.);

#if KIND == 1
   ecc = 1.;
#elif KIND == 0
   vp_assume( ecc < 1.);
#else
   vp_assume( ecc > 1.);
#endif
   memset( &e, 0, sizeof( e));
   e.ecc = ecc;
   e.q = q;
   derive_quantities( &e, gm);
   vp_reach( "end");
   vp_assert( e.angular_momentum >= 0., "angular momentum is not negative");
   same( e.angular_momentum * e.angular_momentum, gm * q * (1. + ecc), "angular momentum");
#if KIND == 1
   vp_assert( e.w0 >= 0., "w0 is not negative");
   same( e.w0 * e.w0 * 2. * q * q * q, 9. * gm, "mean motion on a parabola");
#else
   same( e.major_axis * (KIND ? ecc - 1. : 1. - ecc), q, "perihelion distance is a(1-e)");
   vp_assert( e.t0 >= 0., "mean motion is not negative");
   same( e.t0 * e.t0 * gm, e.major_axis * e.major_axis * e.major_axis, "Kepler's third law");
#endif
}
#endif

#if MODE == 5
/* the mean anomaly from the time */
static double m_given, t_given;
static int n_calls;

extern "C" void weak_posn( const ELEMENTS *elem, const double t, double *, double *) __asm__( "_Z18comet_posn_part_iiPK8elementsdPdS2_");

extern "C" void weak_posn( const ELEMENTS *elem, const double t, double *, double *)
{
   n_calls++;
   m_given = elem->mean_anomaly;
   t_given = t;
}

extern "C" void harness( void)
{
   ELEMENTS e;
   double loc[4], vel[3];
   const double t = vp_double( "time", 0., 5e+6), tp = vp_double( "perihelion time", 0., 5e+6), t0 = vp_double( "t0", .05, 1e+9);
   const int k = vp_choose( "kind", 0, 2);

   memset( &e, 0, sizeof( e));
   e.ecc = .5 + k * .5;
   e.perih_time = tp;
   e.t0 = t0;
   n_calls = 0;
   comet_posn_and_vel( &e, t, loc, vel);
   vp_reach( "end");
   vp_assert( n_calls == 1, "position is computed");
   if( k == 1)
      same( t_given, t - tp, "time since perihelion");
   else if( k == 2)
      same( m_given * t0, t - tp, "mean anomaly, hyperbola");
   else
      {
      const double turns = ((t - tp) / t0 - m_given) / (2. * PI);

      vp_assert( m_given >= -PI - 1e-9 && m_given <= PI + 1e-9, "mean anomaly is within half a turn of perihelion");
      same( turns, floor( turns + .5), "mean anomaly, whole turns removed");
      }
}
#endif

#if MODE == 6
/* elements from six numbers */
extern "C" void harness( void)
{
   ELEMENTS e;
   uint32_t x[6];
   const double deg = PI / 180.;
   double a;
   int i;

   for( i = 0; i < 6; i++)
      x[i] = 12345678U * (i + 1);
#if KIND == 0
   for( i = 3; i < 6; i++)
      x[i] = (uint32_t)vp_long( "angle", 0, 3600000000L);
#else
   x[0] = (uint32_t)vp_long( "mean anomaly", 0, 3600000000L);
   x[1] = (uint32_t)vp_long( "axis", 1000000L, 4199999999L);
   x[2] = (uint32_t)vp_long( "eccentricity", 0, 99000000L);
#endif
   setup_elems_from_ast_file( &e, x, 2451545.);
   vp_reach( "end");
   const double b = x[1] / 1e+8;
   if( x[1] <= 2100000000U)
      a = b;
   else if( x[1] <= 3150000000U)
      a = 4. * b - 63.;
   else
      a = 63. / (4. - b / 10.5);
   same( e.ecc, x[2] / 1e+8, "eccentricity");
   same( e.q, a * (1. - e.ecc), "perihelion distance");
   same( e.mean_anomaly, x[0] / 1e+7 * deg, "mean anomaly");
   same( e.asc_node, x[3] / 1e+7 * deg, "ascending node");
   same( e.arg_per, x[4] / 1e+7 * deg, "argument of perihelion");
   same( e.incl, x[5] / 1e+7 * deg, "inclination");
   same( e.epoch, 2451545., "epoch");
   same( e.gm, SOLAR_GM, "mass of the sun");
   same( 2451545. - e.perih_time, e.mean_anomaly * e.t0, "perihelion time");
   vp_assert( e.central_obj == 0, "the orbit is around the sun");
}
#endif

#if MODE == 7
/* what kepler( ) returns solves Kepler's equation */
extern "C" void harness( void)
{
#if KIND == 0
   const double ecc = vp_double( "eccentricity", 0., .8999999), lim = PI;
#elif KIND == 1
   const double ecc = vp_double( "eccentricity", .9, .9999), lim = PI;
#elif KIND == 2
   const double ecc = vp_double( "eccentricity", 1.02, 100.), lim = 1e+4;
#endif
   const double m = vp_double( "mean anomaly", KIND == 1 ? 0. : -lim, lim);
   const double anom = kepler( ecc, m);

   vp_reach( "end");
#if KIND != 2
   const double err = anom - ecc * sin( anom) - m;
   vp_assert( err <= 1e-11, "E - e sin(E) = M");
   vp_assert( err >= -1e-11, "E - e sin(E) = M");
#else
   const double err = ecc * sinh( anom) - anom - m, lim2 = 1e-9 * ecc * cosh( anom);
   vp_assert( err <= lim2, "e sinh(E) - E = M");
   vp_assert( err >= -lim2, "e sinh(E) - E = M");
#endif
}
#endif

#if MODE == 8
/* from position and velocity back to the shape of the orbit and the place on it */
extern "C" void harness( void)
{
   ELEMENTS e;
   double state[6], P[3], Q[3], W[3];
   const double k = vp_double( "root of the semimajor axis", .1, 30.);
#if KIND == 0
   const double ecc = vp_double( "eccentricity", .001, .899);
   const double E = vp_double( "eccentric anomaly", -3.14, 3.14);
   const double c = cos( E), s = sin( E), m = sqrt( 1. - ecc * ecc);
   const double f = 1. / (1. - ecc * c), x = k * k * (c - ecc), y = k * k * m * s, mean = E - ecc * s;
   const double vx = -s * f / k, vy = m * c * f / k, q = k * k * (1. - ecc);
#else
   const double ecc = vp_double( "eccentricity", 1.001, 10.);
   const double E = vp_double( "hyperbolic anomaly", -5., 5.);
   const double c = cosh( E), s = sinh( E), m = sqrt( ecc * ecc - 1.);
   const double f = 1. / (ecc * c - 1.), x = k * k * (ecc - c), y = k * k * m * s, mean = ecc * s - E;
   const double vx = -s * f / k, vy = m * c * f / k, q = k * k * (ecc - 1.);
#endif
   const double t = vp_double( "time", 2000000., 3000000.);
   const double w = vp_double( "argument", -7., 7.);
   const double cw = cos( w), sw = sin( w);
   int i;
#ifdef PLANAR           /* in the plane of the ecliptic,  prograde or retrograde */
   const double cO = 1., sO = 0., ci = PLANAR, si = 0.;
#else
   const double O = vp_double( "node", -7., 7.), inc = vp_double( "inclination", 0., 3.15);
   const double cO = cos( O), sO = sin( O), ci = cos( inc), si = sin( inc);

   vp_assume( si > .01);
#endif


   P[0] = cO * cw - sO * sw * ci;
   P[1] = sO * cw + cO * sw * ci;
   P[2] = sw * si;
   Q[0] = -cO * sw - sO * cw * ci;
   Q[1] = -sO * sw + cO * cw * ci;
   Q[2] = cw * si;
   for( i = 0; i < 3; i++)
      {
      state[i] = P[i] * x + Q[i] * y;
      state[i + 3] = P[i] * vx + Q[i] * vy;
      }
   memset( &e, 0, sizeof( e));
   e.gm = 1.;
   calc_classical_elements( &e, state, t, 1);
   vp_reach( "end");
   same( e.ecc, ecc, "eccentricity");
   same( e.q, q, "perihelion distance");
   same( sin( e.incl), si, "inclination");
   same( cos( e.incl), ci, "inclination");
   same( sin( e.asc_node), sO, "ascending node");
   same( cos( e.asc_node), cO, "ascending node");
   same( sin( e.arg_per), sw, "argument of perihelion");
   same( cos( e.arg_per), cw, "argument of perihelion");
   for( i = 0; i < 3; i++)
      {
      same( e.perih_vec[i], P[i], "direction of perihelion");
      same( KIND ? -e.sideways[i] : e.sideways[i], Q[i], "at right angles");
      }
   same( KIND ? -e.angular_momentum : e.angular_momentum, k * m, "angular momentum");
   same( e.perih_time, t - mean * k * k * k, "perihelion time");
}
#endif
