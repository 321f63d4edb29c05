/* vectors, rotations, precession, obliquity, sidereal time, interpolation */
#include <math.h>
#include <string.h>
#include "watdefs.h"
#include "afuncs.h"
#include "lunar.h"
#include "vp.h"

int DLL_FUNC setup_equatorial_precession_from_j2000( double DLLPTR *matrix, const double year);

static const double ref_pi = 3.1415926535897932384626433832795028841971693993751058209749445923;
#define AS (3.1415926535897932384626433832795028841971693993751058209749445923 / 648000.)

static void rot_ref( double *v, const int axis, const double s, const double c)   /* counterclockwise */
{
   const int a = (axis + 1) % 3, b = (axis + 2) % 3;
   const double x = v[a] * c - v[b] * s, y = v[a] * s + v[b] * c;

   v[a] = x;
   v[b] = y;
}

static void mat_vec( double *out, const double *m, const double *v)
{
   for( int i = 0; i < 3; i++)
      out[i] = m[i * 3] * v[0] + m[i * 3 + 1] * v[1] + m[i * 3 + 2] * v[2];
}

static void mat_t_vec( double *out, const double *m, const double *v)
{
   for( int i = 0; i < 3; i++)
      out[i] = m[i] * v[0] + m[i + 3] * v[1] + m[i + 6] * v[2];
}

static void symvec( double *v, const double lim)
{
   v[0] = vp_double( "x", -lim, lim);
   v[1] = vp_double( "y", -lim, lim);
   v[2] = vp_double( "z", -lim, lim);
}

static void same3( const double *a, const double *b, const double tol, const char *msg)
{
   for( int i = 0; i < 3; i++)
      vp_assert_req( a[i], b[i], tol, msg);
}

static void orthonormal( const double *m, const double tol, const char *msg)
{
   for( int i = 0; i < 3; i++)
      for( int j = i; j < 3; j++)
         vp_assert_req( m[i * 3] * m[j * 3] + m[i * 3 + 1] * m[j * 3 + 1] + m[i * 3 + 2] * m[j * 3 + 2],
                        (i == j ? 1. : 0.), tol, msg);
}

static double minus_third( const double *m)       /* third row minus the cross product of the first two */
{
   double d = 0.;

   for( int i = 0; i < 3; i++)
      {
      const int j = (i + 1) % 3, k = (i + 2) % 3;

      d += m[6 + i] * (m[j] * m[3 + k] - m[k] * m[3 + j]);
      }
   return( d);                 /* determinant */
}

#if MODE == 0           /* rotate_vector */
extern "C" void harness( void)
{
   const int axis = vp_choose( "axis", 0, 2);
   const double ang = vp_double( "angle", -100., 100.);
   double v[3], r[3], b[3];

   symvec( v, 1000.);
   memcpy( r, v, sizeof( v));
   memcpy( b, v, sizeof( v));
   rotate_vector( r, ang, axis);
   rot_ref( b, axis, sin( ang), cos( ang));
   vp_reach( "end");
   same3( r, b, 1e-9, "rotation about an axis");
   vp_assert_req( dot_product( r, r), dot_product( v, v), 1e-6, "rotation preserves length");
   rotate_vector( r, -ang, axis);
   same3( r, v, 1e-9, "rotating back gives the same vector");
}
#elif MODE == 1         /* spin_matrix,  pre_spin_matrix */
extern "C" void harness( void)
{
   const int axis = vp_choose( "axis", 0, 2), neg = vp_choose( "order", 0, 1);
   const double ang = vp_double( "angle", -100., 100.);
   const int a = (axis + 1) % 3, b = (axis + 2) % 3;
   double m[9], orig[9], v[3], out[3], expect[3];
   int i;

   for( i = 0; i < 9; i++)
      orig[i] = m[i] = vp_double( "element", -10., 10.);
   symvec( v, 10.);
   if( !neg)
      {
      spin_matrix( m + 3 * a, m + 3 * b, ang);      /* M becomes R M */
      mat_vec( out, m, v);
      mat_vec( expect, orig, v);
      rot_ref( expect, axis, sin( ang), cos( ang));
      }
   else
      {
      pre_spin_matrix( m + a, m + b, ang);          /* M becomes M R(-angle) */
      mat_vec( out, m, v);
      rot_ref( v, axis, -sin( ang), cos( ang));
      mat_vec( expect, orig, v);
      }
   vp_reach( "end");
   same3( out, expect, 1e-9, "rows (or columns) of the matrix are rotated");
   if( !neg)
      spin_matrix( m + 3 * a, m + 3 * b, -ang);
   else
      pre_spin_matrix( m + a, m + b, -ang);
   for( i = 0; i < 9; i++)
      vp_assert_req( m[i], orig[i], 1e-9, "the opposite rotation restores it");
}
#elif MODE == 2         /* small vector functions */
extern "C" void harness( void)
{
   double a[3], b[3], c[3], m[9], m2[9], d;
   int i, j;

   symvec( a, 100.);
   symvec( b, 100.);
   vector_cross_product( c, a, b);
   vp_reach( "end");
   vp_assert_req( dot_product( c, a), 0., 1e-9, "the cross product is at right angles to both");
   vp_assert_req( dot_product( c, b), 0., 1e-9, "the cross product is at right angles to both");
   d = dot_product( a, b);
   vp_assert_req( dot_product( c, c) + d * d, dot_product( a, a) * dot_product( b, b), 1e-3, "and its length is ab sin(angle)");
   vp_assert_req( c[2], a[0] * b[1] - a[1] * b[0], 1e-9, "it is right-handed");
   vp_assert_req( d, a[0] * b[0] + a[1] * b[1] + a[2] * b[2], 1e-9, "dot product");
   d = vector3_length( a);
   vp_assert( d >= 0., "a length is not negative");
   vp_assert_req( d * d, dot_product( a, a), 1e-9, "length");
   for( i = 0; i < 9; i++)
      m[i] = 5.;
   set_identity_matrix( m);
   for( i = 0; i < 9; i++)
      vp_assert( m[i] == (i % 4 ? 0. : 1.), "identity matrix");
   for( i = 0; i < 9; i++)
      m2[i] = m[i] = vp_double( "element", -10., 10.);
   invert_orthonormal_matrix( m);
   for( i = 0; i < 3; i++)
      for( j = 0; j < 3; j++)
         vp_assert( m[i * 3 + j] == m2[j * 3 + i], "transposed matrix");
}
#elif MODE == 3         /* normalize_vect3,  acose,  asine */
extern "C" void harness( void)
{
   double a[3], v[3], d, x;

   symvec( v, 100.);
   memcpy( a, v, sizeof( v));
   d = normalize_vect3( v);
   vp_reach( "end");
   vp_assert( d >= 0., "a length is not negative");
   vp_assert_req( d * d, dot_product( a, a), 1e-9, "the length is returned");
   for( int i = 0; i < 3; i++)
      if( d > 1e-5)
         vp_assert_req( v[i] * d, a[i], 1e-9, "the direction is kept");
   x = vp_double( "out of range", 1., 1e+9);
   vp_assert( acose( x) == 0., "acose above 1");
   vp_assert_req( acose( -x), ref_pi, 1e-12, "acose below -1");
   vp_assert_req( asine( x), ref_pi / 2., 1e-12, "asine above 1");
   vp_assert_req( asine( -x), -ref_pi / 2., 1e-12, "asine below -1");
}
#elif MODE == 4         /* precess_vector,  deprecess_vector */
extern "C" void harness( void)
{
   double m[9], v[3], out[3], expect[3], in_place[3];
   const int back = vp_choose( "backward", 0, 1);

   for( int i = 0; i < 9; i++)
      m[i] = vp_double( "element", -2., 2.);
   symvec( v, 1000.);
   memcpy( in_place, v, sizeof( v));
   if( back)
      {
      deprecess_vector( m, v, out);
      deprecess_vector( m, in_place, in_place);
      mat_t_vec( expect, m, v);
      }
   else
      {
      precess_vector( m, v, out);
      precess_vector( m, in_place, in_place);
      mat_vec( expect, m, v);
      }
   vp_reach( "end");
   same3( out, expect, 1e-9, "product of a matrix (or its transpose) and a vector");
   same3( in_place, expect, 1e-9, "also in place");
}
#elif MODE == 5         /* equatorial and ecliptic coordinates,  J2000 */
extern "C" void harness( void)
{
   const double sin_obl = 0.39777715593191370, cos_obl = 0.91748206206918181;      /* 84381.448 arcseconds */
   double v[3], e[3];

   symvec( v, 1000.);
   memcpy( e, v, sizeof( v));
   equatorial_to_ecliptic( e);
   vp_reach( "end");
   vp_assert_req( e[0], v[0], 1e-9, "x is the same");
   vp_assert_req( e[1],  v[1] * cos_obl + v[2] * sin_obl, 1e-9, "ecliptic y");
   vp_assert_req( e[2], -v[1] * sin_obl + v[2] * cos_obl, 1e-9, "ecliptic z");
   ecliptic_to_equatorial( e);
   same3( e, v, 1e-9, "and back");
}
#elif MODE == 6         /* ecliptic precession matrix from/to J2000:  IAU 1976 */
extern "C" void harness( void)
{
   const double year = vp_double( "year", -8000., 12000.);
   const int backward = vp_choose( "backward", 0, 1);
   const double t = (year - 2000.) / 100.;
   const double eta = t * (47.0029 - .03302 * t + .00006 * t * t) * AS;
   const double pie = (174.876384 * 3600. - 869.8089 * t + .03536 * t * t) * AS;
   const double p = t * (5029.0966 + 1.11113 * t - .000006 * t * t) * AS;
   double m[9], v[3], out[3], expect[3];

   vp_assume( year > 2000.1 || year < 1999.9);
   symvec( v, 1.);
   if( backward)
      setup_ecliptic_precession( m, year, 2000.);
   else
      setup_ecliptic_precession( m, 2000., year);
   vp_reach( "end");
   orthonormal( m, 1e-9, "the matrix is a rotation");
   vp_assert_req( minus_third( m), 1., 1e-9, "the matrix is a proper rotation");
   memcpy( expect, v, sizeof( v));
   rot_ref( expect, 2, -sin( pie), cos( pie));
   rot_ref( expect, 0, -sin( eta), cos( eta));
   rot_ref( expect, 2, sin( p), cos( p));
   rot_ref( expect, 2, sin( pie), cos( pie));
   if( backward)
      mat_t_vec( out, m, v);
   else
      mat_vec( out, m, v);
   same3( out, expect, 1e-9, "IAU 1976 precession in the ecliptic frame");
}
#elif MODE == 7         /* equatorial precession from J2000:  IAU 1976 */
extern "C" void harness( void)
{
   const double year = vp_double( "year", -8000., 12000.);
   const double t = (year - 2000.) / 100.;
   const double zeta = t * (2306.2181 + t * ( .30188 + .017998 * t)) * AS;
   const double z    = t * (2306.2181 + t * (1.09468 + .018203 * t)) * AS;
   const double theta = t * (2004.3109 + t * (-.42665 - .041833 * t)) * AS;
   double m[9], v[3], out[3], expect[3];

   symvec( v, 1.);
   setup_equatorial_precession_from_j2000( m, year);
   vp_reach( "end");
   orthonormal( m, 1e-9, "the matrix is a rotation");
   mat_vec( out, m, v);
   memcpy( expect, v, sizeof( v));
   rot_ref( expect, 2, sin( zeta), cos( zeta));
   rot_ref( expect, 1, -sin( theta), cos( theta));
   rot_ref( expect, 2, sin( z), cos( z));
   same3( out, expect, 1e-9, "IAU 1976 precession in the equatorial frame");
}
#elif MODE == 8         /* precession matrices do not depend on what was asked before;  steps add up */
#ifdef EQUATORIAL
#define SETUP setup_precession
#else
#define SETUP setup_ecliptic_precession
#endif
extern "C" void harness( void)
{
   double years[3], m[9], to_a[9], to_b[9], v[3], out[3], mid[3], expect[3];
   int i, from, to;

   years[0] = 2000.;
   years[1] = vp_double( "year A", -8000., 12000.);
   years[2] = vp_double( "year B", -8000., 12000.);
   vp_assume( years[1] > 2000.01 || years[1] < 1999.99);
   vp_assume( years[2] > 2000.01 || years[2] < 1999.99);
   vp_assume( years[1] > years[2] + .01 || years[2] > years[1] + .01);
   for( i = 0; i < N_CALLS; i++)            /* calls before this one must not matter */
      {
      from = vp_choose( "from", 0, 2);
      to = vp_choose( "to", 0, 2);
      SETUP( m, years[from], years[to]);
      }
   symvec( v, 1.);
   mat_vec( out, m, v);
   vp_reach( "end");
   memcpy( mid, v, sizeof( v));
   if( from != to)
      {
      memcpy( expect, v, sizeof( v));
      if( from)
         {
         SETUP( to_a, 2000., years[from]);
         mat_t_vec( mid, to_a, v);
         }
      memcpy( expect, mid, sizeof( mid));
      if( to)
         {
         SETUP( to_b, 2000., years[to]);
         mat_vec( expect, to_b, mid);
         }
      same3( out, expect, 1e-9, "from A to B is from A to J2000, then from J2000 to B");
      }
   else
      same3( out, v, 1e-9, "from A to A changes nothing");
}
#elif MODE == 9         /* equatorial is ecliptic between two changes of frame */
static double obl_t[4];
static int n_obl;

extern "C" void harness( void)
{
   const double year = vp_double( "year", -7999., 11999.);
   const double obl1 = mean_obliquity( 0.), obl2 = mean_obliquity( (year - 2000.) / 100.);
   double m[9], ecl[9], v[3], out[3], expect[3], tmp[3];

   vp_assume( year > 2000.1 || year < 1999.9);
   symvec( v, 1.);
   setup_ecliptic_precession( ecl, 2000., year);
   setup_precession( m, 2000., year);
   vp_reach( "end");
   memcpy( tmp, v, sizeof( v));
   rot_ref( tmp, 0, -sin( obl1), cos( obl1));
   mat_vec( expect, ecl, tmp);
   rot_ref( expect, 0, sin( obl2), cos( obl2));
   mat_vec( out, m, v);
   same3( out, expect, 1e-9, "to the ecliptic of J2000, ecliptic precession, to the equator of date");
   orthonormal( m, 1e-9, "the matrix is a rotation");
}
#elif MODE == 10        /* mean obliquity:  Laskar */
extern "C" void harness( void)
{
   const double prev = vp_double( "previous", -150., 150.), t = vp_double( "centuries", -150., 150.);
   static const double c[10] = { -4680.93, -1.55, 1999.25, -51.38, -249.67, -39.05, 7.12, 27.87, 5.79, 2.45 };
   double u = t / 100., p, expect = 84381.448, got, tt = t;

   mean_obliquity( prev);
   got = mean_obliquity( t);
   if( t > 100.)
      tt = 100.;
   if( t < -100.)
      tt = -100.;
   u = tt / 100.;
   p = u;
   for( int i = 0; i < 10; i++, p *= u)
      expect += c[i] * p;
   vp_reach( "end");
   vp_assert_req( got / AS, expect, .01, "mean obliquity is Laskar's, held constant beyond 100 centuries");
   vp_assert_req( mean_obliquity( t) / AS, expect, .01, "and again");
}
#elif MODE == 11        /* precession with nutation */
static double nut_lon, nut_obl, nut_t;

extern "C" int DLL_FUNC nutation( const double t, double DLLPTR *d_lon, double DLLPTR *d_obliq)
{
   nut_t = t;
   if( d_lon)
      *d_lon = nut_lon;
   if( d_obliq)
      *d_obliq = nut_obl;
   return( 0);
}

int DLL_FUNC setup_precession_with_nutation_delta( double DLLPTR *matrix,
                    const double year, const double delta_nutation_lon, const double delta_nutation_obliq);

extern "C" void harness( void)
{
   const double year = vp_double( "year", -7999., 11999.), t = (year - 2000.) / 100.;
   const double dl = vp_double( "more in longitude", -1e-6, 1e-6), de = vp_double( "more in obliquity", -1e-6, 1e-6);
   const double obl = mean_obliquity( t);
   double m[9], eq[9], v[3], out[3], expect[3], lon, ob, ee;

   nut_lon = vp_double( "nutation in longitude", -20., 20.);
   nut_obl = vp_double( "nutation in obliquity", -10., 10.);
   symvec( v, 1.);
   setup_equatorial_precession_from_j2000( eq, year);
   setup_precession_with_nutation_delta( m, year, dl, de);
   lon = nut_lon * AS + dl;
   ob = nut_obl * AS + de;
   vp_reach( "end");
   vp_assert_req( nut_t, t, 1e-9, "nutation of the date");
   orthonormal( m, 1e-8, "the matrix is a rotation");
   mat_vec( expect, eq, v);                          /* mean equator of date */
   rot_ref( expect, 0, -sin( obl), cos( obl));       /* ecliptic of date */
   rot_ref( expect, 2, sin( lon), cos( lon));
   rot_ref( expect, 0, sin( obl + ob), cos( obl + ob));
   ee = lon * cos( obl);                             /* equation of the equinoxes:  mean equinox */
   rot_ref( expect, 2, -sin( ee), cos( ee));
   mat_vec( out, m, v);
   same3( out, expect, 1e-8, "precession, then nutation in longitude and obliquity");
}
#elif MODE == 12        /* precess_ra_dec */
static double at_y, at_x, as_x, at_val, as_val;
static int n_atan, n_asin;

extern "C" double atan2( double y, double x)
{
   at_y = y;
   at_x = x;
   n_atan++;
   return( at_val);
}

extern "C" double asin( double x)
{
   as_x = x;
   n_asin++;
   return( as_val);
}

extern "C" void harness( void)
{
   double m[9], in[2], out[2], v[3], e[3];
   const int back = vp_choose( "backward", 0, 1);

   for( int i = 0; i < 9; i++)
      m[i] = vp_double( "element", -1., 1.);
   in[0] = vp_double( "RA", -10., 10.);
   in[1] = vp_double( "dec", -1.6, 1.6);
   at_val = vp_double( "atan2", -3.1415926, 3.1415926);
   as_val = vp_double( "asin", -1.5707963, 1.5707963);
   v[0] = cos( in[0]) * cos( in[1]);
   v[1] = sin( in[0]) * cos( in[1]);
   v[2] = sin( in[1]);
   if( back)
      mat_t_vec( e, m, v);
   else
      mat_vec( e, m, v);
   vp_assume( e[0] > .001 || e[0] < -.001);
   vp_assume( e[2] < .999 && e[2] > -.999);
   precess_ra_dec( m, out, in, back);
   vp_reach( "end");
   vp_assert( n_atan == 1 && n_asin == 1, "one direction");
   vp_assert_req( at_y, e[1], 1e-9, "the direction is that of the rotated vector");
   vp_assert_req( at_x, e[0], 1e-9, "the direction is that of the rotated vector");
   vp_assert_req( as_x, e[2], 1e-9, "the direction is that of the rotated vector");
   vp_assert( out[1] == as_val, "dec");
   vp_assert( out[0] - in[0] < 3.141593 && out[0] - in[0] > -3.141593, "RA is within half a turn of the original one");
   {
   const double turns = (out[0] - at_val) / (2. * ref_pi);
   double d = 9.;

   for( int i = -2; i <= 2; i++)
      {
      const double e1 = turns - (double)i;

      if( e1 < 1e-9 && e1 > -1e-9)
         d = 0.;
      }
   vp_assert( d == 0., "RA is that of the rotated vector, but for full turns");
   }
}
#elif MODE == 13        /* cubic splines */
double cubic_spline_interpolate_within_table( const double *table, const int n_entries, double x, int *err_code);

extern "C" void harness( void)
{
   const int n = vp_choose( "entries", 4, 7);
   double tab[7], got, x, deriv0, deriv1, y0, y1, u, expect;
   int err = 99, idx, seg;

   for( int i = 0; i < n; i++)
      tab[i] = vp_double( "entry", -1000., 1000.);
   seg = vp_choose( "interval", -2, n);
   u = vp_double( "fraction", 0., .999999);
   x = (double)seg + u;
   got = cubic_spline_interpolate_within_table( tab, n, x, &err);
   vp_reach( "end");
   idx = seg;
   if( idx < 1)
      idx = 1;
   if( idx > n - 3)
      idx = n - 3;
   u += (double)( seg - idx);
   y0 = tab[idx];
   y1 = tab[idx + 1];
   deriv0 = (tab[idx + 1] - tab[idx - 1]) * .5;
   deriv1 = (tab[idx + 2] - tab[idx]) * .5;
           /* Hermite's form */
   expect = y0 * (1. + 2. * u) * (1. - u) * (1. - u) + deriv0 * u * (1. - u) * (1. - u)
          + y1 * u * u * (3. - 2. * u) - deriv1 * u * u * (1. - u);
   vp_assert_req( got, expect, 1e-6, "the cubic with the given values and derivatives");
   vp_assert( err == (seg == idx ? 0 : (seg == 0 || seg == n - 2) ? -1 : -2), "extrapolation is flagged");
}
#elif MODE == 14        /* Lagrange interpolation */
double lagrange_interpolate_within_table( const double *table, const int n_entries, double x, const int n_pts, double *deriv);

extern "C" void harness( void)        /* a polynomial of degree n_pts - 1 or less is reproduced exactly */
{
   const int n = 8, den = 6, pos = vp_choose( "position", XLO * den, XHI * den);
   const double x = (double)pos / (double)den;
   double tab[8], c[NPTS], got, expect = 0., p = 1., d = 0., dgot;
   int i, j;

   for( i = 0; i < NPTS; i++)
      c[i] = vp_double( "coefficient", -10., 10.);
   for( i = 0; i < n; i++)
      {
      double v = 0.;

      for( j = NPTS - 1; j >= 0; j--)
         v = v * (double)i + c[j];
      tab[i] = v;
      }
   got = lagrange_interpolate_within_table( tab, n, x, NPTS, NULL);
   for( i = 0; i < NPTS; i++, p *= x)
      {
      expect += c[i] * p;
      if( i < NPTS - 1)
         d += c[i + 1] * p * (double)( i + 1);
      }
   vp_reach( "end");
   vp_assert_req( got, expect, 1e-3, "a polynomial is reproduced");
   got = lagrange_interpolate_within_table( tab, n, x, NPTS, &dgot);
   vp_assert_req( got, expect, 1e-3, "a polynomial is reproduced");
   vp_assert_req( dgot, d, .05, "and its derivative");
}
#elif MODE == 15        /* Greenwich sidereal time */
extern "C" void harness( void)
{
   const double jd = vp_double( "JD", -1000000., 6000000.), t = (jd - 2451545.) / 36525.;
   const double deg = 280.46061837 + 360.98564736629 * (jd - 2451545.) + .000387933 * t * t - t * t * t / 38710000.;
   const double got = green_sidereal_time( jd) * 180. / ref_pi;
   const double turns = (deg - got) / 360., f = floor( turns + .5);

   vp_reach( "end");
   vp_assert_req( turns, f, 1e-8, "sidereal time is that of Meeus, but for full turns");
}
#endif
