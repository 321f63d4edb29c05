/* Observer locations, RAs and decs as a human would type them, and observatory code records */
#include <stdio.h>
#include <string.h>
#include <math.h>
#include "watdefs.h"
#include "mpc_func.h"
#include "vp.h"

static const double pi = 3.1415926535897932384626433832795028841971693993751058209749445923;
#ifndef SEPARATOR
#define SEPARATOR " "
#endif

static char buff[100];
static int len;

static void add( const char *s) { while( *s) buff[len++] = *s++; }

static double put( int n)
{
   double rval = 0.;

   while( n--)
      {
      buff[len] = (char)vp_int( "digit", '0', '9');
      rval = rval * 10. + (double)( buff[len] - '0');
      len++;
      }
   return( rval);
}

static double put_decimals( int n)
{
   double rval = 0., scale = 1.;

   if( n < 0)
      return( 0.);
   buff[len++] = '.';
   while( n--)
      {
      scale /= 10.;
      buff[len] = (char)vp_int( "digit", '0', '9');
      rval += (double)( buff[len] - '0') * scale;
      len++;
      }
   return( rval);
}

/* two digits, 00 to 59 */
static double put_60( void)
{
   const int tens = vp_int( "tens", '0', '5'), units = vp_int( "units", '0', '9');

   buff[len++] = (char)tens;
   buff[len++] = (char)units;
   return( (double)( (tens - '0') * 10 + units - '0'));
}

/* an angle of nf fields, with decimals on the last of them */
static double put_angle( const int n_lead, const int nf, const int decimals)
{
   double rval = put( n_lead);

   if( nf == 1)
      rval += put_decimals( decimals);
   else
      {
      double x;

      add( SEPARATOR);
      x = put_60( );
      if( nf == 2)
         x += put_decimals( decimals);
      rval += x / 60.;
      if( nf == 3)
         {
         add( SEPARATOR);
         x = put_60( );
         x += put_decimals( decimals);
         rval += x / 3600.;
         }
      }
   return( rval);
}

/* No assertion here depends on parallax constants:  the trigonometry is abstracted */
#ifndef ELLIPSE
extern "C" double atan2( double y, double x) { return( .25); }
extern "C" double acos( double x) { return( .25); }
extern "C" double cbrt( double x) { return( .25); }
extern "C" double sin( double x) { return( .25); }
extern "C" double cos( double x) { return( .25); }
extern "C" double sqrt( double x) { return( .25); }
#endif

#if defined( LATLON) || defined( XXX)
static int compass;

static void put_compass( const int is_lat, const int upper)
{
   compass = (int)vp_int( "hemisphere", 0, 1);
   if( is_lat)
      buff[len++] = (char)( compass ? (upper ? 'S' : 's') : (upper ? 'N' : 'n'));
   else
      buff[len++] = (char)( compass ? (upper ? 'W' : 'w') : (upper ? 'E' : 'e'));
}

static double put_coord( const int is_lat)
{
   double rval;

   if( COMPASS_FIRST)
      {
      put_compass( is_lat, UPPER);
      add( GAP);
      }
   rval = put_angle( is_lat ? 2 : 3, FIELDS, DECIMALS);
   if( !COMPASS_FIRST)
      {
      add( GAP);
      put_compass( is_lat, UPPER);
      }
   return( compass ? -rval : rval);
}
#endif

#if defined( LATLON)
extern "C" void harness( void)
{
   mpc_code_t c;
   double lat, lon, alt = 100.;
   int rval;

   memset( &c, 0, sizeof( c));
   if( LAT_FIRST)
      lat = put_coord( 1);
   else
      lon = put_coord( 0);
   add( BETWEEN);
   if( LAT_FIRST)
      lon = put_coord( 0);
   else
      lat = put_coord( 1);
   if( ALT)
      {
      add( ALT == 1 ? ", Alt. " : ", ");
      alt = put( 4);
      alt += put_decimals( ALT == 1 ? -1 : 2);
      add( ALT == 1 ? "m" : "ft");
      if( ALT == 2)
         alt *= .3048;
      }
   buff[len] = '\0';
   vp_assume( (lat < 89.999 && lat > -89.999) || lat > 90.001 || lat < -90.001);
   vp_assume( (lon < 359.999 && lon > -359.999) || lon > 360.001 || lon < -360.001);
   rval = get_lat_lon_info( &c, buff);
   vp_reach( "end");
   if( lat > 90. || lat < -90. || lon > 360. || lon < -360.)
      vp_assert( rval == -1, "an impossible location is refused");
   else
      {
      vp_assert( rval == 0, "a location written in one of the documented ways is understood");
      vp_assert_req( c.lat, lat * pi / 180., 1e-12, "latitude as written");
      if( lon < 0.)
         lon += 360.;
      vp_assert_req( c.lon, lon * pi / 180., 1e-12, "longitude as written");
      vp_assert_req( c.alt, alt, 1e-9, "altitude as written (100m if omitted)");
      vp_assert( c.planet == 3 && c.format == MPC_CODE_LAT_LON_ALT, "it is a location on Earth");
      vp_assert( c.code[0] == 'R' && c.code[1] == 'o' && c.code[2] == 'v' && !c.code[3], "it is a roving observer");
      }
}
#elif defined( XXX)
extern "C" void harness( void)
{
   mpc_code_t c;
   double lat, lon, alt;
   int rval;

   memset( &c, 0, sizeof( c));
   add( "COM Long. ");
   lon = put_coord( 0);
   add( ", Lat. ");
   lat = put_coord( 1);
   add( ", Alt. ");
   alt = put( 4);
   add( "m, Google Earth");
   buff[len] = '\0';
   rval = get_xxx_location_info( &c, buff);
   vp_reach( "end");
   vp_assert( rval == 0, "an MPC-style comment line is understood");
   if( lon < 0.)
      lon += 360.;
   vp_assert_req( c.lat, lat * pi / 180., 1e-12, "latitude as written");
   vp_assert_req( c.lon, lon * pi / 180., 1e-12, "longitude as written");
   vp_assert_req( c.alt, alt, 1e-9, "altitude as written");
   vp_assert( c.planet == 3 && c.format == MPC_CODE_LAT_LON_ALT, "it is a location on Earth");
   vp_assert( c.code[0] == 'X' && c.code[1] == 'X' && c.code[2] == 'X' && !c.code[3], "code XXX");
}
#elif defined( RA)
extern "C" void harness( void)
{
   int nbytes = -99, used;
   double expect = put_angle( LEAD, FIELDS, DECIMALS), got;

   add( TAIL);
   used = len;
   add( AFTER);
   buff[len] = '\0';
   if( FIELDS > 1)               /* hours */
      expect *= 15.;
   vp_assume( expect < 359.999 || expect > 360.001);
   got = get_ra_from_string( buff, &nbytes);
   vp_reach( "end");
   if( expect > 360.)
      vp_assert( nbytes == 0, "an RA over 360 degrees is refused");
   else
      {
      vp_assert( nbytes == used, "the text of the RA is consumed");
      vp_assert_req( got, expect * pi / 180., 1e-12, "RA as written, in radians");
      }
}
#elif defined( DEC)
extern "C" void harness( void)
{
   int nbytes = -99, used;
   const int neg = vp_int( "negative", 0, 1);
   double expect, got;

   buff[len++] = (char)( neg ? '-' : '+');
   expect = put_angle( LEAD, FIELDS, DECIMALS);
   add( TAIL);
   used = len;
   add( AFTER);
   buff[len] = '\0';
   vp_assume( expect < 89.999 || expect > 90.001);
   got = get_dec_from_string( buff, &nbytes);
   vp_reach( "end");
   if( expect > 90.)
      vp_assert( nbytes == 0, "a declination over 90 degrees is refused");
   else
      {
      vp_assert( nbytes == used, "the text of the declination is consumed");
      vp_assert_req( got, (neg ? -expect : expect) * pi / 180., 1e-12, "declination as written, in radians");
      }
}
#elif defined( ANYTEXT)
extern "C" void harness( void)
{
   char str[ANYTEXT + 1];
   mpc_code_t c;
   int nbytes = -99, i;
   double x;

   memset( &c, 0, sizeof( c));
   vp_bytes_in( "text", str, ANYTEXT, 32, 126);
   str[ANYTEXT] = '\0';
#if WHICH == 0
   i = get_lat_lon_info( &c, str);
   vp_reach( "end");
   vp_assert( i == 0 || i == -1, "understood or not");
   if( !i)
      vp_assert( c.lat >= -1.5708 && c.lat <= 1.5708 && c.lon >= 0. && c.lon < 6.2832, "a location accepted is on the sphere");
#elif WHICH == 1
   x = get_ra_from_string( str, &nbytes);
   vp_reach( "end");
   vp_assert( nbytes >= 0 && nbytes <= ANYTEXT, "no more bytes are consumed than there are");
   if( nbytes)
      vp_assert( x >= 0. && x < 6.2832, "an RA accepted is from 0 to 360 degrees");
#elif WHICH == 2
   x = get_dec_from_string( str, &nbytes);
   vp_reach( "end");
   vp_assert( nbytes >= 0 && nbytes <= ANYTEXT, "no more bytes are consumed than there are");
   if( nbytes)
      vp_assert( x >= -1.5708 && x < 1.5708, "a declination accepted is from -90 to +90 degrees");
#elif WHICH == 3
   i = get_xxx_location_info( &c, str);
   vp_reach( "end");
   vp_assert( i == -1, "not a location comment");
#elif WHICH == 4
   {
   char str2[ANYTEXT + 17];

   memcpy( str2, "COM Long.", 9);
   memcpy( str2 + 9, str, ANYTEXT);
   memcpy( str2 + 9 + ANYTEXT, "Alt. 7m", 8);
   i = get_xxx_location_info( &c, str2);
   vp_reach( "end");
   vp_assert( i == -2, "unreadable comment");
   }
#elif WHICH == 5
   i = get_mpc_code_info( &c, str);
   vp_reach( "end");
   vp_assert( i == -1, "too short for an observatory record");
   vp_assert( c.name && c.planet == 3, "a geocentric default is set");
#endif
}
#elif defined( STANDARD)
/* Digits 0-9 in the longitude and parallax fields, as many as LON_DIGITS and RHO_DIGITS */
extern "C" void harness( void)
{
   mpc_code_t c;
   double lon, rc, rs;
   const int neg = vp_int( "southern", 0, 1);
   int rval, i;

   memset( &c, 1, sizeof( c));
   for( i = 0; i < 3; i++)
      {
      const int k = vp_int( "code", '0', 'z');

      vp_assume( k <= '9' || (k >= 'A' && k <= 'Z') || k >= 'a');
      buff[len++] = (char)k;
      }
   add( " ");
   lon = put( 3);
   lon += put_decimals( LON_DIGITS);
   while( len < 13)
      add( " ");
   rc = put( 1);
   rc += put_decimals( RHO_DIGITS);
   while( len < 21)
      add( " ");
   buff[len++] = (char)( neg ? '-' : '+');
   rs = put( 1);
   rs += put_decimals( RHO_DIGITS);
   if( neg)
      rs = -rs;
   while( len < 30)
      add( " ");
   add( "Kitt Peak");
   buff[len] = '\0';
   vp_assume( rc > 0.);
   rval = get_mpc_code_info( &c, buff);
   vp_reach( "end");
   vp_assert( rval == 3 && c.planet == 3 && c.format == MPC_CODE_PARALLAXES, "a standard record is recognised");
   for( i = 0; i < 3; i++)
      vp_assert( c.code[i] == buff[i], "its code");
   vp_assert( !c.code[3], "a three-character code");
   vp_assert( c.name == buff + 30, "its name");
   vp_assert_req( c.lon, lon * pi / 180., 1e-12, "its longitude");
   vp_assert_req( c.rho_cos_phi, rc, 1e-12, "its rho cos phi'");
   vp_assert_req( c.rho_sin_phi, rs, 1e-12, "its rho sin phi'");
   vp_assert( c.prec1 == LON_DIGITS && c.prec2 == RHO_DIGITS, "the precisions it was given to");
}
#elif defined( ROVER)
extern "C" void harness( void)
{
   mpc_code_t c;
   double lat, lon, alt;
   const int west = vp_int( "west", 0, 1), south = vp_int( "south", 0, 1);
   int rval, i, planet = 3;

   memset( &c, 1, sizeof( c));
   add( "Xyz");
   buff[len++] = (char)vp_int( "code", '0', '9');
   add( "!");
#if ROVER == 1              /* decimal degrees */
   buff[len++] = (char)( west ? '-' : '+');
   lon = put( 3);
   lon += put_decimals( 6);
   add( " ");
   buff[len++] = (char)( south ? '-' : '+');
   lat = put( 2);
   lat += put_decimals( 6);
   vp_assume( lon <= 360. && lat <= 90. && lat > 0. && lon > 0.);
   if( west)
      lon = 360. - lon;
#else                       /* base 60 */
   double x;

   lon = put( 3);
   x = put_60( );
   lon += x / 60.;
   x = put_60( );
   x += put_decimals( 2);
   lon += x / 3600.;
   vp_assume( lon <= 360. && lon >= 1.);
   add( " ");
   buff[len++] = (char)( south ? '-' : '+');
   lat = put( 2);
   x = put_60( );
   lat += x / 60.;
   x = put_60( );
   x += put_decimals( 2);
   lat += x / 3600.;
   vp_assume( lat <= 90. && lat > 0.);
#endif
   if( south)
      lat = -lat;
   add( " ");
   alt = put( 4);
   alt += put_decimals( 1);
   while( len < 47)
      add( " ");
   add( "Somewhere");
#ifdef PLANET
   add( " @");
   planet = vp_choose( "planet", 0, 9);
   buff[len++] = (char)( '0' + planet);
#endif
   buff[len] = '\0';
   rval = get_mpc_code_info( &c, buff);
   vp_reach( "end");
   vp_assert( rval == planet && c.planet == planet && c.format == MPC_CODE_LAT_LON_ALT, "a rovers.txt record is recognised");
   for( i = 0; i < 4; i++)
      vp_assert( c.code[i] == buff[i], "its code");
   vp_assert( !c.code[4], "a four-character code");
   vp_assert( c.name == buff + 47, "its name");
   vp_assert_req( c.lon, lon * pi / 180., 1e-12, "its longitude");
   vp_assert_req( c.lat, lat * pi / 180., 1e-12, "its latitude");
   vp_assert_req( c.alt, alt, 1e-9, "its altitude");
}
#elif defined( SATELLITE)
extern "C" void harness( void)
{
   mpc_code_t c;
   int rval, i;

   memset( &c, 1, sizeof( c));
   for( i = 0; i < 3; i++)
      {
      const int k = vp_int( "code", '0', 'z');

      vp_assume( k <= '9' || (k >= 'A' && k <= 'Z') || k >= 'a');
      buff[len++] = (char)k;
      }
   while( len < 30)
      add( " ");
   buff[len++] = (char)vp_int( "name", 'A', 'Z');
   buff[len++] = (char)vp_int( "name", ' ', '~');
   buff[len] = '\0';
   rval = get_mpc_code_info( &c, buff);
   vp_reach( "end");
   vp_assert( rval == -2 && c.format == MPC_CODE_SATELLITE, "a record without a position is a spacecraft");
   for( i = 0; i < 3; i++)
      vp_assert( c.code[i] == buff[i], "its code");
   vp_assert( !c.code[3], "a three-character code");
   vp_assert( c.name == buff + 30, "its name");
   vp_assert( c.lon == 0. && c.lat == 0. && c.rho_cos_phi == 0. && c.rho_sin_phi == 0., "no position");
}
#elif defined( POLE)
extern "C" void harness( void)
{
   const double a = vp_double( "a", .01, 10.), b = vp_double( "b", .01, 10.), y = vp_double( "y", -20., 20.);
   double dist = -777., lat;

   lat = point_to_ellipse( a, b, 0., y, &dist);
   vp_reach( "end");
   vp_assert_req( lat, y < 0. ? -pi / 2. : pi / 2., 1e-12, "latitude on the axis is that of a pole");
   vp_assert_req( dist, (y < 0. ? -y : y) - b, 1e-12, "height on the axis is counted from the pole");
}
#elif defined( REGION)
/* A file of two rectangles, after a comment line;  any longitude, latitude */
static char lines[3][60];
static int n_read;

extern "C" char *fgets( char *obuff, int n, FILE *ifile)
{
   if( n_read == 3)
      return( NULL);
   vp_assert( n > 60, "lines are read whole");
   strcpy( obuff, lines[n_read++]);
   return( obuff);
}

/* a number at column 'col' of line 'n' */
static double put_at( const int n, const int col, const int n_digits, const int sign)
{
   double rval = 0.;
   int i;

   lines[n][col] = (sign ? '-' : ' ');
   for( i = 1; i <= n_digits; i++)
      {
      lines[n][col + i] = (char)vp_int( "digit", '0', '9');
      rval = rval * 10. + (double)( lines[n][col + i] - '0');
      }
   lines[n][col + i++] = '.';
   lines[n][col + i] = (char)vp_int( "digit", '0', '9');
   rval += (double)( lines[n][col + i] - '0') / 10.;
   return( sign ? -rval : rval);
}

extern "C" void harness( void)
{
   const double lon = vp_double( "longitude", -180., 360.), lat = vp_double( "latitude", -90., 90.);
   double w, s, e, n, x;
   int i, inside[3], rval, turns;
   char region[100];

   for( i = 0; i < 3; i++)
      memset( lines[i], ' ', 40);
   strcpy( lines[0], "#  comment");
   strcpy( lines[1] + 40, "First one\n");
   strcpy( lines[2] + 40, "Other\r\n");
   for( i = 1; i < 3; i++)
      {
      const int flip = FLIP;
      double lon1 = put_at( i, flip ? 20 : 0, 3, SIGN1), lon2 = put_at( i, flip ? 0 : 20, 3, SIGN2);
      double lat1 = put_at( i, FLIPLAT ? 30 : 10, 2, SOUTH), lat2 = put_at( i, FLIPLAT ? 10 : 30, 2, 0);

      vp_assume( lon1 >= -180. && lon1 <= 360. && lon2 >= -180. && lon2 <= 360. && lat1 <= 90. && lat2 <= 90.);
      w = lon2 - lon1;                    /* width, going east */
      vp_assume( (w > .01 && w < 179.) || w < -181.);
      if( w < 0.)
         w += 360.;
      vp_assume( w > .01 && w < 179.);
      turns = vp_choose( "turns", -2, 1);
      x = lon - lon1 - 360. * (double)turns;         /* east of the western edge */
      vp_assume( x > .001 && x < 359.999 && (x < w - .001 || x > w + .001));
      vp_assume( (lat < lat1 - .001 || lat > lat1 + .001) && (lat < lat2 - .001 || lat > lat2 + .001));
      inside[i] = (x < w) && ((lat > lat1) == (lat < lat2));
      }
   rval = extract_region_data_for_lat_lon( NULL, region, lat, lon);
   vp_reach( "end");
   vp_assert( rval == ((inside[1] || inside[2]) ? 0 : -2), "a region is found if and only if the point is in one of the rectangles");
   if( inside[1])
      vp_assert( !strcmp( region, "First one"), "the first of them is given");
   else if( inside[2])
      vp_assert( !strcmp( region, "Other"), "the one it is in is given");
   else
      vp_assert( !region[0], "no region");
}
#endif
