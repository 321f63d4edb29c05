/* pack -> unpack of every class of designation, through the public interface */
#include <stdio.h>
#include <string.h>
#include <ctype.h>
#include "watdefs.h"
#include "mpc_func.h"
#include "vp.h"

static char name[40];
static int n;
static void lit( const char *s) { while( *s) name[n++] = *s++; }
static void digits( int lo_first, int count)      /* count digits, the first at least lo_first */
{
   for( int i = 0; i < count; i++)
#ifdef FIRST
      if( !i && count == NDIG)
         name[n++] = '0' + FIRST;
      else
#endif
      name[n++] = (char)vp_int( "digit", i ? '0' : '0' + lo_first, '9');
}
static void upper( void) { name[n++] = (char)vp_int( "letter", 'A', 'Z'); }
static long value( int from, int count)
{
   long v = 0;
   for( int i = 0; i < count; i++)
      v = v * 10 + name[from + i] - '0';
   return( v);
}

static void year( int lo, int hi)
{
   digits( 1, 4);
   const long y = value( n - 4, 4);
   vp_assume( y >= lo && y <= hi);
}

extern "C" void harness( void)
{
   char packed[13], back[40];
   int want, i;

   n = 0;
#if SHAPE == 1                   /* (number) */
   lit( "(");
   digits( 1, NDIG);
   vp_assume( value( 1, NDIG) < 620000L + 62L * 62L * 62L * 62L);
   lit( ")");
   want = OBJ_DESIG_ASTEROID_NUMBERED;
#elif SHAPE == 2                 /* 2005 FF351 */
   year( 1600, 2099);
   lit( " ");
   upper( );
   upper( );
   digits( 1, NDIG);
   if( NDIG == 3)
      vp_assume( value( n - NDIG, NDIG) < 620);
   want = OBJ_DESIG_ASTEROID_PROVISIONAL;
#elif SHAPE == 3                 /* extended: 2016 QQ12345 */
   lit( "20");
   digits( 0, 2);
   vp_assume( value( 0, 4) < 2062);
   lit( " ");
   upper( );
#ifdef PREFIX           /* around the largest extended designations */
   name[n++] = "ABCDEFGHJKLMNOPQRSTUVWXYZ"[vp_choose( "letter", 0, 24)];
   lit( PREFIX);
   digits( 0, NDIG - (int)strlen( PREFIX));
#else
   upper( );
   vp_assume( name[n - 1] != 'I');
   digits( 1, NDIG);
#endif
   const long sub = value( n - NDIG, NDIG);
#ifdef MAXSUB
   vp_assume( sub <= MAXSUB);
#endif
   vp_assume( sub >= 620 && (sub - 620) * 25 + (name[6] - 'A') - (name[6] > 'I') < 62L * 62L * 62L * 62L);
   want = OBJ_DESIG_ASTEROID_PROVISIONAL;
#elif SHAPE == 4                 /* C/2018 F4, optionally -A */
   name[n++] = "PCXDA"[vp_choose( "type", 0, 4)];
   lit( "/");
   year( 1600, 2099);
   lit( " ");
   upper( );
   digits( 1, NDIG);
   if( NDIG == 3)
      vp_assume( value( n - NDIG, NDIG) < 620);
#ifdef FRAG
   lit( "-");
   upper( );
#endif
   want = name[0] == 'A' ? OBJ_DESIG_ASTEROID_PROVISIONAL : OBJ_DESIG_COMET_PROVISIONAL;
#elif SHAPE == 5                 /* 297P, 73P-AB, 1I */
   digits( 1, NDIG);
   name[n++] = "PDI"[vp_choose( "type", 0, 2)];
   if( FRAG)
      lit( "-");
   for( i = 0; i < FRAG; i++)
      upper( );
   want = OBJ_DESIG_COMET_NUMBERED;
#elif SHAPE == 6                 /* 2040 P-L */
   static const char *surveys[4] = { " P-L", " T-1", " T-2", " T-3" };
   digits( 1, 4);
   vp_assume( value( 0, 4) < 9000);
   lit( surveys[vp_choose( "survey", 0, 3)]);
   want = OBJ_DESIG_ASTEROID_PROVISIONAL;
#elif SHAPE == 7                 /* S/2013 N 42 */
   lit( "S/");
   year( 1901, 2099);
   lit( " ");
   name[n++] = "MVEJSUNP"[vp_choose( "planet", 0, 7)];
   lit( " ");
   digits( 1, NDIG);
   if( NDIG == 3)
      vp_assume( value( n - NDIG, NDIG) < 620);
   want = OBJ_DESIG_NATSAT_PROVISIONAL;
#elif SHAPE == 8                 /* 1992-044A, 2000-357KHA */
   year( 1957, 2099);
   lit( "-");
   digits( 0, 3);
   for( i = 0; i < NDIG; i++)
      upper( );
   want = OBJ_DESIG_ARTSAT;
#elif SHAPE == 9                 /* 2005 FF : no sub-designator */
   year( 1600, 2099);
   lit( " ");
   upper( );
   upper( );
   want = OBJ_DESIG_ASTEROID_PROVISIONAL;
#endif
   name[n] = '\0';
   memset( packed, 1, sizeof( packed));
   const int rval = create_mpc_packed_desig( packed, name);
   vp_reach( "end");
   vp_assert( rval == 0, "a well-formed designation packs successfully");
   vp_assert( packed[12] == '\0', "the packed form is terminated after twelve bytes");
   for( i = 0; i < 12; i++)
      vp_assert( packed[i] >= ' ' && packed[i] <= 'z' + 4, "the packed form is twelve printable bytes");
   const int type = unpack_mpc_desig( back, packed);
   vp_assert( type == want, "the packed form unpacks as the same kind of object");
   for( i = 0; i <= n; i++)
      vp_assert( back[i] == name[i], "unpacking gives back the original designation");
   vp_assert( unpack_mpc_desig( NULL, packed) == want, "asking only for the type gives the same answer");
}
