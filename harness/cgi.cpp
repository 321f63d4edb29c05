/* form data: URL-encoded (MODE 1: encode -> decode, MODE 2: any text) and multipart (MODE 3) */
#include <stdio.h>
#include <string.h>
#include "cgi_func.h"
#include "vp.h"

#if MODE == 1
static char enc[200];
static int ne;

static void encode( const char c, int how)      /* how: 0 literally if allowed, 1 upper-case %XX, 2 lower-case %xx */
{
   const unsigned u = (unsigned char)c;
   const bool plain = (c >= '0' && c <= '9') || (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z') || c == '-' || c == '_' || c == '.';

   if( !how && plain)
      enc[ne++] = c;
   else if( !how && c == ' ')
      enc[ne++] = '+';
   else
      {
      const int alpha = (how == 2 ? 'a' : 'A') - 10, hi = (int)u / 16, lo = (int)u % 16;

      enc[ne++] = '%';
      enc[ne++] = (char)( hi < 10 ? '0' + hi : alpha + hi);
      enc[ne++] = (char)( lo < 10 ? '0' + lo : alpha + lo);
      }
}

extern "C" void harness( void)
{
   char f[NF + 1], v[NV + 1], field[NF + 2], value[NV + 2];
   const char *ptr = enc;
   int i;

   for( i = 0; i < NF; i++)
      f[i] = (char)vp_int( "name", 1, 127);
   for( i = 0; i < NV; i++)
      v[i] = (char)vp_int( "value", -128, 127);
   for( i = 0; i < NV; i++)
      vp_assume( v[i] != 0);
   f[NF] = v[NV] = '\0';
   ne = 0;
   for( i = 0; i < NF; i++)
      encode( f[i], HOW);
   enc[ne++] = '=';
   for( i = 0; i < NV; i++)
      encode( v[i], HOW);
#ifdef MORE
   enc[ne++] = '&';
   const char *rest = enc + ne;
   enc[ne++] = 'x';
#else
   const char *rest = enc + ne;
#endif
   enc[ne] = '\0';
   memset( field, 1, sizeof( field));
   memset( value, 1, sizeof( value));
   const int rval = get_urlencoded_form_data( &ptr, field, NF + 1, value, NV + 1);
   vp_reach( "end");
   vp_assert( rval == 0, "well-formed data are accepted");
   for( i = 0; i <= NF; i++)
      vp_assert( field[i] == f[i], "the field name is restored");
   for( i = 0; i <= NV; i++)
      vp_assert( value[i] == v[i], "the value is restored");
   vp_assert( field[NF + 1] == 1 && value[NV + 1] == 1, "nothing is written beyond the buffers");
   vp_assert( ptr == rest, "reading continues after this field");
}
#elif MODE == 2
extern "C" void harness( void)
{
   char text[N + 1], field[FS + 1], value[VS + 1];
   const char *ptr = text;
   int i;

   vp_bytes( "text", text, N);
   text[N] = '\0';
   memset( field, 1, sizeof( field));
   memset( value, 1, sizeof( value));
   const int rval = get_urlencoded_form_data( &ptr, field, FS, value, VS);
   vp_reach( "end");
   vp_assert( rval == 0 || rval == 1 || rval == -1, "documented return value");
   for( i = 0; i < FS && field[i]; i++)
      ;
   vp_assert( i < FS, "the field name is terminated within its buffer");
   if( rval >= 0)
      {
      for( i = 0; i < VS && value[i]; i++)
         ;
      vp_assert( i < VS, "the value is terminated within its buffer");
      }
   vp_assert( field[FS] == 1 && value[VS] == 1, "nothing is written beyond the buffers");
   vp_assert( ptr >= text && ptr <= text + N, "the read pointer stays inside the text");
}
#elif MODE == 3
static char input[200];
static int ipos, ilen;

extern "C" char *fgets( char *s, int size, FILE *f)
{
   int n = 0;

   if( ipos >= ilen || size < 2)
      return( NULL);
   while( n < size - 1 && ipos < ilen)
      {
      s[n] = input[ipos++];
      if( s[n++] == '\n')
         break;
      }
   s[n] = '\0';
   return( s);
}

static void add( const char *s) { while( *s) input[ilen++] = *s++; }

extern "C" void harness( void)
{
   char field[31], buff[BUFF + 1], name[NF + 1], val[NV + 1];
   int i, rval;

   ilen = ipos = 0;
   for( i = 0; i < NF; i++)
      name[i] = (i > 3 ? 'x' : (char)vp_int( "name", 'a', 'z'));
   name[NF] = '\0';
   for( i = 0; i < NV; i++)
      {
      val[i] = (char)vp_int( "value", 1, 127);
      vp_assume( val[i] != '-');       /* never looks like the boundary */
      }
   val[NV] = '\0';
   add( "C: form-data; name=\"");
   add( name);
   add( "\"\r\n\r\n");
   add( val);
   add( "\r\n--bound\r\n");
   memset( field, 1, sizeof( field));
   memset( buff, 1, sizeof( buff));
   rval = get_multipart_form_data( "--bound\r\n", field, buff, NULL, BUFF);
   vp_reach( "end");
   vp_assert( field[30] == 1 && buff[BUFF] == 1, "nothing is written beyond the buffers");
#if NF < 30
   vp_assert( rval >= 0, "well-formed data are accepted");
   for( i = 0; i <= NF; i++)
      vp_assert( field[i] == name[i], "the field name is restored");
   int n = NV;                      /* trailing line ends are dropped */
   while( n && (val[n - 1] == 10 || val[n - 1] == 13))
      n--;
   vp_assert( rval == n, "the length of the value is returned");
   for( i = 0; i < n; i++)
      vp_assert( buff[i] == val[i], "the value is restored");
   vp_assert( buff[n] == '\0', "the value is terminated");
#else
   vp_assert( rval < 0, "an over-long field name is refused");
#endif
}
#endif
