/* astrometric catalogue (NET) names and codes */
#include <stdio.h>
#include <string.h>
#include <ctype.h>
#include "watdefs.h"
#include "mpc_func.h"
#include "vp.h"

static const char *letters = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ";

static int up( const int c) { return( c >= 'a' && c <= 'z' ? c - 'a' + 'A' : c); }

/* what is left of a name once separators, '.0' and 'DR' are ignored */
static int reduce( char *obuff, const char *ibuff)
{
   int i = 0, j = 0;

   while( ibuff[i])
      if( ibuff[i] == '-' || ibuff[i] == ' ')
         i++;
      else if( (ibuff[i] == '.' && ibuff[i + 1] == '0') || (up( ibuff[i]) == 'D' && up( ibuff[i + 1]) == 'R'))
         i += 2;
      else
         obuff[j++] = (char)up( ibuff[i++]);
   obuff[j] = '\0';
   return( j);
}

#if MODE == 0        /* any byte */
extern "C" void harness( void)
{
   const char c = vp_char( "code");
   const char *name = byte_code_to_net_name( c);

   vp_reach( "end");
   if( (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'))
      vp_assert( name != NULL, "every letter stands for a catalogue");
   if( name)
      {
      vp_assert( *name != '\0', "catalogue names are not empty");
      vp_assert( net_name_to_byte_code( name) == c, "the name of a code gives that code back");
      }
}
#elif MODE == 1         /* each letter;  respelled */
extern "C" void harness( void)
{
   const char code = letters[vp_choose( "code", LO, HI)];
   const char *name = byte_code_to_net_name( code);
   char str[60];
   int i, j = 0, len, at, drop;

   vp_assert( name != NULL, "every letter stands for a catalogue");
   if( !name)
      return;
   len = (int)strlen( name);
   at = vp_choose( "extra separator", 0, len);
   drop = vp_choose( "separators dropped", 0, 1);
   if( at > 0 && at < len && ((up( name[at - 1]) == 'D' && up( name[at]) == 'R') || (name[at - 1] == '.' && name[at] == '0')))
      at = len;
   for( i = 0; i < len; i++)
      {
      char c = name[i];

      if( i == at)
         str[j++] = (char)( vp_int( "separator", 0, 1) ? '-' : ' ');
      if( drop && (c == '-' || c == ' '))
         continue;
      if( up( c) >= 'A' && up( c) <= 'Z')
         c = (char)( up( c) + 32 * vp_int( "lower case", 0, 1));
      str[j++] = c;
      }
   if( at == len && name[len - 1] >= '1' && name[len - 1] <= '9' && vp_choose( "with .0", 0, 1))
      {
      str[j++] = '.';
      str[j++] = '0';
      }
   str[j] = '\0';
   i = net_name_to_byte_code( str);
   vp_reach( "end");
   vp_assert( i == code, "case, hyphens, spaces and a final .0 make no difference");
}
#elif MODE == 2         /* any text */
extern "C" void harness( void)
{
   char str[LEN + 1], r1[LEN + 1], r2[80];
   int i, n;
   char c;

   vp_bytes_in( "name", str, LEN, 1, 126);
   str[LEN] = '\0';
   c = net_name_to_byte_code( str);
   vp_reach( "end");
   if( c != '?')
      {
      const char *name = byte_code_to_net_name( c);

      vp_assert( name != NULL, "a code returned is that of a catalogue");
      if( name && c != 'X')
         {
         n = reduce( r1, str);
         reduce( r2, name);
         for( i = 0; i <= n; i++)
            vp_assert( r1[i] == r2[i], "a code returned is that of the catalogue named");
         }
      }
}
#else                   /* long names */
extern "C" void harness( void)
{
   char str[LEN + 1];
   int i;

   for( i = 0; i < LEN; i++)
      str[i] = 'Q';
   str[vp_choose( "where", LEN - 3, LEN - 1)] = (char)vp_int( "byte", 'E', 'z');
   str[LEN] = '\0';
   vp_reach( "end");
   vp_assert( net_name_to_byte_code( str) == '?', "no catalogue has such a name");
}
#endif
