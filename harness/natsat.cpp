/* numbered natural satellites: unpack -> pack, and pack of the decimal form */
#include <stdio.h>
#include <string.h>
#include "watdefs.h"
#include "mpc_func.h"
#include "vp.h"

extern "C" void harness( void)
{
   static const char *planets[8] = { "Venus ", "Earth ", "Mars ", "Jupiter ", "Saturn ", "Uranus ", "Neptune ", "Pluto " };
   const int n = vp_int( "number", LO, HI);
   char want[13], packed[13], name[26], decimal[20];
   size_t len = strlen( planets[PLANET]);

   memcpy( want, "....S       ", 13);
   want[0] = planets[PLANET][0];
   want[1] = '0' + n / 100;
   want[2] = '0' + n / 10 % 10;
   want[3] = '0' + n % 10;
   memcpy( decimal, planets[PLANET], len);
   memcpy( decimal + len, want + 1, 3);
   decimal[len + 3] = '\0';
   vp_reach( "end");
   vp_assert( create_mpc_packed_desig( packed, decimal) == 0, "a satellite number packs");
   vp_assert( !memcmp( packed, want, 13), "a satellite number packs into planet letter, three digits and S");
   vp_assert( unpack_mpc_desig( name, packed) == OBJ_DESIG_NATSAT_NUMBERED, "it unpacks as a numbered satellite");
   vp_assert( !memcmp( name, planets[PLANET], len), "the planet's name is restored");
   vp_assert( create_mpc_packed_desig( packed, name) == 0, "the name in Roman numerals packs");
   vp_assert( !memcmp( packed, want, 13), "the name in Roman numerals packs into the same designation");
}
