#include <features.h>
#include <sys/cdefs.h>
#undef __THROW
#define __THROW
#undef __THROWNL
#define __THROWNL
#undef __NTH
#define __NTH(f) f
#undef __NTHNL
#define __NTHNL(f) f
