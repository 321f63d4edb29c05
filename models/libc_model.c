/* libc model used when the translated code is handed to CBMC.  These are the
   stand-ins ("stubs") every CBMC-backed check relies on: C-locale semantics
   of the functions named, nothing project specific. */
typedef unsigned long vp_size;
struct vp_va { long i; double d; char *p; long double ld; };
struct vp_valist { struct vp_va *cur; long pad[2]; };
int nondet_int(void); long nondet_long(void); double nondet_double(void);
unsigned char nondet_uchar(void); char nondet_char(void);

/* ---- harness interface; every input is logged so that a counterexample can
   be replayed natively */
long vp_last; double vp_last_d;
int vp_exit_allowed, vp_exited;

int vpl_vp_int(char *name, long lo, long hi)
{ long v = nondet_long(); __CPROVER_assume(v >= lo && v <= hi); vp_last = v; return (int)v; }
long vpl_vp_long(char *name, long lo, long hi)
{ long v = nondet_long(); __CPROVER_assume(v >= lo && v <= hi); vp_last = v; return v; }
double vpl_vp_double(char *name, double lo, double hi)
{ double v = nondet_double(); __CPROVER_assume(v >= lo && v <= hi); vp_last_d = v; return v; }
char vpl_vp_char(char *name)
{ char v = nondet_char(); vp_last = v; return v; }
void vpl_vp_bytes(char *name, char *buf, long n)
{ long i; for( i = 0; i < n; i++) { char v = nondet_char(); vp_last = v; buf[i] = v; } }
/* n bytes, each within [lo,hi] */
void vpl_vp_bytes_in(char *name, char *buf, long n, int lo, int hi)
{ long i; for( i = 0; i < n; i++) { char v = nondet_char();
   __CPROVER_assume( v >= lo && v <= hi); vp_last = v; buf[i] = v; } }
/* n nonzero bytes then NUL at a position chosen among 0..n */
void vpl_vp_string(char *name, char *buf, long n)
{ long i; for( i = 0; i < n; i++) { char v = nondet_char(); vp_last = v; buf[i] = v; } buf[n] = 0; }
void vpl_vp_allow_exit(int x) { vp_exit_allowed = x; }

void vpl_abort(void) { __CPROVER_assert(vp_exit_allowed, "ABORT: abort() reached"); __CPROVER_assume(0); }
void vpl_exit(int x) { __CPROVER_assert(vp_exit_allowed, "ABORT: exit() reached"); __CPROVER_assume(0); }
void vpl___assert_fail(char *a, char *b, int l, char *f)
{ __CPROVER_assert(vp_exit_allowed, "ABORT: assert() failed in the code under test"); __CPROVER_assume(0); }

/* ---- memory */
void vpl_memcpy(char *d, char *s, vp_size n) { vp_size i; for( i = 0; i < n; i++) d[i] = s[i]; }
void vpl_memmove(char *d, char *s, vp_size n)
{
   vp_size i;
   if( __CPROVER_same_object(d, s) && d > s) { for( i = n; i > 0; i--) d[i - 1] = s[i - 1]; }
   else for( i = 0; i < n; i++) d[i] = s[i];
}
void vpl_memset(char *d, int c, vp_size n) { vp_size i; for( i = 0; i < n; i++) d[i] = (char)c; }
int vpl_memcmp(char *a, char *b, vp_size n)
{ vp_size i; for( i = 0; i < n; i++) if( a[i] != b[i]) return (unsigned char)a[i] < (unsigned char)b[i] ? -1 : 1; return 0; }
char *vpl_memchr(char *s, int c, vp_size n)
{ vp_size i; for( i = 0; i < n; i++) if( s[i] == (char)c) return s + i; return (char *)0; }
void *malloc(vp_size); void free(void *);
char *vpl_malloc(vp_size n) { return (char *)malloc(n); }
char *vpl_calloc(vp_size n, vp_size m)
{ vp_size i; char *p = (char *)malloc(n * m); for( i = 0; i < n * m; i++) p[i] = 0; return p; }
void vpl_free(char *p) { free(p); }
char *vpl_alloca(vp_size n) { return (char *)malloc(n); }

/* ---- strings */
vp_size vpl_strlen(char *s) { vp_size n = 0; while( s[n]) n++; return n; }
char *vpl_strcpy(char *d, char *s) { vp_size i = 0; while( (d[i] = s[i]) != 0) i++; return d; }
char *vpl_strcat(char *d, char *s)
{ vp_size n = 0, i = 0; while( d[n]) n++; while( (d[n + i] = s[i]) != 0) i++; return d; }
char *vpl_strncpy(char *d, char *s, vp_size n)
{ vp_size i = 0; while( i < n && s[i]) { d[i] = s[i]; i++; } while( i < n) d[i++] = 0; return d; }
char *vpl_strncat(char *d, char *s, vp_size n)
{ vp_size k = 0, i = 0; while( d[k]) k++; while( i < n && s[i]) { d[k + i] = s[i]; i++; } d[k + i] = 0; return d; }
int vpl_strcmp(char *a, char *b)
{ vp_size i = 0; while( a[i] && a[i] == b[i]) i++; return (int)(unsigned char)a[i] - (int)(unsigned char)b[i]; }
int vpl_strncmp(char *a, char *b, vp_size n)
{ vp_size i = 0; while( i < n && a[i] && a[i] == b[i]) i++; return i == n ? 0 : (int)(unsigned char)a[i] - (int)(unsigned char)b[i]; }
char *vpl_strchr(char *s, int c)
{ vp_size i = 0; while( s[i] && s[i] != (char)c) i++; return s[i] == (char)c ? s + i : (char *)0; }
char *vpl_strrchr(char *s, int c)
{ char *r = 0; vp_size i = 0; for( ;; i++) { if( s[i] == (char)c) r = s + i; if( !s[i]) return r; } }
vp_size vpl_strspn(char *s, char *a)
{ vp_size i = 0; while( s[i] && vpl_strchr(a, s[i])) i++; return i; }
vp_size vpl_strcspn(char *s, char *a)
{ vp_size i = 0; while( s[i] && !vpl_strchr(a, s[i])) i++; return i; }
char *vpl_strpbrk(char *s, char *a)
{ vp_size i = 0; while( s[i]) { if( vpl_strchr(a, s[i])) return s + i; i++; } return (char *)0; }
char *vpl_strstr(char *h, char *n)
{
   vp_size i = 0, j;
   for( ;; i++) {
      j = 0;
      while( n[j] && h[i + j] == n[j]) j++;
      if( !n[j]) return h + i;
      if( !h[i]) return (char *)0;
   }
}
int vpl_tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int vpl_toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int vpl_strcasecmp(char *a, char *b)
{ vp_size i = 0; while( a[i] && vpl_tolower((unsigned char)a[i]) == vpl_tolower((unsigned char)b[i])) i++;
  return vpl_tolower((unsigned char)a[i]) - vpl_tolower((unsigned char)b[i]); }
int vpl_strncasecmp(char *a, char *b, vp_size n)
{ vp_size i = 0; while( i < n && a[i] && vpl_tolower((unsigned char)a[i]) == vpl_tolower((unsigned char)b[i])) i++;
  return i == n ? 0 : vpl_tolower((unsigned char)a[i]) - vpl_tolower((unsigned char)b[i]); }

/* ---- ctype, C locale; the argument must be representable as unsigned char or
   EOF for the real ones, but glibc accepts -128..255 and so do we */
int vpl_isdigit(int c) { return c >= '0' && c <= '9'; }
int vpl_isxdigit(int c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int vpl_isupper(int c) { return c >= 'A' && c <= 'Z'; }
int vpl_islower(int c) { return c >= 'a' && c <= 'z'; }
int vpl_isalpha(int c) { return (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z'); }
int vpl_isalnum(int c) { return vpl_isalpha(c) || vpl_isdigit(c); }
int vpl_isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int vpl_ispunct(int c) { return c > 32 && c < 127 && !vpl_isalnum(c); }
int vpl_isprint(int c) { return c >= 32 && c < 127; }
int vpl_iscntrl(int c) { return (c >= 0 && c < 32) || c == 127; }
int vpl_abs(int x) { return x < 0 ? (int)(0u - (unsigned)x) : x; }
long vpl_labs(long x) { return x < 0 ? (long)(0ul - (unsigned long)x) : x; }

/* ---- number parsing.  Values outside the type's range: atoi is undefined in
   C; glibc returns (int)strtol.  */
long vpl_strtol(char *s, char *end, int base)
{
   vp_size i = 0, i0;
   int neg = 0, any = 0, ovf = 0;
   unsigned long v = 0, lim;
   while( vpl_isspace(s[i])) i++;
   if( s[i] == '-' || s[i] == '+') { neg = s[i] == '-'; i++; }
   if( (base == 16 || base == 0) && s[i] == '0' && (s[i + 1] == 'x' || s[i + 1] == 'X') && vpl_isxdigit(s[i + 2])) { i += 2; base = 16; }
   if( base == 0) base = (s[i] == '0') ? 8 : 10;
   for( ;; i++) {
      int c = s[i], d = -1;
      if( c >= '0' && c <= '9') d = c - '0';
      else if( c >= 'a' && c <= 'z') d = c - 'a' + 10;
      else if( c >= 'A' && c <= 'Z') d = c - 'A' + 10;
      if( d < 0 || d >= base) break;
      any = 1;
      if( v > 900000000000000000ul) ovf = 1; else v = v * (unsigned long)base + (unsigned long)d;
   }
   if( end) *(char **)end = any ? s + i : s;
   if( ovf) return neg ? (-9223372036854775807L - 1L) : 9223372036854775807L;
   return neg ? -(long)v : (long)v;
}
/* atoi: same digits, but evaluated in 32 bits (only the low 32 bits are
   visible to the caller unless strtol saturates) */
int vpl_atoi(char *s)
{
   vp_size i = 0;
   int neg = 0, n = 0;
   unsigned v = 0;
   while( vpl_isspace(s[i])) i++;
   if( s[i] == '-' || s[i] == '+') { neg = s[i] == '-'; i++; }
   for( ; s[i] >= '0' && s[i] <= '9'; i++) { v = v * 10u + (unsigned)(s[i] - '0'); if( v) n++; }
   if( n > 18) return neg ? 0 : -1;
   return (int)( neg ? 0u - v : v);
}
long vpl_atol(char *s) { return vpl_strtol(s, (char *)0, 10); }
char *vpl_getenv(char *s) { return (char *)0; }

/* ---- formatted output */
#ifndef VP_FMT_DIGITS
#define VP_FMT_DIGITS 11
#endif
static void vp_putc(char *buf, vp_size size, vp_size *n, char c)
{ if( *n + 1 < size) buf[*n] = c; (*n)++; }

int vpl_vp_format(char *buf, vp_size size, char *fmt, struct vp_va *va)
{
   vp_size n = 0, k;
   int a = 0;
   for( k = 0; fmt[k]; k++) {
      if( fmt[k] != '%') { vp_putc(buf, size, &n, fmt[k]); continue; }
      k++;
      int left = 0, zero = 0, plus = 0, space = 0, width = 0, prec = -1, lng = 0;
      for( ;; k++) {
         if( fmt[k] == '-') left = 1; else if( fmt[k] == '0') zero = 1;
         else if( fmt[k] == '+') plus = 1; else if( fmt[k] == ' ') space = 1; else break;
      }
      if( fmt[k] == '*') { width = (int)va[a++].i; k++; if( width < 0) { left = 1; width = -width; } }
      else for( ; fmt[k] >= '0' && fmt[k] <= '9'; k++) width = width * 10 + fmt[k] - '0';
      if( fmt[k] == '.') {
         k++; prec = 0;
         if( fmt[k] == '*') { prec = (int)va[a++].i; k++; }
         else for( ; fmt[k] >= '0' && fmt[k] <= '9'; k++) prec = prec * 10 + fmt[k] - '0';
      }
      for( ; fmt[k] == 'l' || fmt[k] == 'z' || fmt[k] == 'h'; k++) if( fmt[k] != 'h') lng = 1;
      char cv = fmt[k];
      if( cv == '%') vp_putc(buf, size, &n, '%');
      else if( cv == 'c') {
         int p;
         for( p = 1; p < width && !left; p++) vp_putc(buf, size, &n, ' ');
         vp_putc(buf, size, &n, (char)va[a++].i);
         for( p = 1; p < width && left; p++) vp_putc(buf, size, &n, ' ');
      }
      else if( cv == 's') {
         char *s = va[a++].p;
         int len = 0, p;
         while( (prec < 0 || len < prec) && s[len]) len++;
         if( !left) for( p = len; p < width; p++) vp_putc(buf, size, &n, ' ');
         for( p = 0; p < len; p++) vp_putc(buf, size, &n, s[p]);
         if( left) for( p = len; p < width; p++) vp_putc(buf, size, &n, ' ');
      }
      else if( cv == 'd' || cv == 'i' || cv == 'u' || cv == 'x' || cv == 'X') {
         char dig[24];
         int nd = 0, neg = 0, p, tot, base = (cv == 'x' || cv == 'X') ? 16 : 10;
         if( lng) {
            unsigned long u = (unsigned long)va[a].i;
            if( (cv == 'd' || cv == 'i') && va[a].i < 0) { neg = 1; u = 0ul - u; }
            do { int dd = (int)( u % (unsigned long)base); dig[nd++] = (char)(dd < 10 ? '0' + dd : (cv == 'X' ? 'A' : 'a') + dd - 10);
               u /= (unsigned long)base; } while( u && nd < VP_FMT_DIGITS);
            __CPROVER_assert( !u, "MODEL: integer too long for the printf model");
         } else {
            unsigned u = (unsigned)va[a].i;
            if( (cv == 'd' || cv == 'i') && (int)va[a].i < 0) { neg = 1; u = 0u - u; }
            do { int dd = (int)( u % (unsigned)base); dig[nd++] = (char)(dd < 10 ? '0' + dd : (cv == 'X' ? 'A' : 'a') + dd - 10);
               u /= (unsigned)base; } while( u && nd < VP_FMT_DIGITS);
            __CPROVER_assert( !u, "MODEL: integer too long for the printf model");
         }
         a++;
         { int zeros = prec > nd ? prec - nd : 0;
         int sg = neg || plus || space;
         tot = nd + sg + zeros;
         if( zero && !left && prec < 0 && tot < width) { zeros = width - tot; tot = width; }
         if( !left) for( p = tot; p < width; p++) vp_putc(buf, size, &n, ' ');
         if( neg) vp_putc(buf, size, &n, '-'); else if( plus) vp_putc(buf, size, &n, '+');
         else if( space) vp_putc(buf, size, &n, ' ');
         for( p = 0; p < zeros; p++) vp_putc(buf, size, &n, '0');
         for( p = nd; p > 0; p--) vp_putc(buf, size, &n, dig[p - 1]);
         if( left) for( p = tot; p < width; p++) vp_putc(buf, size, &n, ' ');
         }
      }
      else if( cv == 'f') {
#ifdef VP_FMT_FLOAT
         a++; vp_fmt_float(buf, size, &n, va[a - 1].d, width, prec, zero, plus);
#else
         __CPROVER_assert(0, "MODEL: %f not modelled"); a++;
#endif
      }
      else __CPROVER_assert(0, "MODEL: printf conversion not modelled");
   }
   if( size) buf[n < size ? n : size - 1] = 0;
   return (int)n;
}
int vpl_snprintf(char *b, vp_size n, char *f, struct vp_va *va) { return vpl_vp_format(b, n, f, va); }
int vpl_sprintf(char *b, char *f, struct vp_va *va) { return vpl_vp_format(b, 100000, f, va); }
int vpl_vsnprintf(char *b, vp_size n, char *f, char *ap) { return vpl_vp_format(b, n, f, ((struct vp_valist *)ap)->cur); }
int vpl_printf(char *f, struct vp_va *va) { return 0; }
int vpl_fprintf(char *fp, char *f, struct vp_va *va) { return 0; }
int vpl_puts(char *f) { return 0; }
char *vpl_stderr, *vpl_stdout;
