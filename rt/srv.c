/* Call server: reads a command script, performs the calls it asks for, writes the results. Uses the library under test
   only through the calls themselves (input and output go through open/read/write). */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <ctype.h>
#include <errno.h>
#include <stdarg.h>
#include <fcntl.h>
#include <unistd.h>
#include <time.h>
#include <setjmp.h>
#include <sys/lng.h>
#ifndef __SMALLER_C_16__
#include <math.h>
#include <limits.h>
#endif

#ifdef __SMALLER_C_16__
#define ARENA 4096u
#else
#define ARENA 65536u
#endif

typedef unsigned U;
typedef U (*FN)(U, U, U, U, U, U, U, U, U, U, U, U);

#ifdef GUARD
unsigned char* arena;
int sys_mmap(U* p)
{
  asm("push ebx\n"
      "mov ebx, [ebp+8]\n"
      "mov eax, 90\n"
      "int 0x80\n"
      "pop ebx");
}
void getarena(void)
{
  U a[6];
  a[0] = 0x20000000; a[1] = ARENA; a[2] = 3; a[3] = 0x32; a[4] = -1; a[5] = 0;
  arena = (unsigned char*)sys_mmap(a);
}
#else
unsigned char arena_[ARENA + 16];
unsigned char* arena;
void getarena(void) { arena = arena_ + ((16 - ((U)arena_ & 15)) & 15); }
#endif

#define IBSZ 2048
#define OBSZ 2048
static unsigned char ib[IBSZ];
static int ip, il, ifd;
static unsigned char ob[OBSZ];
static int op, ofd;

static int in(void)
{
  if (ip >= il)
  {
    il = read(ifd, ib, IBSZ);
    ip = 0;
    if (il <= 0)
      return -1;
  }
  return ib[ip++];
}
static U in2(void) { U a = in(); return a | ((U)in() << 8); }
static U in4(void)
{
  U a = in2();
#ifdef __SMALLER_C_16__
  in2();
  return a;
#else
  return a | (in2() << 16);
#endif
}
static void flush(void)
{
  if (op)
    write(ofd, ob, op);
  op = 0;
}
static void out(int c)
{
  if (op >= OBSZ)
    flush();
  ob[op++] = c;
}
static void out4(U v)
{
  out(v & 255); out(v >> 8 & 255);
#ifdef __SMALLER_C_16__
  out(0); out(0);
#else
  out(v >> 16 & 255); out(v >> 24 & 255);
#endif
}

/* comparison functions for qsort and bsearch */
static U clog;
static int cmp1(unsigned char* a, unsigned char* b) { clog++; return (int)*a - (int)*b; }
static int cmp1r(unsigned char* a, unsigned char* b) { clog++; return (int)*b - (int)*a; }
static int cmp2(unsigned short* a, unsigned short* b) { clog++; return *a < *b ? -1 : *a > *b; }
static int cmp4(int* a, int* b) { clog++; return *a < *b ? -1000 : *a > *b ? 1000 : 0; }
static int cmpm(unsigned char* a, unsigned char* b) { clog++; return (*a & 15) - (*b & 15); }
static int cmp0(void* a, void* b) { clog++; return 0; }
static int cmps(char** a, char** b) { clog++; return strcmp(*a, *b); }
/* both arguments (bsearch: the second one) have to be elements of the array */
static unsigned char* cbase;
static U cnum, csize, cbad, ckey;
static U cset(unsigned char* b, U n, U z, U key) { cbase = b; cnum = n; csize = z; ckey = key; cbad = 0; return 0; }
static U cbadget(void) { return cbad; }
static void celem(unsigned char* p) { U d = p - cbase; if (p < cbase || d >= cnum * csize || d % csize) cbad++; }
static int cmpc(unsigned char* a, unsigned char* b)
{
  clog++;
  if (ckey == 0) celem(a); else if ((U)a != ckey) cbad++;
  celem(b);
  return a[0] < b[0] ? -1 : a[0] > b[0] ? 1 : csize > 1 ? (int)a[1] - (int)b[1] : 0;
}
static U getclog(void) { U r = clog; clog = 0; return r; }

static U get_errno(void) { return errno; }
static U set_errno(U v) { errno = v; return 0; }
static U f_stdin(void) { return (U)stdin; }
static U f_stdout(void) { return (U)stdout; }
static U f_stderr(void) { return (U)stderr; }
static void w_div(int a, int b, div_t* r) { *r = div(a, b); }
static int va_vsprintf(char* b, char* f, ...) { va_list l; int r; va_start(l, f); r = vsprintf(b, f, l); va_end(l); return r; }
static int va_vsnprintf(char* b, U n, char* f, ...) { va_list l; int r; va_start(l, f); r = vsnprintf(b, n, f, l); va_end(l); return r; }
static int va_vfprintf(FILE* p, char* f, ...) { va_list l; int r; va_start(l, f); r = vfprintf(p, f, l); va_end(l); return r; }
static int va_vsscanf(char* b, char* f, ...) { va_list l; int r; va_start(l, f); r = vsscanf(b, f, l); va_end(l); return r; }
static int va_vfscanf(FILE* p, char* f, ...) { va_list l; int r; va_start(l, f); r = vfscanf(p, f, l); va_end(l); return r; }
static int m_getc(FILE* f) { return getc(f); }
static int m_putc(int c, FILE* f) { return putc(c, f); }
static int m_feof(FILE* f) { return feof(f) != 0; }
static int m_ferror(FILE* f) { return ferror(f) != 0; }
static U byte_at(unsigned char* p) { return *p; }
static U word_at(U* p) { return *p; }
static U put_word(U* p, U v) { *p = v; return 0; }
static U mod16(U p) { return p & 15; }
static U fillp(unsigned char* p, U n, U v) { U i; if (p) for (i = 0; i < n; i++) p[i] = v + i * 7; return 0; }
static U chkp(unsigned char* p, U n, U v) { U i; if (p) for (i = 0; i < n; i++) if (p[i] != (unsigned char)(v + i * 7)) return i + 1; return 0; }
static U chkz(unsigned char* p, U n) { U i; if (p) for (i = 0; i < n; i++) if (p[i]) return i + 1; return 0; }
/* a pattern without a period of 256 bytes, and a sum that depends on the order of the bytes */
static U fillq(unsigned char* p, U n, U v) { U i; if (p) for (i = 0; i < n; i++) p[i] = v + i * 7 + (i >> 8) * 31; return 0; }
static U sumq(unsigned char* p, U n) { U h = n, i; if (p) for (i = 0; i < n; i++) h = (h << 5) - h + p[i]; return h; }
static U sel(U a, U b) { return a ? a : b; }
static U c_rand(void) { return rand(); }
static U randmax(void) { return RAND_MAX; }
static U sumrand(U n) { U s = 0, i; for (i = 0; i < n; i++) { int r = rand(); if (r < 0 || r > RAND_MAX) return -1; s = s * 31 + r; } return s; }
static U same_ptr(U a, U b) { return a == b; }
#ifndef __SMALLER_C_16__
static void w_ldiv(long a, long b, ldiv_t* r) { *r = ldiv(a, b); }
#endif

#ifdef __SMALLER_C_16__
static FN tbl[] =
{
#include "srvtab16.inc"
};
#else
static FN tbl[] =
{
#include "srvtab.inc"
};
#endif

static U reg[256];

int main(void)
{
  int c;
  U i, n, k, a[12];
  ifd = open("srv.in", O_RDONLY);
  ofd = open("srv.out", O_WRONLY | O_CREAT | O_TRUNC, 0x1B6);
  if (ifd < 0 || ofd < 0)
    return 3;
  getarena();
  out4((U)arena);
  while ((c = in()) >= 0)
  {
    switch (c)
    {
    case 'W': /* offset, length, bytes */
      k = in2(); n = in2();
      for (i = 0; i < n; i++)
        arena[k + i] = in();
      break;
    case 'F': /* offset, length, value */
      k = in2(); n = in2(); c = in();
      for (i = 0; i < n; i++)
        arena[k + i] = c;
      break;
    case 'D': /* offset, length */
      k = in2(); n = in2();
      for (i = 0; i < n; i++)
        out(arena[k + i]);
      break;
    case 'C': /* function, result register, argument count, arguments */
      k = in2(); c = in(); n = in();
      for (i = 0; i < 12; i++)
        a[i] = 0;
      for (i = 0; i < n; i++)
      {
        int t = in();
        U v = in4();
        if (t == 1)
          v += (U)arena;
        else if (t == 2)
          v = reg[v];
        else if (t == 3)
          v = (U)tbl[v];
        a[i] = v;
      }
      reg[c] = tbl[k](a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11]);
      out4(reg[c]);
      break;
    case 'A': /* register += value */
      c = in();
      reg[c] += in4();
      break;
    case 'P': /* progress mark: results so far survive a crash */
      flush();
      break;
    }
  }
  flush();
  return 0;
}
