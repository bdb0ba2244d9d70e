/* Interprets a script of process-level operations (file SCR): handlers, streams, nested calls, jumps, ways to end. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <setjmp.h>
#include <assert.h>
#include <fcntl.h>
#include <unistd.h>

#ifdef __SMALLER_C_16__
#define SCRMAX 3000
#else
#define SCRMAX 20000
#endif
static unsigned char scr[SCRMAX];
static int ip;
static jmp_buf jb[40];
static FILE* fs[4];
static char vb[4][256];
static unsigned char hact[36], harg[36];
static int gargc;
static char** gargv;
static int qn, qhow, qarg, qval;

static int b1(void) { return scr[ip++]; }
static int b2(void) { int a = b1(); a |= b1() << 8; return (short)a; }
#ifdef __SMALLER_C_16__
static int b4(void) { int a = b2(); ip += 2; return a; }
#else
static int b4(void) { unsigned a = b2() & 0xFFFF; return (int)(a | (unsigned)b2() << 16); }
#endif
static char* str(void) { char* p = (char*)scr + ip; ip += strlen(p) + 1; return p; }

static void handler(int n);
#define H(n) static void h##n(void) { handler(n); }
#define H4(a, b, c, d) H(a) H(b) H(c) H(d)
H4(0, 1, 2, 3) H4(4, 5, 6, 7) H4(8, 9, 10, 11) H4(12, 13, 14, 15) H4(16, 17, 18, 19) H4(20, 21, 22, 23)
H4(24, 25, 26, 27) H4(28, 29, 30, 31) H4(32, 33, 34, 35)
static void (*hs[36])(void) = {
  h0, h1, h2, h3, h4, h5, h6, h7, h8, h9, h10, h11, h12, h13, h14, h15, h16, h17, h18, h19, h20, h21, h22, h23, h24, h25, h26, h27, h28, h29, h30, h31, h32, h33, h34, h35 };

static int isneg(int e) { return e != 0; }

static void handler(int n)
{
  static jmp_buf hj;
  int a = harg[n];
  printf("h%d\n", n);
  switch (hact[n])
  {
  case 1:
    printf("r%d %d\n", a, isneg(atexit(hs[a])));
    break;
  case 2:
    if (fs[a & 3]) fprintf(fs[a & 3], "H%d", n);
    break;
  case 3:
    if (setjmp(hj) == 0)
      longjmp(hj, 1);
    else
      printf("hj\n");
    break;
  case 4:
    _Exit(a);
  }
}

static void deeper(int n, int lvl, int v)
{
  char pad[20];
  memset(pad, n, 20);
  if (n > 0)
    deeper(n - 1, lvl, v);
  longjmp(jb[lvl], v);
  printf("%d", pad[0]);
}

static int qcmp(char* a, char* b)
{
  if (++qn == qarg)
  {
    if (qhow & 64)
      exit(qval);
    longjmp(jb[qhow & 63], qval);
  }
  return *a - *b;
}

static int run(int d, int seed, int p3, int p4)
{
  int a = seed * 3 + d, b = seed ^ 0x5a5a;
  char c = seed + 1;
  short t[3];
  int r = 0, i, k, op;
#ifndef __SMALLER_C_16__
  float f = (short)seed + 0.5f;
#endif
  t[0] = seed; t[1] = -seed; t[2] = d;
  for (;;)
  {
    if (a != seed * 3 + d || b != (seed ^ 0x5a5a) || c != (char)(seed + 1) || t[0] != (short)seed || t[1] != (short)-seed || t[2] != d || p3 != seed + 7 || p4 != ~seed)
      printf("BAD %d\n", d);
#ifndef __SMALLER_C_16__
    if (f != (short)seed + 0.5f)
      printf("BADF %d\n", d);
#endif
    op = b1();
    switch (op)
    {
    case 0:
      printf("end %d\n", d);
      return 0;
    case 'A':
      printf("argc %d %d\n", gargc, gargv[gargc] == 0);
      for (i = 1; i < gargc; i++)
        printf("<%s>\n", gargv[i]);
      break;
    case 'G':
      {
        char* n = str();
        char* v = getenv(n);
        printf("%s=%s\n", n, v ? v : "(none)");
      }
      break;
    case 'T':
      k = b1();
      hact[k] = b1();
      harg[k] = b1();
      break;
    case 'H':
      k = b1();
      printf("a%d %d\n", k, isneg(atexit(hs[k])));
      break;
    case 'P':
      printf("p%d\n", b1());
      break;
    case 'p':
      fprintf(stderr, "e%d\n", b1());
      break;
    case 'x':
      fputs(str(), stdout);
      break;
    case 'b':
      k = b1();
      setvbuf(stdout, 0, k == 0 ? _IOFBF : k == 1 ? _IOLBF : _IONBF, 200);
      break;
    case 'F':
      fflush(stdout);
      break;
    case 'O':
      k = b1();
      fs[k] = fopen(str(), "wb");
      printf("o%d %d\n", k, fs[k] != 0);
      break;
    case 'B':
      k = b1();
      i = b1();
      setvbuf(fs[k], b1() ? vb[k] : 0, i == 0 ? _IOFBF : i == 1 ? _IOLBF : _IONBF, 256);
      break;
    case 'w':
      k = b1();
      i = b2();
      r = b1();
      while (i--)
        fputc(r, fs[k]);
      break;
    case 'f':
      k = b1();
      fflush(fs[k]);
      break;
    case 'c':
      k = b1();
      printf("c%d\n", fclose(fs[k]));
      fs[k] = 0;
      break;
    case 'M':
      {
        FILE* tf = tmpfile();
        if (tf)
          fputs("temporary", tf);
        printf("tmp %d\n", tf != 0);
      }
      break;
    case 'C':
      i = b4();
      r = run(d + 1, i, i + 7, ~i);
      printf("ret %d\n", r);
      break;
    case 'R':
      return b4();
    case 'S':
      switch (b1())
      {
      case 0:
        r = 0;
        if ((r = setjmp(jb[d])) != 0)
          printf("j%d %d\n", d, r);
        break;
      case 1:
        switch (setjmp(jb[d]))
        {
        case 0: break;
        case 1: printf("one%d\n", d); break;
        case 2: printf("two%d\n", d); break;
        default: printf("more%d\n", d);
        }
        break;
      case 2:
        if (setjmp(jb[d]) == 5)
          printf("five%d\n", d);
        break;
      case 3:
        if (!setjmp(jb[d]))
          break;
        printf("jumped%d\n", d);
        break;
      case 4:
        if (setjmp(jb[d]))
        {
          printf("back%d\n", d);
          break;
        }
        printf("set%d\n", d);
      }
      break;
    case 'J':
      i = b1();
      r = b1();
      k = b4();
      deeper(r, i, k);
      break;
    case 'Q':
      qhow = b1();
      qarg = b1();
      qval = b4();
      qn = 0;
      {
        char s[12];
        strcpy(s, "qwertyuiopa");
        qsort(s, 11, 1, (int (*)(const void*, const void*))qcmp);
        printf("%s %d\n", s, qn > 0);
      }
      break;
    case 'E':
      exit(b2());
    case '_':
      _Exit(b2());
    case 'Z':
      abort();
    case 'U':
      assert(seed == seed + 1);
      break;
    default:
      printf("?%d\n", op);
      return 0;
    }
  }
}

int main(int argc, char** argv)
{
  int fd = open("SCR", O_RDONLY);
  read(fd, scr, SCRMAX - 1);
  close(fd);
  gargc = argc;
  gargv = argv;
  return run(0, 11, 18, ~11);
}
