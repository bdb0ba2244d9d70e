/* Runs programs made for Windows (PE), MacOS (Mach-O) and DPMI (dpstub + a.out) in this Linux process: loads the image as the
   format says and stands in for the part of the operating system the library uses. 32-bit, freestanding.
   usage: oshost EXE [ARG...]     environment OSHOST_BASE=hex: load a PE elsewhere (applies its base relocations) */
typedef unsigned int u32;
typedef unsigned short u16;
typedef unsigned char u8;
typedef unsigned long long u64;
#define WINAPI __attribute__((stdcall, force_align_arg_pointer))

static inline int sys(int n, u32 a, u32 b, u32 c, u32 d, u32 e, u32 f)
{
  int r;
  u32 v[3] = { a, f, n };
  asm volatile("push %%ebx\n push %%ebp\n mov 4(%%eax), %%ebp\n mov (%%eax), %%ebx\n mov 8(%%eax), %%eax\n int $0x80\n pop %%ebp\n pop %%ebx"
               : "=a"(r) : "0"(v), "c"(b), "d"(c), "S"(d), "D"(e) : "memory");
  return r;
}
#define S0(n) sys(n, 0, 0, 0, 0, 0, 0)
#define S1(n, a) sys(n, (u32)(a), 0, 0, 0, 0, 0)
#define S2(n, a, b) sys(n, (u32)(a), (u32)(b), 0, 0, 0, 0)
#define S3(n, a, b, c) sys(n, (u32)(a), (u32)(b), (u32)(c), 0, 0, 0)

void* memcpy(void* d, const void* s, u32 n) { u8* p = d; const u8* q = s; while (n--) *p++ = *q++; return d; }
void* memset(void* d, int c, u32 n) { u8* p = d; while (n--) *p++ = c; return d; }
static u32 len(const char* s) { u32 n = 0; while (s[n]) n++; return n; }
static int eq(const char* a, const char* b) { while (*a && *a == *b) a++, b++; return *a == *b; }

static void die(const char* a, const char* b)
{
  S3(4, 2, "oshost: ", 8);
  S3(4, 2, a, len(a));
  if (b) { S3(4, 2, " ", 1); S3(4, 2, b, len(b)); }
  S3(4, 2, "\n", 1);
  S1(252, 97);
}

static char hexb[12];
static char* hex(u32 v)
{
  int i;
  for (i = 0; i < 8; i++) hexb[i] = "0123456789abcdef"[v >> (28 - 4 * i) & 15];
  return hexb;
}

static u8* map(u32 at, u32 size)
{
  int r = sys(192, at, (size + 4095) & ~4095u, 7, 0x22 | (at ? 0x100000 : 0), -1, 0);    /* MAP_FIXED_NOREPLACE */
  if ((u32)r > 0xFFFFF000u || (at && (u32)r != at)) die("cannot map", hex(at));
  return (u8*)r;
}
static void prot(u32 at, u32 size, int p)
{
  if (size) S3(125, at & ~4095u, ((at + size + 4095) & ~4095u) - (at & ~4095u), p);
}

static u8* img;
static u32 imgn;
static char** g_argv;
static int g_argc;
static char** g_envp;

/* a setting of the stand-in */
static char* setting(char* n)
{
  int i;
  for (i = 0; g_envp[i]; i++)
  {
    char* e = g_envp[i], * p = n;
    while (*p && *p == *e) p++, e++;
    if (!*p) return e;
  }
  return 0;
}

static u32 rd32(u32 o) { if (o > imgn || imgn - o < 4) die("truncated executable", 0); return img[o] | img[o + 1] << 8 | img[o + 2] << 16 | (u32)img[o + 3] << 24; }
static u16 rd16(u32 o) { if (o > imgn || imgn - o < 2) die("truncated executable", 0); return img[o] | img[o + 1] << 8; }

static void load_file(const char* n)
{
  int fd = S3(5, n, 0, 0);
  u32 cap = 1 << 24;
  if (fd < 0) die("cannot open", n);
  img = map(0, cap);
  for (;;)
  {
    int r = S3(3, fd, img + imgn, cap - imgn);
    if (r <= 0) break;
    imgn += r;
  }
  S1(6, fd);
}

/* ---------------------------------------------------------------- time */

static u32 now(u32* usec)
{
  u32 tv[2];
  char* e = setting("OSHOST_TIME=");
  if (e)
  {
    for (tv[0] = 0; *e; e++) tv[0] = tv[0] * 10 + *e - '0';
    if (usec) *usec = 0;
    return tv[0];
  }
  S2(78, tv, 0);
  if (usec) *usec = tv[1];
  return tv[0];
}
static void civil(u32 t, int* y, int* m, int* d, int* wd, int* h, int* mi, int* s)
{
  u32 days = t / 86400, r = t % 86400;
  static const u8 ml[] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 };
  *h = r / 3600; *mi = r / 60 % 60; *s = r % 60;
  *wd = (days + 4) % 7;
  for (*y = 1970;; ++*y)
  {
    u32 n = 365 + (*y % 4 == 0 && *y != 2100);
    if (days < n) break;
    days -= n;
  }
  for (*m = 0;; ++*m)
  {
    u32 n = ml[*m] + (*m == 1 && *y % 4 == 0 && *y != 2100);
    if (days < n) break;
    days -= n;
  }
  *d = days + 1;
  ++*m;
}

/* ---------------------------------------------------------------- kernel32 */

#define FD(h) ((int)((h) - 0x14) / 4)
#define HND(fd) ((u32)(fd) * 4 + 0x14)
static u32 lasterr;
static int seterr(int r)
{
  r = -r;
  lasterr = r == 2 ? 2 : r == 13 || r == 1 || r == 21 ? 5 : r == 17 ? 80 : r == 9 ? 6 : r == 20 ? 3 : 87;
  return 0;
}
static int badh(u32 h)
{
  if (h >= 0x14 && h % 4 == 0 && h < 0x4000) return 0;
  lasterr = 6;
  return 1;
}
static u32 WINAPI GetStdHandle(u32 n)
{
  if (n < -12u) { lasterr = 6; return -1; }
  return HND(-10u - n);
}
static u32 WINAPI GetFileType(u32 h)
{
  u32 st[24];
  u16 mode;
  if (badh(h) || S2(197, FD(h), st) < 0) { lasterr = 6; return 0; }
  mode = ((u16*)st)[8];
  return (mode & 0xF000) == 0x2000 ? 2 : (mode & 0xF000) == 0x1000 ? 3 : 1;
}
static int WINAPI CloseHandle(u32 h) { int r; if (badh(h)) return 0; r = S1(6, FD(h)); return r < 0 ? seterr(r) : 1; }
static u32 WINAPI GetLastError(void) { return lasterr; }
static void WINAPI SetLastError(u32 e) { lasterr = e; }
static void WINAPI ExitProcess(u32 c) { S1(252, c); }

static char path[2][1024];
static char* fixpath(const char* n, int k)
{
  u32 i;
  for (i = 0; n[i] && i < 1023; i++) path[k][i] = n[i] == '\\' ? '/' : n[i];
  path[k][i] = 0;
  return path[k];
}
static u32 WINAPI CreateFileA(char* n, u32 acc, u32 share, void* sec, u32 act, u32 attr, void* tmpl)
{
  static const u32 cr[] = { 0, 0x40 | 0x80, 0x40 | 0x200, 0, 0x40, 0x200 };
  int fl = (acc >> 30) == 3 ? 2 : (acc >> 30) == 1 ? 1 : 0, r;
  if (!act || act > 5 || !n || !*n || sec || tmpl || (acc & 0x3FFFFFFF)) { lasterr = 87; return -1; }
  (void)share;
  if (act == 5 && !(acc & 0x40000000)) { lasterr = 87; return -1; }
  n = fixpath(n, 0);
  r = S3(5, n, fl | cr[act], attr & 1 ? 0444 : 0666);
  if (r < 0 && act == 2 && fl == 0)
    r = S3(5, n, 0x240, 0666);
  if (r >= 0)
  {
    u32 st[24];
    if (S2(197, r, st) >= 0 && (((u16*)st)[8] & 0xF000) == 0x4000) { S1(6, r); lasterr = 5; return -1; }
    return HND(r);
  }
  seterr(r);
  return -1;
}
static int WINAPI DeleteFileA(char* n) { int r = S1(10, fixpath(n, 0)); return r < 0 ? seterr(r) : 1; }
static int WINAPI MoveFileA(char* a, char* b)
{
  int r;
  if (S2(33, fixpath(b, 1), 0) == 0) { lasterr = 183; return 0; }
  r = S2(38, fixpath(a, 0), path[1]);
  return r < 0 ? seterr(r) : 1;
}
static u32 stklo, stkguard, stkhi;      /* the stack of a Windows program: all below the guard page is only reserved */
static void probe(void* p, u32 n)         /* the system's functions grow the stack for their arguments */
{
  u32 a = (u32)p, e = a + n;
  if (!n || e <= stklo || a >= stkhi) return;
  for (e = (e - 1) & ~4095u; e >= (a & ~4095u) && e >= stklo; e -= 4096) (void)*(volatile u8*)(e > a ? e : a);
}
static int WINAPI ReadFile(u32 h, void* buf, u32 n, u32* got, void* ov)
{
  int r;
  probe(buf, n);
  if (got) *got = 0;
  if (badh(h)) return 0;
  (void)ov;
  r = S3(3, FD(h), buf, n);
  if (r < 0) return seterr(r);
  *got = r;
  return 1;
}
static int WINAPI WriteFile(u32 h, void* buf, u32 n, u32* put, void* ov)
{
  u32 k = 0;
  probe(buf, n);
  if (put) *put = 0;
  if (badh(h)) return 0;
  (void)ov;
  while (k < n)
  {
    int r = S3(4, FD(h), (u8*)buf + k, n - k);
    if (r <= 0) return seterr(r ? r : -5);
    k += r;
  }
  *put = k;
  return 1;
}
static u32 WINAPI SetFilePointer(u32 h, int off, int* hi, u32 wh)
{
  int r;
  u64 res;
  if (badh(h)) return -1;
  if (hi) die("SetFilePointer: high", 0);
  if (wh > 2) { lasterr = 87; return -1; }
  r = sys(140, FD(h), (u32)(off >> 31), off, (u32)&res, wh, 0);
  if (r < 0) { seterr(r); lasterr = 131; return -1; }
  lasterr = 0;
  return (u32)res;
}
static u32 WINAPI GetFileAttributesA(char* n)
{
  u32 st[24];
  int r = S2(195, fixpath(n, 0), st);
  u16 mode;
  if (r < 0) { seterr(r); return -1; }
  mode = ((u16*)st)[8];
  return (mode & 0xF000) == 0x4000 ? 0x10 : 0x20;
}
static u32 WINAPI GetEnvironmentVariableA(char* n, char* buf, u32 sz)
{
  u32 i, j;
  for (i = 0; g_envp[i]; i++)
  {
    char* e = g_envp[i];
    for (j = 0; n[j] && e[j] != '=' && (n[j] | 32) == (e[j] | 32); j++);
    if (!n[j] && e[j] == '=')
    {
      u32 l = len(e + j + 1);
      if (l + 1 > sz) return l + 1;
      memcpy(buf, e + j + 1, l + 1);
      return l;
    }
  }
  lasterr = 203;
  return 0;
}
static u32 WINAPI GetTickCount(void) { u32 us, s = now(&us); return s * 1000 + us / 1000; }
static void WINAPI GetSystemTime(u16* st)
{
  u32 us, t = now(&us);
  int y, m, d, wd, h, mi, s;
  civil(t, &y, &m, &d, &wd, &h, &mi, &s);
  st[0] = y; st[1] = m; st[2] = wd; st[3] = d; st[4] = h; st[5] = mi; st[6] = s; st[7] = us / 1000;
}
static int WINAPI TzCopy(void* tz, u16* a, u16* b) { (void)tz; memcpy(b, a, 16); return 1; }
static char* WINAPI GetCommandLineA(void)
{
  static char* line;
  if (!line && (line = setting("OSHOST_CMD=")))
  {
    char* p = (char*)map(0, len(line) + len(g_argv[1]) + 4);
    u32 n = len(g_argv[1]);
    p[0] = '"';
    memcpy(p + 1, g_argv[1], n);
    p[n + 1] = '"';
    p[n + 2] = ' ';
    memcpy(p + n + 3, line, len(line) + 1);
    line = p;
  }
  if (!line)
  {
    int i;
    u32 n = 0, j;
    for (i = 1; i < g_argc; i++) n += 2 * len(g_argv[i]) + 4;
    line = (char*)map(0, n + 1);
    n = 0;
    for (i = 1; i < g_argc; i++)
    {
      char* a = g_argv[i];
      int q = !*a, bs = 0;
      for (j = 0; a[j]; j++) if (a[j] == ' ' || a[j] == '\t' || a[j] == '"') q = 1;
      if (i > 1) line[n++] = ' ';
      if (q) line[n++] = '"';
      for (j = 0; a[j]; j++)
      {
        if (a[j] == '"') { while (bs-- >= 0) line[n++] = '\\'; bs = 0; }
        else if (a[j] == '\\') bs++;
        else bs = 0;
        line[n++] = a[j];
      }
      if (q) { while (bs-- > 0) line[n++] = '\\'; line[n++] = '"'; }
    }
    line[n] = 0;
  }
  return line;
}
/* heap: blocks with a size and a guard; freed blocks are reused first fit */
typedef struct blk { u32 size, used; struct blk* next; u32 magic; } blk;
static blk* heap;
static u8* hp, * he;
static u32 WINAPI GetProcessHeap(void) { return 0x140000; }
static void* WINAPI HeapAlloc(u32 h, u32 fl, u32 n)
{
  blk* b;
  u32 sz = (n + 8 + 7) & ~7u;
  if (h != 0x140000 || fl & ~8u) die("HeapAlloc", 0);
  if (n > 0x30000000) return 0;
  for (b = heap; b; b = b->next)
    if (!b->used && b->size >= sz && b->size < sz + 4096) break;
  if (!b)
  {
    if ((u32)(he - hp) < sz + sizeof(blk))
    {
      u32 q = sz + sizeof(blk) > 1 << 20 ? sz + sizeof(blk) : 1 << 20;
      int r = sys(192, 0, (q + 4095) & ~4095u, 3, 0x22, -1, 0);
      if ((u32)r > 0xFFFFF000u) return 0;
      hp = (u8*)r;
      he = hp + q;
    }
    b = (blk*)hp;
    hp += sz + sizeof(blk);
    b->size = sz;
    b->next = heap;
    heap = b;
  }
  b->used = n + 1;
  b->magic = 0x48454150;
  memset(b + 1, fl & 8 ? 0 : 0xBA, b->size);
  return b + 1;
}
static blk* heapblk(void* p)
{
  blk* b = (blk*)p - 1;
  u32 i;
  if (((u32)p & 7) || b->magic != 0x48454150 || !b->used) die("heap: bad block", 0);
  for (i = b->used - 1; i < b->size; i++)
    if (((u8*)p)[i] != 0xBA) die("heap: written beyond the block", 0);
  return b;
}
static int WINAPI HeapFree(u32 h, u32 fl, void* p)
{
  if (h != 0x140000 || fl) die("HeapFree", 0);
  if (!p) return 1;
  blk* b = heapblk(p);
  b->used = 0;
  memset(p, 0xDD, b->size);
  return 1;
}
static void* WINAPI HeapReAlloc(u32 h, u32 fl, void* p, u32 n)
{
  void* q;
  blk* b = heapblk(p);
  u32 old = b->used - 1;
  if (h != 0x140000 || fl) die("HeapReAlloc", 0);
  if (!(q = HeapAlloc(h, 0, n))) return 0;
  memcpy(q, p, old < n ? old : n);
  HeapFree(h, 0, p);
  return q;
}
static int WINAPI Zero10(u32 a, u32 b, u32 c, u32 d, u32 e, u32 f, u32 g, u32 h, u32 i, u32 j) { lasterr = 2; return 0; }
static int WINAPI Zero1(u32 a) { return 0; }
static int WINAPI Zero2(u32 a, u32 b) { return 0; }
static int WINAPI Zero3(u32 a, u32 b, u32 c) { lasterr = 126; return 0; }
static int c_abs(int a) { return a < 0 ? -a : a; }

static const struct { const char* n; void* f; } api[] = {
  { "ExitProcess", ExitProcess }, { "GetCommandLineA", GetCommandLineA }, { "GetStdHandle", GetStdHandle }, { "GetFileType", GetFileType },
  { "CloseHandle", CloseHandle }, { "GetLastError", GetLastError }, { "SetLastError", SetLastError }, { "GetProcessHeap", GetProcessHeap },
  { "HeapAlloc", HeapAlloc }, { "HeapFree", HeapFree }, { "HeapReAlloc", HeapReAlloc }, { "CreateFileA", CreateFileA }, { "DeleteFileA", DeleteFileA },
  { "MoveFileA", MoveFileA }, { "ReadFile", ReadFile }, { "WriteFile", WriteFile }, { "SetFilePointer", SetFilePointer },
  { "GetFileAttributesA", GetFileAttributesA }, { "GetEnvironmentVariableA", GetEnvironmentVariableA }, { "GetTickCount", GetTickCount },
  { "GetSystemTime", GetSystemTime }, { "SystemTimeToTzSpecificLocalTime", TzCopy }, { "TzSpecificLocalTimeToSystemTime", TzCopy },
  { "CreateProcessA", Zero10 }, { "WaitForSingleObject", Zero2 }, { "GetExitCodeProcess", Zero2 }, { "FreeLibrary", Zero1 },
  { "LoadLibraryExA", Zero3 }, { "GetProcAddress", Zero2 }, { "SetUnhandledExceptionFilter", Zero1 }, { "abs", c_abs }, { 0, 0 }
};

/* ---------------------------------------------------------------- signals */

typedef struct { u32 gs, fs, es, ds, edi, esi, ebp, esp, ebx, edx, ecx, eax, trapno, err, eip, cs, eflags, uesp, ss; } regs;
static void restorer(void);
asm("restorer:\n mov $173, %eax\n int $0x80\n");
static void sigact(int sig, void* h)
{
  u32 sa[5] = { (u32)h, 0x4 | 0x04000000 | 0x08000000, (u32)restorer, 0, 0 };      /* SA_SIGINFO | SA_RESTORER | SA_ONSTACK */
  sys(174, sig, (u32)sa, 0, 8, 0, 0);
}
static void altstack(void)
{
  u32 ss[3] = { (u32)map(0, 65536), 0, 65536 };
  S2(186, ss, 0);
}
extern char __executable_start[], _end[];
static void filter(void)
{
  struct { u16 code; u8 jt, jf; u32 k; } f[] = {
    { 0x20, 0, 0, 4 }, { 0x15, 0, 5, 0x40000003 },                      /* another architecture: allow */
    { 0x20, 0, 0, 12 }, { 0x15, 0, 4, 0 },
    { 0x20, 0, 0, 8 }, { 0x35, 0, 2, (u32)__executable_start }, { 0x35, 1, 0, (u32)_end },
    { 6, 0, 0, 0x7FFF0000 }, { 6, 0, 0, 0x00030000 } };
  struct { u16 n; void* f; } prog = { 9, f };
  sys(172, 38, 1, 0, 0, 0, 0);
  int r = sys(172, 22, 2, (u32)&prog, 0, 0, 0);
  if (r < 0) die("seccomp", hex(-r));
}

static void mac_call(regs* r)
{
  u32* a = (u32*)r->uesp + 1;
  int v, fl;
  u64 res;
  u32 hi = 0;
  switch (r->eax)
  {
  case 1: S1(252, a[0]);
  case 3: v = S3(3, a[0], a[1], a[2]); break;
  case 4: v = S3(4, a[0], a[1], a[2]); break;
  case 5:
    fl = (a[1] & 3) | (a[1] & 0x200 ? 0x40 : 0) | (a[1] & 0x400 ? 0x200 : 0) | (a[1] & 0x800 ? 0x80 : 0) | (a[1] & 8 ? 0x400 : 0);
    if (a[1] & ~0xE0Bu) die("open: flags", hex(a[1]));
    v = S3(5, a[0], fl, a[2]);
    break;
  case 6: v = S1(6, a[0]); break;
  case 10: v = S1(10, a[0]); break;
  case 33: v = S2(33, a[0], a[1]); break;
  case 54:
    {
      u32 t[32];
      if (a[1] != 0x402C7413) die("ioctl", hex(a[1]));
      v = S3(54, a[0], 0x5401, t);
      break;
    }
  case 116: { u32 us; v = now(&us); r->eax = v; r->edx = us; r->eflags &= ~1u; return; }
  case 117:
    {
      u32 t[32], * p = (u32*)a[1];
      v = S2(77, a[0], t);
      memcpy(p, t, 72);
      break;
    }
  case 128: v = S2(38, a[0], a[1]); break;
  case 199:
    v = sys(140, a[0], a[2], a[1], (u32)&res, a[3], 0);
    if (v >= 0) { v = (u32)res; hi = res >> 32; r->eax = v; r->edx = hi; r->eflags &= ~1u; return; }
    break;
  default: die("unknown system call", hex(r->eax)); v = 0;
  }
  if ((u32)v > 0xFFFFF000u) { r->eax = -v; r->eflags |= 1; }
  else { r->eax = v; r->edx = hi; r->eflags &= ~1u; }
}
static int kind;       /* 'p', 'm', 'd' */
static void on_sys(int sig, void* info, u8* uc)
{
  regs* r = (regs*)(uc + 20);
  if (kind != 'm') die("system call from the program at", hex(r->eip));
  mac_call(r);
}

/* ---------------------------------------------------------------- DOS */

#define LOWMEM 0x20000u
#define PSP (LOWMEM)
#define ENVS (LOWMEM + 0x1000)
#define ARGV0 (LOWMEM + 0x9000)
#define STUBI (LOWMEM + 0x9800)
#define FBUF (LOWMEM + 0xA5E0)
#define FBUFSZ 49152
#define LOWEND (LOWMEM + 0x18000)
static int dosfd[60];
typedef struct { u32 edi, esi, ebp, res, ebx, edx, ecx, eax; u16 flags, es, ds, fs, gs, ip, cs, sp, ss; } rmregs;
static u8* lowptr(u32 seg, u32 off, u32 n)
{
  u32 a = seg * 16 + (off & 0xFFFF);
  if (a < LOWMEM || a + n > LOWEND) die("DOS call with a pointer outside the memory below 1MB", hex(a));
  return (u8*)a;
}
static int dosh(u32 h) { h &= 0xFFFF; return h < 60 && dosfd[h] >= 0 ? dosfd[h] : -1; }
static int doserr(int r) { r = -r; return r == 2 ? 2 : r == 20 ? 3 : r == 9 ? 6 : r == 17 ? 80 : 5; }
/* one int 0x21; real: pointers are real-mode. returns carry */
static int int21(u32* eax, u32* ebx, u32* ecx, u32* edx, u32 esi, u32 edi, u32 ds, u32 es, int real)
{
  u32 ah = *eax >> 8 & 255, al = *eax & 255, i;
  int r, fd;
  u64 res;
#define AX(v) (*eax = (*eax & 0xFFFF0000) | ((v) & 0xFFFF))
#define DX(v) (*edx = (*edx & 0xFFFF0000) | ((v) & 0xFFFF))
#define CX(v) (*ecx = (*ecx & 0xFFFF0000) | ((v) & 0xFFFF))
#define FAIL(e) do { AX(e); return 1; } while (0)
#define PTR if (!real) die("DOS call with a pointer from protected mode", hex(*eax))
  switch (ah)
  {
  case 0x2A: case 0x2C:
    {
      int y, m, d, wd, h, mi, s;
      u32 us, t = now(&us);
      civil(t, &y, &m, &d, &wd, &h, &mi, &s);
      if (ah == 0x2A) { CX(y); DX(m << 8 | d); AX(wd); }
      else { CX(h << 8 | mi); DX(s << 8 | us / 10000); }
      return 0;
    }
  case 0x3C: case 0x3D: case 0x5B: case 0x6C:
    {
      char* n;
      int fl, mode = 0666;
      PTR;
      if (ah != 0x3D && ah != 0x6C) { n = (char*)lowptr(ds, *edx, 1); fl = 2 | 0x40 | (ah == 0x3C ? 0x200 : 0x80); if (*ecx & 1) mode = 0444; }
      else if (ah == 0x3D) { n = (char*)lowptr(ds, *edx, 1); fl = al & 7; if (fl > 2) FAIL(12); }
      else
      {
        n = (char*)lowptr(ds, esi, 1);
        fl = *ebx & 7;
        if (fl > 2) FAIL(12);
        if (*edx & 0x10) fl |= 0x40;
        if (!(*edx & 15)) { if (!(*edx & 0x10)) FAIL(1); fl |= 0x80; }
        if ((*edx & 15) == 2) fl |= 0x200;
        if (*ecx & 1) mode = 0444;
      }
      n = fixpath(n, 0);
      r = S3(5, n, fl, mode);
      if (r < 0) FAIL(doserr(r));
      for (i = 5; i < 60 && dosfd[i] >= 0; i++);
      if (i == 60) FAIL(4);
      dosfd[i] = r;
      AX(i);
      return 0;
    }
  case 0x3E:
    if ((fd = dosh(*ebx)) < 0) FAIL(6);
    S1(6, fd);
    dosfd[*ebx & 0xFFFF] = -1;
    return 0;
  case 0x3F: case 0x40:
    {
      u32 n = *ecx & 0xFFFF;
      u8* p;
      PTR;
      if ((fd = dosh(*ebx)) < 0) FAIL(6);
      p = lowptr(ds, *edx, n);
      if ((*edx & 0xFFFF) + n > 0x10000) die("DOS transfer crosses its segment", hex(*edx));
      if (ah == 0x40 && !n)
      {
        sys(140, fd, 0, 0, (u32)&res, 1, 0);
        S2(93, fd, (u32)res);
        AX(0);
        return 0;
      }
      r = S3(ah == 0x3F ? 3 : 4, fd, p, n);
      if (r < 0) FAIL(doserr(r));
      AX(r);
      return 0;
    }
  case 0x41: PTR; r = S1(10, fixpath((char*)lowptr(ds, *edx, 1), 0)); if (r < 0) FAIL(doserr(r)); return 0;
  case 0x42:
    {
      u32 off = (*ecx & 0xFFFF) << 16 | (*edx & 0xFFFF);
      if ((fd = dosh(*ebx)) < 0) FAIL(6);
      if (al > 2) FAIL(1);
      r = sys(140, fd, al ? (u32)((int)off >> 31) : 0, off, (u32)&res, al, 0);
      if (r < 0) FAIL(1);
      AX((u32)res);
      DX((u32)res >> 16);
      return 0;
    }
  case 0x43: { u32 st[24]; PTR; if (al) FAIL(1); r = S2(195, fixpath((char*)lowptr(ds, *edx, 1), 0), st); if (r < 0) FAIL(doserr(r)); CX((((u16*)st)[8] & 0xF000) == 0x4000 ? 0x10 : 0x20); return 0; }
  case 0x44:
    {
      u32 st[24];
      if (al) FAIL(1);
      if ((fd = dosh(*ebx)) < 0 || S2(197, fd, st) < 0) FAIL(6);
      r = (((u16*)st)[8] & 0xF000) == 0x2000 ? 0x80D3 : 0x0002;
      DX(r);
      AX(r);
      return 0;
    }
  case 0x51: *ebx = PSP >> 4; return 0;
  case 0x56:
    PTR;
    fixpath((char*)lowptr(es, edi, 1), 1);
    if (S2(33, path[1], 0) == 0) FAIL(5);
    r = S2(38, fixpath((char*)lowptr(ds, *edx, 1), 0), path[1]);
    if (r < 0) FAIL(doserr(r));
    return 0;
  case 0x4B: FAIL(2);
  default: die("unknown DOS function", hex(*eax));
  }
  return 1;
}
static void on_segv(int sig, void* info, u8* uc)
{
  regs* r = (regs*)(uc + 20);
  u8* p = (u8*)r->eip;
  u32 at = ((u32*)(r + 1))[2];
  if (kind == 'p' && r->trapno == 14 && at >= stklo && at < stkguard + 4096)
  {
    int own = r->eip >= (u32)__executable_start && r->eip < (u32)_end;
    if (at < stkguard && !own) die("stack accessed below its guard page at", hex(r->eip));
    at &= ~4095u;
    if (at < stklo + 8192) die("stack overflow at", hex(r->eip));
    prot(at, stkguard + 4096 - at, 3);
    stkguard = at - 4096;
    return;
  }
  if (kind == 'd' && r->trapno == 13 && p[0] == 0xCD)
  {
    r->eip += 2;
    if (p[1] == 0x21)
    {
      int c = int21(&r->eax, &r->ebx, &r->ecx, &r->edx, r->esi, r->edi, 0, 0, 0);
      r->eflags = (r->eflags & ~1u) | c;
      return;
    }
    if (p[1] == 0x31)
    {
      if ((r->eax & 0xFFFF) == 0x300)
      {
        rmregs* m = (rmregs*)r->edi;
        u32 f[4];
        if ((r->ebx & 0xFF) != 0x21 || (r->ecx & 0xFFFF)) die("simulated interrupt", hex(r->ebx));
        f[0] = m->eax; f[1] = m->ebx; f[2] = m->ecx; f[3] = m->edx;
        m->flags = (m->flags & ~1) | int21(&f[0], &f[1], &f[2], &f[3], m->esi, m->edi, m->ds, m->es, 1);
        m->eax = f[0]; m->ebx = f[1]; m->ecx = f[2]; m->edx = f[3];
        r->eflags &= ~1u;
        return;
      }
      if ((r->eax & 0xFFFF) == 0xB || (r->eax & 0xFFFF) == 1) { r->eflags |= 1; return; }
      die("unknown DPMI function", hex(r->eax));
    }
    die("unknown interrupt", hex(p[1]));
  }
  if (kind == 'd' && p[0] == 0xA1 && *(u32*)(p + 1) == 0x46C)
  {
    u32 us, s = now(&us);
    r->eax = s % 86400 * 18 + us / 55000;
    r->eip += 5;
    return;
  }
  /* the farewell: a far return to the stub's exit routine */
  if (kind == 'd' && p[0] == 0x66 && p[1] == 0xCB && *(u32*)r->uesp == 0x5678E417)
    S1(252, r->eax & 255);
  S1(48, 0);
  {
    u32 sa[5] = { 0, 0, 0, 0, 0 };
    sys(174, sig, (u32)sa, 0, 8, 0, 0);
  }
}

static void garbage(u8* p, u32 n) { u32 i, x = 12345; for (i = 0; i < n; i++) { x = x * 1103515245 + 12345; p[i] = x >> 16 | 1; } }

static void go(u32 eip, u32 esp)
{
  asm volatile("mov %%eax, %%esp\n"
               "mov $0x11111111, %%eax\n mov $0x22222222, %%ebx\n mov $0x33333333, %%ecx\n mov $0x44444444, %%esi\n mov $0x55555555, %%edi\n mov $0x66666666, %%ebp\n"
               "fninit\n cld\n jmp *%%edx" :: "d"(eip), "a"(esp) : "memory");
}

/* ---------------------------------------------------------------- loaders */

static char* rdstr(u32 base, u32 rva) { return (char*)(base + rva); }

static void run_pe(void)
{
  u32 pe = rd32(60), o = pe + 24, base = rd32(o + 28), size = rd32(o + 56), hdr = rd32(o + 60), nsec = rd16(pe + 6), i, sh = o + rd16(pe + 20);
  u32 at = base, entry = rd32(o + 16), rel = rd32(o + 96 + 40), reln = rd32(o + 96 + 44), imp = rd32(o + 96 + 8);
  u8* m;
  char* sb = setting("OSHOST_BASE=");
  if (sb) for (at = 0; *sb; sb++) at = at * 16 + (*sb <= '9' ? *sb - '0' : (*sb | 32) - 'a' + 10);
  if (rd32(pe) != 0x4550 || rd16(o) != 0x10B || rd16(pe + 4) != 0x14C) die("not a PE32 executable", 0);
  if (rd16(o + 68) != 3 && rd16(o + 68) != 2) die("subsystem", hex(rd16(o + 68)));
  m = map(at, size);
  memcpy(m, img, hdr < imgn ? hdr : imgn);
  for (i = 0; i < nsec; i++)
  {
    u32 s = sh + 40 * i, vs = rd32(s + 8), va = rd32(s + 12), rs = rd32(s + 16), rp = rd32(s + 20);
    if (va > size || vs > size - va) die("section outside the image", 0);
    if (rs) { if (rp > imgn || rs > imgn - rp) die("section outside the file", 0); memcpy(m + va, img + rp, rs < vs || !vs ? rs : vs); }
  }
  if (at != base)
  {
    u32 p = 0;
    if (!rel || rd16(pe + 22) & 1) die("not relocatable", 0);
    while (p < reln)
    {
      u32* b = (u32*)(m + rel + p);
      u32 k;
      if (b[1] < 8) die("relocation block", 0);
      for (k = 0; k < (b[1] - 8) / 2; k++)
      {
        u32 e = ((u16*)(b + 2))[k];
        if (e >> 12 == 3) *(u32*)(m + b[0] + (e & 4095)) += at - base;
        else if (e >> 12) die("relocation type", hex(e));
      }
      p += b[1];
    }
  }
  if (imp)
  {
    u32* d;
    for (d = (u32*)(m + imp); d[3]; d += 5)
    {
      u32* lk = (u32*)(m + (d[0] ? d[0] : d[4])), * th = (u32*)(m + d[4]);
      for (; *lk; lk++, th++)
      {
        char* n = rdstr((u32)m, *lk + 2);
        for (i = 0; api[i].n && !eq(api[i].n, n); i++);
        if (!api[i].n) die("unknown function", n);
        *th = (u32)api[i].f;
      }
    }
  }
  for (i = 0; i < nsec; i++)
  {
    u32 s = sh + 40 * i, f = rd32(s + 36);
    prot(at + rd32(s + 12), rd32(s + 8), (f >> 30 & 1 ? 1 : 0) | (f >> 31 & 1 ? 2 : 0) | (f >> 29 & 1 ? 4 : 0));
  }
  prot(at, hdr, 1);
  u32 ssz = rd32(o + 72);
  if (ssz < 65536 || ssz > 1 << 26) ssz = 1 << 20;
  u32 com = (rd32(o + 76) + 4095) & ~4095u;
  if (com < 4096) com = 4096;
  ssz = (ssz + 4095) & ~4095u;
  if (com > ssz - 32768) com = ssz - 32768;
  u8* st = map(0, ssz + 8192);
  garbage(st + 4096, ssz);
  stklo = (u32)st;
  stkhi = stklo + ssz + 4096;
  stkguard = stkhi - com - 4096;
  prot(stklo, stkguard + 4096 - stklo, 0);
  prot(stkhi - com, com, 3);
  prot(stkhi, 4096, 0);
  kind = 'p';
  u32* sp = (u32*)(stkhi - 64);
  *--sp = 0xDEADBEE0;
  go(at + entry, (u32)sp);
}

static void run_mach(void)
{
  u32 n = rd32(16), o = 28, i, eip = 0, k = 0;
  for (i = 0; i < n; i++)
  {
    u32 cmd = rd32(o), sz = rd32(o + 4);
    if (cmd == 1)
    {
      u32 va = rd32(o + 24), vs = rd32(o + 28), fo = rd32(o + 32), fs = rd32(o + 36), p = rd32(o + 44);
      if (!p && !fs) { o += sz; continue; }
      if (vs)
      {
        map(va, vs);
        if (fs) { if (fo > imgn || fs > imgn - fo || fs > vs) die("segment outside the file", 0); memcpy((void*)va, img + fo, fs); }
        prot(va, vs, p & 7);
      }
    }
    else if (cmd == 5)
    {
      if (rd32(o + 8) != 1 || rd32(o + 12) != 16) die("thread state", 0);
      eip = rd32(o + 16 + 40);
    }
    o += sz;
  }
  u32 ssz = 8 << 20;
  u8* st = map(0, ssz);
  garbage(st + ssz - 1048576, 1048576);
  u32* sp = (u32*)(st + ssz - 4096);
  u32 ne = 0;
  while (g_envp[ne]) ne++;
  sp -= g_argc + ne + 4;
  sp = (u32*)((u32)sp & ~15u);
  sp[k++] = g_argc - 1;
  for (i = 1; i < (u32)g_argc; i++) sp[k++] = (u32)g_argv[i];
  sp[k++] = 0;
  for (i = 0; i < ne; i++) sp[k++] = (u32)g_envp[i];
  sp[k++] = 0;
  sp[k++] = (u32)g_argv[1];
  sp[k++] = 0;
  kind = 'm';
  filter();
  go(eip, (u32)sp);
}

static void run_dpmi(void)
{
  u32 pages = rd16(4), part = rd16(2), o = pages * 512 - (part ? 512 - part : 0), i, k;
  u32 si = o, ao;
  static const u32 heapcap = 1 << 26;
  if (rd32(o) != 0x21245044) die("no stub info", 0);
  ao = o + 64;
  if (rd32(ao) != 0x00640107) die("no a.out header", 0);
  u32 stack = rd32(si + 4), minh = rd32(si + 8), maxh = rd32(si + 12);
  u32 text = rd32(ao + 4), data = rd32(ao + 8), bss = rd32(ao + 12), entry = rd32(ao + 20), tr = rd32(ao + 24), dr = rd32(ao + 28);
  u32 h = maxh > heapcap ? heapcap : maxh;
  if (h < minh) h = minh;
  if (stack < 65536) die("stack", hex(stack));
  u32 total = text + data + bss + stack + h;
  u8* m = map(0x0A000000, total + 4096);
  u32 base = (u32)m, fo = ao + 32;
  if (fo + text + data + tr + dr > imgn) die("a.out outside the file", 0);
  garbage(m, total);
  memcpy(m, img + fo, text + data);
  memset(m + text + data, 0, bss + stack);
  fo += text + data;
  for (k = 0; k < 2; k++)
  {
    u32 rn = k ? dr : tr, sb = k ? base + text : base;
    for (i = 0; i < rn; i += 8)
    {
      u32 ad = rd32(fo + i), inf = rd32(fo + i + 4);
      u32 d = (inf & 0x1FFFFFF) == 0x1000002 ? -base : base;      /* as dpstub.asm does */
      if (inf & 0x4000000) *(u32*)(sb + ad) += d;
      else *(u16*)(sb + ad) += d;
    }
    fo += rn;
  }
  u8* low = map(LOWMEM, LOWEND - LOWMEM);
  garbage(low, LOWEND - LOWMEM);
  /* PSP: command tail */
  u8* t = (u8*)PSP + 0x81;
  u32 n = 0;
  if (setting("OSHOST_CMD="))
  {
    t[n++] = ' ';
    for (i = 0; n < 126 && setting("OSHOST_CMD=")[i]; i++) t[n++] = setting("OSHOST_CMD=")[i];
  }
  for (i = 2; i < (u32)g_argc; i++)
  {
    char* a = g_argv[i];
    u32 j, q = !*a;
    for (j = 0; a[j]; j++) if (a[j] == ' ' || a[j] == '\t') q = 1;
    if (n + len(a) + 3 > 126) break;
    t[n++] = ' ';
    if (q) t[n++] = '"';
    for (j = 0; a[j]; j++) t[n++] = a[j];
    if (q) t[n++] = '"';
  }
  t[n] = 13;
  t[-1] = n;
  char* e = (char*)ENVS;
  n = 0;
  for (i = 0; g_envp[i] && n + len(g_envp[i]) < 0x7F00; i++)
  {
    memcpy(e + n, g_envp[i], len(g_envp[i]) + 1);
    n += len(g_envp[i]) + 1;
  }
  e[n++] = 0;
  e[n++] = 1; e[n++] = 0;
  n = len(g_argv[1]);
  memcpy((char*)ARGV0, g_argv[1], n < 200 ? n + 1 : 200);
  memcpy((char*)STUBI, img + si, ao - si);
  for (i = 0; i < 60; i++) dosfd[i] = i < 3 ? (int)i : -1;
  dosfd[3] = 2; dosfd[4] = 1;
  u32 top = base + text + data + bss + stack;
  u32* sp = (u32*)(top & ~3u);
  *--sp = base + total;
  *--sp = top;
  *--sp = FBUF;
  *--sp = STUBI;
  *--sp = ARGV0;
  *--sp = ENVS;
  *--sp = PSP;
  *--sp = 0x5678E417;
  *--sp = 0x5678E417;
  kind = 'd';
  go(base + entry, (u32)sp);
}

void cstart(u32* sp)
{
  g_argc = sp[0];
  g_argv = (char**)sp + 1;
  g_envp = g_argv + g_argc + 1;
  if (g_argc < 2) die("no program", 0);
  load_file(g_argv[1]);
  altstack();
  sigact(11, on_segv);
  sigact(31, on_sys);
  if (imgn >= 64 && rd16(0) == 0x5A4D)
  {
    u32 pe = rd32(60);
    if (rd16(24) >= 0x40 && pe < imgn - 4 && rd32(pe) == 0x4550) run_pe();
    run_dpmi();
  }
  if (imgn >= 28 && rd32(0) == 0xFEEDFACE) run_mach();
  die("unknown format", 0);
}
asm(".globl _start\n_start:\n mov %esp, %eax\n and $-16, %esp\n sub $12, %esp\n push %eax\n call cstart\n");
