/* The same runtime for gcc -m32, used for the reference programs. */
static char buf[1 << 16];
static unsigned pos;
static void flush_(void)
{
  int r;
  __asm__ volatile("int $0x80" : "=a"(r) : "0"(4), "b"(1), "c"(buf), "d"(pos) : "memory");
  pos = 0;
}
void out(unsigned v)
{
  int i;
  for (i = 28; i >= 0; i -= 4)
    buf[pos++] = "0123456789abcdef"[(v >> i) & 15];
  buf[pos++] = 10;
  if (pos > 60000)
    flush_();
}
void* memcpy(void* d, const void* s, unsigned n) { char* a = d; const char* b = s; while (n--) *a++ = *b++; return d; }
void* memset(void* d, int c, unsigned n) { char* a = d; while (n--) *a++ = c; return d; }
int main();
void _start_c(void)
{
  int rc = main();
  flush_();
  __asm__ volatile("int $0x80" : : "a"(1), "b"(rc & 255));
  for (;;) ;
}
__asm__(".globl _start\n_start:\nxor %ebp,%ebp\nand $-16,%esp\ncall _start_c\n");
