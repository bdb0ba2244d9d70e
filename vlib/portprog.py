"""Generator of portable programs that use the library: a sequence of statements over a few buffers and variables, each of them
valid in whatever state the others leave (so any of them can be dropped). Numbers fit in 16 bits unless wide."""

HEAD = """#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <ctype.h>
#include <stdarg.h>
#include <setjmp.h>
#include <limits.h>
#ifdef WIDE
#include <time.h>
#include <math.h>
#endif
#define NB 6
#define NV 8
#define NA 24
struct node { char* name; int v; struct node* next; int (*f)(int); char tag[3]; };
struct pair { int a; char c; int b; };
extern char B[NB][64];
extern int V[NV];
extern int A[NA];
extern struct node nodes[5];
extern char* words[7];
extern int* pv[4];
extern char* mid[3];
extern int (*ftab[4])(int);
extern struct pair pairs[4];
extern int calls;
int cl(int);
unsigned hash(char*, unsigned);
int cmpi(const void*, const void*);
int cmpd(const void*, const void*);
int cmpc(const void*, const void*);
int sum(int n, ...);
int gcd(int, int);
void hanoi(int, int, int, int);
int perm(int k);
void bye0(void);
void bye1(void);
void bye2(void);
struct pair mkpair(int, int);
int sumpair(struct pair, int);
void deep(int);
void vout(char* f, ...);
int big(int n);
extern jmp_buf jb;
"""

B_C = """
char B[NB][64] = { "alpha", "beta gamma", "", "delta,epsilon;zeta", "The quick brown fox", "0123456789" };
int V[NV] = { 1, -2, 30, 444, -5555, 6, 0, 9999 };
int A[NA] = { 5, 3, 9, -1, 0, 22, 7, 7, -300, 41, 17, 2, 1000, -999 };
static int f0(int x) { return cl(x + 1); }
static int f1(int x) { return cl(x * 2); }
static int f2(int x) { return -x; }
static int f3(int x) { calls++; return x ? f0(x - 1) : 7; }
struct node nodes[5] = {
  { "one", 1, &nodes[3], f1, "ab" }, { "two", 22, nodes, &f0, { 'x', 'y', 0 } }, { "three" + 2, -3, nodes + 4, f3, "" },
  { B[1], 4, &nodes[2], f2, "q" }, { &B[0][2], 5, 0, f0, "zz" } };
char* words[7] = { "zebra", "apple", "Mango", "kiwi", "apple pie", "", "banana" };
int* pv[4] = { V, &V[3], V + 7, &A[2] };
char* mid[3] = { B[2], &B[4][4], B[5] + 3 };
int (*ftab[4])(int) = { f0, f1, f2, f3 };
struct pair pairs[4] = { { 1, 'a', 2 }, { -1, 'b' }, { 3, '\\377' & 127, -4 } };
int calls;
jmp_buf jb;
int cl(int x) { return x % 10000; }
unsigned hash(char* s, unsigned n) { unsigned h = 5381; unsigned i; for (i = 0; i < n; i++) h = h * 33 + (s[i] & 255); return h & 0x7FFF; }
int cmpi(const void* a, const void* b) { int x = *(int*)a, y = *(int*)b; return (x > y) - (x < y); }
int cmpd(const void* a, const void* b) { return -cmpi(a, b); }
int cmpc(const void* a, const void* b) { return *(unsigned char*)a - *(unsigned char*)b; }
int sum(int n, ...) { va_list l; int s = 0; va_start(l, n); while (n--) s = cl(s + va_arg(l, int)); va_end(l); return s; }
int gcd(int a, int b) { return b ? gcd(b, a % b) : a; }
void hanoi(int n, int a, int b, int c) { if (n) { hanoi(n - 1, a, c, b); printf("%d%d ", a, c); hanoi(n - 1, b, a, c); } }
static int P[4] = { 1, 2, 3, 4 };
int perm(int k) { int i, n = 0, t; if (k == 3) return P[0] == P[3] - 1; for (i = k; i < 4; i++) { t = P[k]; P[k] = P[i]; P[i] = t; n += perm(k + 1); t = P[k]; P[k] = P[i]; P[i] = t; } return n; }
void bye0(void) { printf("bye0 %d\\n", V[0]); }
void bye1(void) { printf("bye1 %s\\n", B[1]); }
void bye2(void) { fputs("bye2\\n", stdout); V[0] = cl(V[0] + 1); }
struct pair mkpair(int a, int b) { struct pair p; p.a = a; p.b = b; p.c = 'A' + (a & 15); return p; }
int sumpair(struct pair p, int k) { p.a = cl(p.a + k); return cl(p.a + p.b) + p.c; }
void deep(int n) { char pad[20]; pad[n & 15] = n; if (n <= 0) longjmp(jb, 3 + pad[0]); deep(n - 1); }
void vout(char* f, ...) { va_list l; char t[80]; va_start(l, f); vsprintf(t, f, l); va_end(l); puts(t); }
int big(int n) { char t[BIG]; int i, s = 0; for (i = 0; i < BIG; i += BIG / 4) t[i] = i / (BIG / 4) + n; if (n > 0) s = big(n - 1); for (i = 0; i < BIG; i += BIG / 4) s = cl(s + t[i]); return s; }
"""

WORDS = ["", "a", "xyz", "Hello, world", "tab\\there", "100%%", "quote\\\"s", "back\\\\slash", "  lead", "trail  ", "MiXeD CaSe 42", "-17", "0x1F", "one two  three", "aaaa", "longer text with several words in it", "\\x7e\\x21", "a,b;c d"]
LIT = [w.replace("%%", "%") for w in WORDS]


class PP:
    def __init__(self, rng, wide):
        self.rng, self.wide, self.byes, self.tmp = rng, wide, 0, 0

    def b(self, no=()):
        return "B[%d]" % self.rng.choice([i for i in range(6) if "B[%d]" % i not in no])

    def v(self):
        return "V[%d]" % self.rng.randrange(8)

    def n(self):
        return self.rng.choice([0, 1, 2, 3, 7, 10, 63, 99, 100, 255, 256, 1000, 4096, 9999, -1, -2, -10, -128, -9999])

    def iv(self):
        """An int expression within -9999..9999."""
        r = self.rng.random()
        if r < 0.5:
            return self.v()
        if r < 0.65:
            return "%d" % self.n()
        if r < 0.75:
            return "cl(%s %s %s)" % (self.v(), self.rng.choice("+-"), self.v())
        if r < 0.8:
            return "cl((%s %% 100) * (%s %% 90))" % (self.v(), self.v())
        if r < 0.86:
            return "A[%d] %% 10000" % self.rng.randrange(24)
        if r < 0.92:
            return "(%s / %d)" % (self.v(), self.rng.choice([1, 2, 3, 7, 100, -3]))
        return "(int)strlen(%s)" % self.b()

    def lit(self):
        return '"%s"' % self.rng.choice(LIT)

    def fmt(self, no=()):
        """(format, arguments) with text of at most 60 characters."""
        rng = self.rng
        f, a = "", []
        for _ in range(rng.choice([1, 2, 3])):
            k = rng.randrange(9)
            if k < 4:
                f += "%" + rng.choice(["", "", "-", "+", " ", "0"]) + rng.choice(["", "", "3", "6", "*"]) + rng.choice(["", "", ".3", ".0"]) + "d"
                if "*" in f.rsplit("%", 1)[1]:
                    a.append("%d" % rng.choice([0, 2, 5, -5]))
                a.append(self.iv())
            elif k == 4:
                f += "%" + rng.choice(["", "#", "0", "-"]) + rng.choice(["", "5"]) + rng.choice("xXou")
                a.append("(unsigned)%s & 0x7FFF" % self.v())
            elif k < 7:
                f += "%" + rng.choice(["", "-"]) + rng.choice(["", "8"]) + ".%d" % rng.choice([0, 1, 5, 10]) + "s"
                a.append(self.b(no) if rng.random() < 0.7 else "words[%d]" % rng.randrange(7))
            elif k == 7:
                f += "%c"
                a.append("'a' + (%s & 15)" % self.v())
            else:
                f += rng.choice(["%%", ",", " = ", "[", "]"])
            f += rng.choice(["", " ", "|"])
        return '"%s"' % f, a

    def stmt(self):
        rng = self.rng
        names = [n for n in dir(self) if n.startswith("s_")]
        wn = [n for n in dir(self) if n.startswith("w_")]
        if self.wide and rng.random() < 0.3:
            return getattr(self, rng.choice(wn))()
        return getattr(self, rng.choice(names))()

    # -- values and strings
    def s_set(self):
        return "%s = %s;" % (self.v(), self.iv())

    def s_setb(self):
        return "strcpy(%s, %s);" % (self.b(), self.lit())

    def s_cat(self):
        a = self.b()
        b = self.b((a,))
        return "strncat(%s, %s, %s - strlen(%s));" % (a, b, "sizeof " + a + " - 1", a)

    def s_ncpy(self):
        a = self.b()
        k = self.rng.choice([0, 1, 5, 30])
        return "strncpy(%s, %s, %d); %s[%d] = 0;" % (a, self.b((a,)), k, a, max(k, 1))

    def s_snprintf(self):
        a = self.b()
        f, x = self.fmt((a,))
        return "%s = snprintf(%s, %s, %s);" % (self.v(), a, self.rng.choice(["sizeof " + a, "10", "1"]), ", ".join([f] + x))

    def s_printf(self):
        f, x = self.fmt()
        return "printf(%s);" % ", ".join([f[:-1] + '\\n"'] + x)

    def s_vout(self):
        f, x = self.fmt()
        return "vout(%s);" % ", ".join([f] + x)

    def s_search(self):
        r = self.rng
        b = self.b()
        fn = r.choice(["strchr(%s, '%s')" % (b, r.choice("aeo ,z0")), "strrchr(%s, '%s')" % (b, r.choice("aeo ,z0")), "strstr(%s, \"%s\")" % (b, r.choice(["a", "ta", "the", "qu", "  ", "xyz"])),
                       "strpbrk(%s, \"%s\")" % (b, r.choice([",;", "xyz", "aeiou", " "])), "(char*)memchr(%s, 'e', strlen(%s))" % (b, b)])
        return "{ char* p = %s; %s = p ? (int)(p - %s) : -1; printf(\"at %%d\\n\", %s); }" % (fn, "V[6]", b, "V[6]")

    def s_span(self):
        return "%s = %s(%s, \"%s\");" % (self.v(), self.rng.choice(["strspn", "strcspn"]), self.b(), self.rng.choice(["abcdefgh", " ,;", "0123456789", "The"]))

    def s_cmp(self):
        r = self.rng
        x = "%s, %s" % (self.b(), self.b())
        c = r.choice(["strcmp(%s)" % x, "strncmp(%s, %d)" % (x, r.choice([0, 1, 3, 10])), "memcmp(%s, %d)" % (x, r.choice([0, 1, 4]))])
        return "{ int c = %s; printf(\"cmp %%d\\n\", (c > 0) - (c < 0)); }" % c

    def s_tok(self):
        return "{ char t[64]; char* p; strcpy(t, %s); for (p = strtok(t, \"%s\"); p; p = strtok(NULL, \"%s\")) printf(\"<%%s>\", p); putchar('\\n'); }" % (self.b(), self.rng.choice([" ", ",; ", "aeiou"]), self.rng.choice([" ", ",;", "a"]))

    def s_case(self):
        b = self.b()
        return "{ char* p; for (p = %s; *p; p++) *p = %s(*p & 127); }" % (b, self.rng.choice(["toupper", "tolower"]))

    def s_class(self):
        b = self.b()
        return "{ char* p; int n = 0; for (p = %s; *p; p++) n += !!%s(*p & 127); printf(\"class %%d\\n\", n); }" % (b, self.rng.choice("isalpha isdigit isalnum isspace isupper islower ispunct isprint isxdigit iscntrl isgraph".split()))

    def s_mem(self):
        r = self.rng
        b = self.b()
        k = r.randrange(3)
        if k == 0:
            return "memmove(%s + %d, %s + %d, %d); %s[63] = 0;" % (b, r.randrange(20), b, r.randrange(20), r.randrange(40), b)
        if k == 1:
            return "memset(%s + %d, '%s', %d); %s[%d] = 0;" % (b, r.randrange(10), r.choice("*-x"), r.randrange(20), b, r.randrange(30, 60))
        return "memcpy(%s, %s, 64);" % (b, self.b((b,)))

    def s_rev(self):
        b = self.b()
        return "{ char* p = %s; char* q = p + strlen(p); while (p < q) { char t = *--q; *q = *p; *p++ = t; } }" % b

    def s_hash(self):
        return "printf(\"hash %%u\\n\", hash(%s, 64));" % self.b() if self.rng.random() < 0 else "{ int i; unsigned h = 0; for (i = 0; i < NB; i++) h = (h * 31u + hash(B[i], strlen(B[i]))) & 0x7FFF; printf(\"hash %u\\n\", h); }"

    def s_scan(self):
        r = self.rng
        k = r.randrange(4)
        if k == 0:
            return "{ int a = 0, b = 0, n; n = sscanf(\"%d,%d\", \"%s\", &a, &b); %s = a; printf(\"%%d %%d %%d\\n\", n, a, b); }" % (self.n(), *r.choice([(self.n(), "%d,%d"), (self.n(), "%4d,%i"), (self.n(), "%d %d"), (r.randrange(1000), "%d,%x")]), self.v())
        if k == 1:
            return "{ char w[64]; int n; w[0] = 0; n = sscanf(%s, \"%s\", w); printf(\"%%d %%s\\n\", n, n > 0 ? w : \"-\"); }" % (self.b(), r.choice(["%s", "%5s", "%[abcdefgth]", "%[^ ]", " %30[The quickbrown]"]))
        if k == 2:
            return "{ char t[64]; char w[40]; int x = 0; int n; sprintf(t, \"k%%d %%s\", %s, \"tail\"); n = sscanf(t, \"k%%d %%3s\", &x, w); printf(\"%%d %%d %%s\\n\", n, x, w); }" % self.iv()
        return "%s = atoi(\"%s\");" % (self.v(), r.choice(["12", "-34x", "  +7", "zz", "9999", ""]))

    # -- control
    def s_switch(self):
        v = self.v()
        r = self.rng
        cs = "".join("case %d: %s %s " % (i, 'printf("c%d ");' % i, r.choice(["break;", ""])) for i in r.sample(range(-3, 8), 5))
        return "switch (%s %s) { %s default: puts(\"dflt\"); }" % (v, r.choice(["& 7", "% 4", "/ 1000"]), cs)

    def s_loop(self):
        r = self.rng
        k = r.randrange(4)
        if k == 0:
            return "{ int i; for (i = 0; i < %d; i++) { if (i == (%s & 15)) continue; if (i > 9) break; A[i] = cl(A[i] + i * %d); } }" % (r.choice([3, 8, 20]), self.v(), r.choice([1, -7, 13]))
        if k == 1:
            return "{ int n = (%s & 31) + 1, s = 0; while (n) { s += n; n /= 2; } %s = s; }" % (self.v(), self.v())
        if k == 2:
            return "{ int n = 0; do { n += 3; if (n & 4) goto L%d; } while (n < 50); L%d: printf(\"loop %%d\\n\", n); }" % (self.label(), self.tmp)
        return "{ int i, j, s = 0; for (i = 0; i < 5; i++) for (j = i; j < 5; j++) s = cl(s + A[i] * (j & 1) - A[j]); %s = s; }" % self.v()

    def label(self):
        self.tmp += 1
        return self.tmp

    def s_call(self):
        r = self.rng
        return r.choice([
            "%s = ftab[%s & 3](%s);" % (self.v(), self.v(), self.iv()),
            "{ struct node* p = &nodes[%d]; int n = 6; while (p && n--) { printf(\"%%s:%%d:%%s \", p->name, p->f(p->v), p->tag); p = p->next; } putchar('\\n'); }" % r.randrange(5),
            "%s = sum(%d, %s);" % (self.v(), 3, ", ".join(self.iv() for _ in range(3))),
            "printf(\"gcd %%d\\n\", gcd(abs(%s), abs(%s)));" % (self.iv(), self.iv()),
            "hanoi(%d, 1, 2, 3); putchar('\\n');" % r.randrange(1, 4),
            "printf(\"perm %d\\n\", perm(0));",
            "{ struct pair p; p = mkpair(%s, %s); pairs[%s & 3] = p; %s = cl(sumpair(p, %s)); }" % (self.iv(), self.iv(), self.v(), self.v(), self.iv()),
            "printf(\"pairs %%d %%d\\n\", sumpair(pairs[%d], 1), pairs[%d].c);" % (r.randrange(4), r.randrange(4)),
            "*pv[%d] = %s; printf(\"pv %%d %%s\\n\", *pv[%d], mid[%d]);" % (r.randrange(4), self.iv(), r.randrange(4), r.choice([0, 0])),
            "{ int r = setjmp(jb); if (r == 0) deep(%d); printf(\"jmp %%d\\n\", r); }" % r.choice([0, 1, 5, 16]),
            "printf(\"big %%d\\n\", big(%d));" % r.choice([0, 1, 2, 3]),
            "{ static int cnt; cnt += %d; printf(\"cnt %%d\\n\", cnt); }" % r.choice([1, 5]),
            "{ int m[3][4]; int i, j; for (i = 0; i < 3; i++) for (j = 0; j < 4; j++) m[i][j] = cl(i * A[j] + V[i]); printf(\"m %%d %%d\\n\", m[%d][%d], *(*(m + 2) + 1)); }" % (r.randrange(3), r.randrange(4)),
            "{ char t[] = \"local\"; char* q[2] = { \"p\", \"q\" }; int z[3] = { %d, 2 }; t[%d] = 'X'; printf(\"%%s %%s %%d %%d\\n\", t, q[%s & 1], z[0], z[2]); }" % (self.n(), r.randrange(5), self.v())])

    def s_sort(self):
        r = self.rng
        return r.choice([
            "qsort(A, %d, sizeof A[0], %s);" % (r.choice([0, 1, 5, 24]), r.choice(["cmpi", "cmpd"])),
            "qsort(%s, strlen(%s), 1, cmpc);" % (lambda b: (b, b))(self.b()),
            "{ int k = %s; int* p; qsort(A, NA, sizeof A[0], cmpi); p = (int*)bsearch(&k, A, NA, sizeof A[0], cmpi); printf(\"find %%d\\n\", p ? *p == k : -1); }" % self.iv(),
            "{ int i; for (i = 0; i < NA; i++) printf(\"%d \", A[i]); putchar('\\n'); }"])

    def s_alloc(self):
        r = self.rng
        n = r.choice([1, 5, 12])
        return r.choice([
            "{ char* p = (char*)malloc(%d); if (p) { strcpy(p, %s); p = (char*)realloc(p, %d); p[%d] = 0; printf(\"%%s\\n\", p); free(p); } }" % (r.choice([64, 70, 200]), self.b(), r.choice([64, 100, 500]), r.randrange(60)),
            "{ struct node* h = NULL; struct node* t; int i; for (i = 0; i < %d; i++) { t = (struct node*)malloc(sizeof *t); t->v = V[i & 7]; t->next = h; h = t; } while (h) { printf(\"%%d \", h->v); t = h->next; free(h); h = t; } puts(\"list\"); }" % n,
            "{ int i, s = 0; int* p = (int*)calloc(%d, sizeof(int)); for (i = 0; i < %d; i++) { s |= p[i]; p[i] = i; } free(p); printf(\"calloc %%d\\n\", s); }" % (n * 8, n * 8)])

    # -- files
    def s_file(self):
        r = self.rng
        n = r.choice(["F1.TXT", "F1.TXT", "F2.TXT"])
        d = r.choice(["F3.DAT", "F3.DAT", "F4.DAT"])
        return r.choice([
            "{ FILE* f = fopen(\"%s\", \"%s\"); if (f) { fprintf(f, \"%%s %%d\\n\", %s, %s); fputs(\"line\\n\", f); fputc('0' + (%s & 7), f); fputc('\\n', f); fclose(f); } else puts(\"nofile\"); }" % (n, r.choice(["w", "a", "a", "w"]), self.b(), self.iv(), self.v()),
            "{ FILE* f = fopen(\"%s\", \"r\"); char t[100]; if (f) { while (fgets(t, %d, f)) printf(\"{%%s}\", t); printf(\"eof %%d\\n\", !!feof(f)); fclose(f); } else puts(\"nofile\"); }" % (n, r.choice([8, 20, 100])),
            "{ FILE* f = fopen(\"%s\", \"r\"); int c, n = 0; if (f) { while ((c = getc(f)) != EOF) { if (c == '\\n') n++; else if (c == 'e') { c = getc(f); if (c != EOF) ungetc(c, f); } } fclose(f); } printf(\"lines %%d\\n\", n); }" % n,
            "{ FILE* f = fopen(\"%s\", \"r\"); char w[64]; int k = 0; if (f) { while (k < 20 && fscanf(f, \"%%63s\", w) == 1) { printf(\"%%s/\", w); k++; } fclose(f); puts(\"\"); } }" % n,
            "{ FILE* f = fopen(\"%s\", \"%s\"); if (f) { fwrite(B[%d], 1, %d, f); fclose(f); } }" % (d, r.choice(["wb", "ab"]), r.randrange(6), r.choice([1, 20, 64])),
            "{ FILE* f = fopen(\"%s\", \"rb\"); if (f) { char t[16]; int n; int i; fpos_t ps; for (i = 0; i < %d; i++) getc(f); fgetpos(f, &ps); n = fread(t, 1, %d, f); fsetpos(f, &ps); printf(\"rd %%d %%u %%d\\n\", n, hash(t, n), getc(f)); fclose(f); } else puts(\"none\"); }" % (d, r.choice([0, 1, 5, 63, 200]), r.choice([1, 8, 16])) if not self.wide else
            "{ FILE* f = fopen(\"%s\", \"rb\"); if (f) { char t[16]; int n; fseek(f, %d, SEEK_SET); n = fread(t, 1, %d, f); fseek(f, 0, SEEK_END); printf(\"rd %%d %%u at %%d\\n\", n, hash(t, n), (int)ftell(f)); fclose(f); } else puts(\"none\"); }" % (d, r.choice([0, 1, 5, 63, 200]), r.choice([1, 8, 16])),
            "{ FILE* f = fopen(\"%s\", \"rb+\"); if (f) { fputc('%s', f); rewind(f); printf(\"nx %%d\\n\", getc(f)); fclose(f); } }" % (d, r.choice("#@")) if not self.wide else
            "{ FILE* f = fopen(\"%s\", \"rb+\"); if (f) { fseek(f, %d, SEEK_SET); fputc('%s', f); fseek(f, 0, SEEK_CUR); printf(\"nx %%d\\n\", getc(f)); fclose(f); } }" % (d, r.choice([0, 3, 70]), r.choice("#@")),
            "{ FILE* f = tmpfile(); if (f) { int i; for (i = 0; i < %d; i++) fputc(i & 63, f); rewind(f); i = 0; while (getc(f) != EOF) i++; printf(\"tmp %%d\\n\", i); fclose(f); } else puts(\"notmp\"); }" % r.choice([1, 100, 1500]),
            "printf(\"rm %%d\\n\", remove(\"%s\") == 0);" % r.choice([n, d]),
            "remove(\"F5.TXT\"); printf(\"mv %%d\\n\", rename(\"%s\", \"F5.TXT\") == 0);" % n,
            "{ FILE* f = fopen(\"%s\", \"w\"); if (f) { static char vb[200]; setvbuf(f, %s); fputs(%s, f); fflush(f); fprintf(f, \"%%5d\", %s); fclose(f); } }" % (n, r.choice(["NULL, _IONBF, 0", "vb, _IOFBF, 200", "vb, _IOLBF, 64"]), self.b(), self.iv())])

    def s_io(self):
        return self.rng.choice([
            "puts(%s);" % self.b(), "putchar('A' + (%s & 7));" % self.v(), "fputs(%s, stdout); putc('\\n', stdout);" % self.b(), "fwrite(%s, 1, strlen(%s), stdout);" % (lambda b: (b, b))(self.b()),
            "fflush(stdout);", "{ char t[64]; if (fgets(t, sizeof t, stdin)) printf(\"in %s|\", t); else puts(\"in eof\"); }", "printf(\"ch %d\\n\", getchar());",
            "{ int x = -1; int n = scanf(\"%d\", &x); printf(\"sc %d %d\\n\", n, n == 1 ? x % 10000 : 0); }", "fprintf(stderr, \"err %d\\n\", V[0]);",
            "{ int i; for (i = 1; i < argc; i++) printf(\"arg %s\\n\", argv[i]); }"])

    def s_exit(self):
        self.byes += 1
        return "atexit(bye%d);" % self.rng.randrange(3) if self.byes < 8 else "calls++;"

    # -- 32 bits
    def w_long(self):
        r = self.rng
        x = r.choice([70000, -123456, 2147483647, -2147483647, 65536, 1000000, 999999999, r.getrandbits(31)])
        y = r.choice([3, 7, -11, 1000, 65537, 12345678])
        return r.choice([
            "{ long a = %dL, b = %dL; printf(\"%%ld %%ld %%ld %%lx\\n\", a / b, a %% b, a / 2 + b, (unsigned long)(a & 0x7FFFFFFF)); }" % (x, y),
            "{ unsigned h = %uu; int i; for (i = 0; B[%d][i]; i++) h = (h ^ (B[%d][i] & 255)) * 16777619u; printf(\"fnv %%08x\\n\", h); }" % (x & 0xffffffff, *[r.randrange(6)] * 2),
            "{ char* e; long n = strtol(\"%d zz\", &e, %d); printf(\"stl %%ld %%s\\n\", n, e); }" % (x, r.choice([0, 10])),
            "{ unsigned a = %uu; printf(\"sh %%u %%u %%d\\n\", a << %d, a >> %d, (int)a >> %d); }" % (x & 0xffffffff, r.randrange(32), r.randrange(32), r.randrange(32)),
            "{ ldiv_t q = ldiv(%dL, %dL); printf(\"ldiv %%ld %%ld\\n\", (long)q.quot, (long)q.rem); }" % (x, y),
            "{ static unsigned short t[6] = { 65535u, 1, 40000u }; signed char c = (signed char)%d; t[%d] += %d; printf(\"nar %%u %%d\\n\", t[%d], c); }" % (r.choice([200, 127, 128, 77]), r.randrange(6), r.choice([1, 40000]), r.randrange(6))])

    def w_float(self):
        r = self.rng
        x, y = r.choice([0.5, 1.25, -3.75, 100.0, 1024.5, 7.0, -0.125]), r.choice([2.0, 0.25, -4.0, 8.0, 3.0])
        return r.choice([
            "{ float a = %sf, b = %sf; printf(\"%%f %%f %%.3f %%d\\n\", a + b, a - b, a * b, a < b); }" % (x, y),
            "{ float a = %sf; printf(\"%%g %%e %%.0f %%d\\n\", a, a, a, (int)a); }" % x,
            "{ float t[3] = { %sf, 2.5f }; float s = 0; int i; for (i = 0; i < 3; i++) s = s + t[i]; printf(\"%%.2f\\n\", s / 2); }" % x,
            "{ float f = 0; int n = sscanf(\"%s\", \"%%f\", &f); printf(\"%%d %%.3f %%.1f\\n\", n, f, (float)floor(f)); }" % x,
            "printf(\"%%.1f %%.2f\\n\", (float)sqrt(%sf), (float)fabs(%sf));" % (r.choice([4.0, 6.25, 144.0, 0.0]), x)])

    def w_time(self):
        r = self.rng
        y, m, d, h = r.randrange(1971, 2037), r.randrange(1, 13), r.randrange(1, 29), r.randrange(24)
        import calendar
        t = calendar.timegm((y, m, d, h, r.randrange(60), r.randrange(60)))
        return r.choice([
            "{ time_t t = %d; struct tm* p = gmtime(&t); printf(\"%%d-%%d-%%d %%d:%%d %%d %%d\\n\", p->tm_year, p->tm_mon, p->tm_mday, p->tm_hour, p->tm_min, p->tm_wday, p->tm_yday); }" % t,
            "{ time_t t = %d; char s[80]; strftime(s, sizeof s, \"%s\", gmtime(&t)); puts(s); }" % (t, r.choice(["%Y-%m-%d %H:%M:%S", "%a %A %b %B %d", "%j %U %w %y %p %I", "%c", "%x %X"])),
            "{ struct tm s; memset(&s, 0, sizeof s); s.tm_year = %d; s.tm_mon = %d; s.tm_mday = %d; printf(\"%%s\", asctime(&s)); }" % (y - 1900, m - 1, d)])

    def w_alloc(self):
        r = self.rng
        return "{ char* p[8]; int i, s = 0; for (i = 0; i < 8; i++) { p[i] = (char*)malloc(%d * (i + 1)); if (p[i]) memset(p[i], i, %d * (i + 1)); } for (i = 0; i < 8; i += 2) free(p[i]); for (i = 1; i < 8; i += 2) if (p[i]) { s += p[i][%d]; free(p[i]); } printf(\"blk %%d\\n\", s); }" % (
            *[r.choice([10, 300, 2000])] * 2, r.choice([0, 9]))


def gen(rng, wide, size):
    g = PP(rng, wide)
    return {"wide": wide, "stmts": [g.stmt() for _ in range(size)],
            "args": [rng.choice(["one", "X2", "a.b", "-v", "/s", "42", "long_argument_here"]) for _ in range(rng.choice([0, 0, 1, 2, 4]))],
            "stdin": "".join(rng.choice(["12\n", "-7 8\n", "text line here\n", "\n", "99 x\n", "a\n"]) for _ in range(rng.choice([0, 2, 5]))) + rng.choice(["", "", "last 5"]),
            "rc": rng.choice([0, 0, 1, 7, 42, 200, 255]), "end": rng.choice(["return", "exit"]), "split": rng.choice([1, 2, 3])}


def texts(p):
    """-> [(file name, text)]"""
    h = ("#define WIDE\n" if p["wide"] else "") + HEAD
    n = len(p["stmts"])
    k = p["split"]
    fs = [("pb.c", h + B_C)]
    # sections of statements, each a function in its own file
    parts = [p["stmts"][i * n // k:(i + 1) * n // k] for i in range(k)]
    main = h + "".join("void part%d(int, char**);\n" % i for i in range(k))
    for i, st in enumerate(parts):
        # at most 12 labels a function
        t = "void part%d(int argc, char** argv)\n{\n%s\n}\n" % (i, "\n".join("  " + s for s in st))
        if i == 0:
            main += t
        else:
            fs.append(("pc%d.c" % i, h + t))
    main += "int main(int argc, char** argv)\n{\n%s  printf(\"end %%d\\n\", calls);\n  %s\n  return 1;\n}\n" % ("".join("  part%d(argc, argv);\n" % i for i in range(k)), "return %d;" % p["rc"] if p["end"] == "return" else "exit(%d);" % p["rc"])
    return [("pa.c", main)] + fs
