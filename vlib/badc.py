"""Pairs (invalid, valid twin) of C fragments. Prelude declares what they use."""

PRELUDE = """struct zS { int m; char n; int a[3]; };
struct zT { int m; };
union zU { int x; char y; };
struct zI;
typedef int zTy;
enum zE { zE1, zE2 = 7 };
int zi; char zc; unsigned zu; int *zp; char *zcp; int za[4]; struct zS zs, *zsp, zsa[2]; struct zT zt; union zU zun; struct zI *zIp;
void zv(void); int z0(void); int z1(int); int z2(int, char *); int zvar(int, ...); struct zS *zsf(void); int (*zfp)(int);
"""
PRELUDE_F = "float zf; float zff(float);\n"

# expressions: (bad, good)
E = [
    ("zund", "zi"), ("zund + 1", "zi + 1"), ("zs.zz", "zs.m"), ("zsp->zz", "zsp->m"), ("zi.m", "zs.m"), ("zi->m", "zsp->m"), ("zsp.m", "zsp->m"), ("zs->m", "zs.m"),
    ("zt.n", "zs.n"), ("zun.m", "zun.x"), ("zsa.m", "zsa[1].m"), ("zsa[0]->m", "zsa[0].m"), ("zs.m.m", "zs.m"), ("zs.a.m", "zs.a[1]"), ("zp->m", "zsp->m"), ("zs.5", "zs.m"), ("zs.", "zs.m"),
    ("z1()", "z1(1)"), ("z1(1, 2)", "z1(1)"), ("z2(1)", "z2(1, zcp)"), ("z2(1, zcp, 3)", "z2(1, zcp)"), ("z0(1)", "z0()"), ("zvar()", "zvar(1)"), ("zfp()", "zfp(1)"), ("(*zfp)(1, 2)", "(*zfp)(1)"),
    ("z1(z1())", "z1(z1(2))"), ("z1(,)", "z1(1)"), ("z1(1,)", "z1(1)"), ("z2(,zcp)", "z2(1,zcp)"), ("z1(1", "z1(1)"), ("z1 1)", "z1(1)"),
    ("zi(1)", "z1(1)"), ("zs(1)", "z1(1)"), ("za(1)", "z1(1)"), ("5(1)", "z1(1)"), ("zs.m(1)", "z1(1)"), ("zcp(1)", "z1(1)"),
    ("zi[0]", "za[0]"), ("zi[zi]", "za[zi]"), ("1[2]", "1[za]"), ("zs[0]", "zsa[0].m"), ("za[0][1]", "za[0]"), ("za[zs]", "za[zs.m]"), ("za[zp]", "za[*zp]"), ("za[]", "za[1]"), ("zp[zp]", "zp[1]"),
    ("*zi", "*zp"), ("*zs", "*zp"), ("*5", "*zp"), ("**zp", "*zp"), ("*zs.m", "*zs.a"), ("*zv()", "*zp"), ("*za[1]", "*za"), ("!*zi", "!*zp"),
    ("5 = zi", "zi = 5"), ("zi + 1 = 2", "zi = 2"), ("za = zp", "zp = za"), ("z0() = 1", "zi = 1"), ("&zi = zp", "zp = &zi"), ("zi++ = 1", "zi = 1"), ("++zi = 1", "zi = 1"), ("zE1 = 2", "zi = zE1"),
    ("5++", "zi++"), ("++5", "++zi"), ("--z0()", "--zi"), ("z0()++", "zi++"), ("za++", "zp++"), ("++za", "++zp"), ("zE1++", "zc++"), ("(zi + 1)++", "(zi)++"), ("zi++++", "zi++"), ("++zi++", "++zi"), ("zs.a++", "zs.m++"),
    ("zs++", "zs.m++"), ("--zs", "--zs.n"), ("zsp->a--", "zsp->m--"), ("-zi = 1", "zi = -1"), ("zs.a = zp", "zp = zs.a"), ("zv = 0", "zi = 0"), ("z1 = 0", "zfp = z1"), ("5 += 1", "zi += 1"), ("za += 1", "zp += 1"),
    ("z0() -= 1", "zi -= 1"), ("zi + 1 *= 2", "zi *= 2"), ("(zi = 1) = 2", "zi = 1"), ("(zi, zc) = 2", "zc = 2"), ("(zi ? zc : zi) = 1", "*(zi ? &zi : &zi) = 1"), ("!zi = 1", "zi = !1"), ("\"abc\" = zcp", "zcp = \"abc\""),
    ("&5", "&zi"), ("&z0()", "&zi"), ("&(zi + 1)", "&zi"), ("&zE1", "&zi"), ("&&zi", "&zi"), ("&-zi", "&zi"), ("&zi++", "&zi"), ("&(zi = 1)", "&zi"), ("&sizeof zi", "&zi"), ("&*zi", "&*zp"),
    ("zs + 1", "zs.m + 1"), ("1 + zs", "1 + zs.m"), ("-zs", "-zs.m"), ("!zs", "!zs.m"), ("~zs", "~zs.m"), ("+zs", "+zs.m"), ("zs * 2", "zs.m * 2"), ("zs == zs", "zs.m == zs.m"), ("zs != 0", "zs.m != 0"), ("zs && 1", "zs.m && 1"),
    ("1 && zs", "1 && zs.n"), ("0 || zs", "0 || zs.m"), ("zs || 1", "zs.n || 1"), ("zs ? 1 : 2", "zs.m ? 1 : 2"), ("zs < 1", "zs.m < 1"), ("1 > zs", "1 > zs.m"), ("zs << 1", "zs.m << 1"), ("1 >> zs", "1 >> zs.m"), ("zs | 1", "zs.m | 1"), ("zs ^ zs", "zs.m ^ zs.m"), ("zs % 3", "zs.m % 3"), ("3 / zs", "3 / zs.m"), ("zi += zs", "zi += zs.m"), ("zs += 1", "zs.m += 1"), ("zs |= 1", "zs.n |= 1"), ("zi <<= zs", "zi <<= zs.m"),
    ("zp * 2", "*zp * 2"), ("2 * zp", "2 * *zp"), ("zp / 2", "*zp / 2"), ("zp % 2", "*zp % 2"), ("zp & 1", "*zp & 1"), ("1 | zp", "1 | *zp"), ("zp ^ zp", "*zp ^ *zp"), ("~zp", "~*zp"), ("-zp", "-*zp"), ("+zp", "+*zp"), ("zp + zp", "zp - zp"), ("1 - zp", "zp - 1"), ("zp << 1", "*zp << 1"), ("1 >> zp", "1 >> *zp"), ("zp *= 2", "*zp *= 2"), ("zi -= zp", "zi -= *zp"), ("zp &= 1", "*zp &= 1"), ("zp += zp", "zp += 1"), ("za * 2", "*za * 2"), ("za + za", "za - za"), ("zv * 2", "zi * 2"), ("zi %= zp", "zi %= *zp"), ("zp <<= 1", "*zp <<= 1"),
    ("zv() + 1", "z0() + 1"), ("zi = zv()", "zi = z0()"), ("zv() ? 1 : 2", "z0() ? 1 : 2"), ("!zv()", "!z0()"), ("-zv()", "-z0()"), ("~zv()", "~z0()"), ("z1(zv())", "z1(z0())"), ("za[zv()]", "za[z0()]"), ("zv() && 1", "z0() && 1"), ("1 || zv()", "1 || z0()"), ("zv() == 0", "z0() == 0"), ("1 << zv()", "1 << z0()"), ("zi += zv()", "zi += z0()"), ("(int)zv()", "(int)z0()"), ("zv().m", "zsf()->m"), ("zvar(1, zv())", "zvar(1, z0())"), ("zi ? 1 : zv()", "zi ? 1 : z0()"),
    ("zi = zs", "zi = zs.m"), ("zs = zi", "zs.m = zi"), ("zs = zt", "zs = *zsp"), ("zt = zs", "zt.m = zs.m"), ("zs = 5", "zs.m = 5"), ("zp = zs", "zp = zs.a"), ("z1(zs)", "z1(zs.m)"), ("(struct zS)zi", "(int)zi"), ("(int)zs", "(int)zs.m"), ("zs = zsp", "zs = *zsp"), ("zun = zi", "zun.x = zi"), ("zs = zun", "zs = zsa[1]"),
    ("zi ? zs : 1", "zi ? zs.m : 1"), ("zi ? zs : zt", "(zi ? zs : *zsp).m"), ("zi ? zp : zs", "zi ? zp : za"),
    ("sizeof(struct zI)", "sizeof(struct zS)"), ("sizeof *zIp", "sizeof *zsp"), ("sizeof(int[])", "sizeof(int[3])"), ("sizeof(zund)", "sizeof(zi)"), ("sizeof(struct zNone)", "sizeof(struct zT)"), ("*zIp", "*zp"), ("zIp + 1", "zsp + 1"), ("zIp->m", "zsp->m"), ("zIp[0]", "zp[0]"), ("zIp++", "zsp++"), ("zIp - zIp", "zsp - zsp"), ("++zIp", "++zsp"), ("zIp += 2", "zsp += 2"),
    ("zi zi", "zi - zi"), ("1 2", "1 - 2"), ("zi =", "zi"), ("+", "+1"), ("()", "(1)"), ("zi ? 1", "zi ? 1 : 2"), ("zi ? : 2", "zi ? 1 : 2"), ("zi ? 1 : ", "zi ? 1 : 2"), ("zi :", "zi"), ("(zi", "(zi)"), ("zi)", "(zi)"), ("za[1", "za[1]"), ("za 1]", "za[1]"), ("zi * / 2", "zi * 2"), ("* ", "*zp"), ("zi <> 2", "zi < 2"), ("zi @ 2", "zi + 2"), ("zi ` 2", "zi + 2"), ("zi =+", "zi = +1"), ("if", "zi"), ("int", "zi"), ("(int)", "(int)1"), ("sizeof", "sizeof(int)"), ("sizeof int", "sizeof(int)"), ("(zi +) 2", "(zi + 2)"), ("zi, ", "zi, 1"), (", zi", "1, zi"), ("zsp->", "zsp->m"), ("->m", "zsp->m"), (".m", "zs.m"), ("(int 1)", "(int)1"), ("zi !", "!zi"), ("zi ~ 1", "zi + ~1"), ("zi && ", "zi && 1"), ("1 || || 2", "1 || 2"), ("{ 1 }", "1"), ("zi..m", "zs.m"), ("zTy", "(zTy)1"), ("zTy + 1", "(zTy)+ 1"), ("struct zS", "sizeof(struct zS)"),
    ("(int){1}", "(int)1"),
]
EF = [("zf % 2", "zf / 2"), ("zf & 1", "zf + 1"), ("1 | zf", "1 + zf"), ("zf ^ 1", "zf * 1"), ("zf << 1", "zf * 1"), ("1 >> zf", "1 - zf"), ("~zf", "-zf"), ("za[zf]", "za[(int)zf]"), ("zp + zf", "zp + (int)zf"), ("zp - zf", "zp - (int)zf"), ("zs = zf", "zs.m = zf"), ("zp = zf", "zi = zf"), ("(int *)zf", "(int)zf"), ("(float)zp", "(float)zi"), ("zff(zp)", "zff(1)"), ("z2(1, zf)", "z2(zf, zcp)"), ("*zf", "*zp"), ("zf->m", "zsp->m"), ("zf.m", "zs.m"), ("zf(1)", "zff(1)"), ("zf = zs", "zf = zs.m"), ("&zf = 1", "zf = 1"), ("zf %= 2", "zi %= 2"), ("zi <<= zf", "zi <<= 1"), ("zf == zp", "zf == 1"), ("zp < zf", "1 < zf"), ("zi ? zf : zp", "zi ? zf : 1"), ("zf = zp", "zf = *zp"), ("zp += zf", "zp += 2"), ("1.5 = zf", "zf = 1.5"), ("1e", "1e1"), ("1.e+", "1.e+1")]

# statements: (bad, good)
S = [
    ("int a; int a;", "int a; int b;"), ("int a; char a;", "int a; char b;"), ("int a; static int a;", "int a; static int b;"), ("int a; typedef int a;", "int a; typedef int b;"), ("typedef int a; int a;", "typedef int a; a b;"), ("int a; enum { a };", "int a; enum { b };"), ("enum { a, a };", "enum { a, b };"), ("enum { a }; int a;", "enum { a }; int b;"), ("struct q { int m; }; struct q { int n; };", "struct q { int m; }; struct r { int n; };"), ("struct q { int m; }; union q { int n; } v;", "struct q { int m; }; union r { int n; } v;"), ("enum q { a }; enum q { b };", "enum q { a }; enum r { b };"), ("enum q { a }; struct q { int m; };", "enum q { a }; struct r { int m; };"),
    ("typedef int t; typedef char t;", "typedef int t; typedef char u;"), ("struct q { int m; } a; int a;", "struct q { int m; } a; int b;"), ("extern int a; int a;", "extern int a; int b;"),
    ("int a[0];", "int a[1];"), ("int a[-1];", "int a[1];"), ("int a[zi];", "int a[2];"), ("int a[];", "int a[2];"), ("int a[2][];", "int a[2][3];"), ("int a[2][zi];", "int a[2][3];"), ("static int a[1 - 1];", "static int a[1 - 0];"), ("void a;", "int a;"), ("void a[3];", "int a[3];"), ("struct zI a;", "struct zI *a;"), ("struct zI a[2];", "struct zI *a[2];"), ("struct zNone a;", "struct zS a;"), ("union zU2 a;", "union zU a;"), ("int a()[3];", "int a();"), ("int a()();", "int (*a)();"), ("int a[3]();", "int (*a[3])();"), ("int (a[3])(int);", "int (*a[3])(int);"),
    ("static extern int a;", "static int a;"), ("int char a;", "char a;"), ("signed unsigned a;", "unsigned a;"), ("char int a;", "char a;"), ("struct int a;", "int a;"), ("int struct zS a;", "struct zS a;"), ("void int a;", "int a;"), ("unsigned void a;", "unsigned a;"), ("zTy int a;", "zTy a;"), ("int zTy2 a;", "zTy a;"), ("signed char char a;", "signed char a;"), ("short char a;", "short a;"), ("unsigned struct zS a;", "struct zS a;"), ("typedef static int a;", "typedef int a;"), ("int a b;", "int a, b;"), ("int a,;", "int a, b;"), ("int ,a;", "int a;"), ("int 5x;", "int x5;"), ("int if;", "int i;"), ("int a = ;", "int a = 1;"), ("int *;", "int *p;"), ("int a[3;", "int a[3];"), ("int (a;", "int (a);"), ("int a);", "int (a);"), ("int a", "int a;"),
    ("int a[2] = { 1, 2, 3 };", "int a[2] = { 1, 2 };"), ("static int a[2] = { 1, 2, 3 };", "static int a[3] = { 1, 2, 3 };"), ("char a[2] = \"abc\";", "char a[3] = \"abc\";"), ("int a = { 1, 2 };", "int a = { 1 };"), ("struct zT a = { 1, 2 };", "struct zT a = { 1 };"), ("struct zS a = { 1, 2, { 1, 2, 3, 4 } };", "struct zS a = { 1, 2, { 1, 2, 3 } };"), ("static int a = zi;", "static int a = 5;"), ("static int a = z0();", "static int a = 3;"), ("static int *a = zi;", "static int *a = &zi;"), ("static int a = *zp;", "static int a = 2;"), ("static int a = zi + 1;", "static int a = 0 + 1;"), ("static int a[2] = { 1, zi };", "static int a[2] = { 1, zE2 };"), ("typedef int t = 5;", "typedef int t;"), ("extern int a = 5;", "static int a = 5;"), ("int a[2] = 5;", "int a[2] = { 5 };"), ("int a[2] = { { { 1 }, 2 };", "int a[2] = { 1, 2 };"), ("int a[2][2] = { { 1, 2, 3 } };", "int a[2][2] = { { 1, 2 }, 3 };"), ("int a = zund;", "int a = zi;"), ("int a = zs;", "int a = zs.m;"), ("struct zS a = zi;", "struct zS a = zs;"), ("struct zS a = zt;", "struct zS a = *zsp;"), ("int a[] = {};", "int a[] = { 1 };"), ("int a[2] = { , };", "int a[2] = { 1, };"), ("union zU a = { 1, 2 };", "union zU a = { 1 };"),
    ("enum { a = zi };", "enum { a = 3 };"), ("enum { a = };", "enum { a = 1 };"), ("enum { };", "enum { a };"), ("enum { 5 };", "enum { a5 };"), ("enum { a b };", "enum { a, b };"), ("enum { a = zp };", "enum { a = 1 };"),
    ("struct { int m; int; } a;", "struct { int m; int n; } a;"), ("struct q { struct q m; } a;", "struct q { struct q *m; } a;"), ("struct q { int m[]; } a;", "struct q { int m[1]; } a;"), ("struct q { void m; } a;", "struct q { void *m; } a;"), ("struct q { int f(void); } a;", "struct q { int (*f)(void); } a;"), ("struct q { struct zI m; } a;", "struct q { struct zI *m; } a;"), ("struct q { int m = 5; } a;", "struct q { int m; } a;"), ("struct q { static int m; } a;", "struct q { int m; } a;"), ("struct q { int m } a;", "struct q { int m; } a;"), ("struct q { m; } a;", "struct q { int m; } a;"), ("struct q { int m[zi]; } a;", "struct q { int m[2]; } a;"), ("struct q { typedef int m; } a;", "struct q { int m; } a;"), ("struct { } a;", "struct { int m; } a;"), ("struct q { int m; char m; } a;", "struct q { int m; char n; } a;"),
    ("if zi) z0();", "if (zi) z0();"), ("if (zi z0();", "if (zi) z0();"), ("if () z0();", "if (1) z0();"), ("if (zi) else z0();", "if (zi) ; else z0();"), ("else z0();", "if (zi) ; else z0();"), ("if (zi) z0(); z0(); else z0();", "if (zi) { z0(); z0(); } else z0();"), ("while () zi--;", "while (zi) zi--;"), ("while zi) zi--;", "while (zi) zi--;"), ("for (;) zi--;", "for (;zi;) zi--;"), ("for (;;;) zi--;", "for (;zi;) zi--;"), ("for (zi) zi--;", "for (;zi;) zi--;"), ("do zi--; while zi;", "do zi--; while (zi);"), ("do zi--; while ();", "do zi--; while (zi);"), ("do zi--; (zi);", "do zi--; while (zi);"), ("do zi--; while (zi)", "do zi--; while (zi);"), ("while (zi = ) ;", "while (zi = 0) ;"), ("switch () { }", "switch (zi) { }"), ("switch zi { }", "switch (zi) { }"),
    ("if (zs) z0();", "if (zs.m) z0();"), ("while (zs) z0();", "while (zs.m) z0();"), ("do z0(); while (zs);", "do z0(); while (zs.m);"), ("for (;zs;) z0();", "for (;zs.m;) z0();"), ("switch (zs) { }", "switch (zs.m) { }"), ("switch (zp) { }", "switch (*zp) { }"), ("if (zv()) z0();", "if (z0()) z0();"), ("while (zv()) ;", "while (z0()) ;"), ("for (;zv();) ;", "for (;z0();) ;"), ("do ; while (zv());", "do ; while (z0());"), ("switch (zv()) { }", "switch (z0()) { }"),
    ("switch (zi) { case 1: case 1: ; }", "switch (zi) { case 1: case 2: ; }"), ("switch (zi) { case 1: ; break; case 3 - 2: ; }", "switch (zi) { case 1: ; break; case 3 - 1: ; }"), ("switch (zi) { case 'a': case 97: ; }", "switch (zi) { case 'a': case 98: ; }"), ("switch (zi) { case 0: switch (zi) { case 0: ; } case 0: ; }", "switch (zi) { case 0: switch (zi) { case 0: ; } case 1: ; }"), ("switch (zi) { case 7: case zE2: ; }", "switch (zi) { case 8: case zE2: ; }"), ("switch (zi) { default: ; default: ; }", "switch (zi) { default: ; case 2: ; }"), ("switch (zi) { default: switch (zi) { default: ; } default: ; }", "switch (zi) { default: switch (zi) { default: ; } case 3: ; }"), ("switch (zi) { case zi: ; }", "switch (zi) { case 1: ; }"), ("switch (zi) { case z0(): ; }", "switch (zi) { case 1: ; }"), ("switch (zi) { case: ; }", "switch (zi) { case 1: ; }"), ("switch (zi) { case 1 ; }", "switch (zi) { case 1: ; }"), ("switch (zi) { default ; }", "switch (zi) { default: ; }"), ("switch (zi) { case zp: ; }", "switch (zi) { case 2: ; }"), ("switch (zi) { case \"a\": ; }", "switch (zi) { case 'a': ; }"), ("switch (zi) { while (zi) { case 1: ; } case 1: ; }", "switch (zi) { while (zi) { case 1: zi = 0; } case 2: ; }"),
    ("goto zlab;", "goto zlab; zlab: ;"), ("zlab: ; zlab: ;", "zlab: ; zlab2: ;"), ("zlab: { zlab: ; }", "zlab: { zlab2: ; }"), ("goto zi;", "goto zll; zll: ;"), ("goto ;", "goto zl; zl: ;"), ("goto 5;", "goto z5; z5: ;"), ("goto zl; zl2: ;", "goto zl; zl: ;"), ("{ goto zl; } { zl3: ; }", "{ goto zl; } { zl: ; }"), ("goto zl", "goto zl; zl: ;"), ("zl : zl", "zl : zi;"),
    ("break z;", "while (zi) break;"), ("zi", "zi;"), ("zi = 1", "zi = 1;"), ("(zi;", "(zi);"), ("z1(1;", "z1(1);"), ("]", ";"), (")", ";"), ("};", "{};"), ("{", "{}"), ("zundf;", "zi;"), ("zi zi;", "zi; zi;"), ("int;;, a;", "int a;"), ("asm(1);", "asm(\"nop\");"), ("asm(\"nop\";", "asm(\"nop\");"), ("asm;", "asm(\"nop\");"), ("@;", ";"), ("#;", ";"), ("\\;", ";"), ("/* ", "/* */"), ("zi /* */ zi;", "zi /* */;"), ("'a;", "'a';"), ("\"a;", "\"a\";"), ("''; ", "'a';"), ("typedef;", "typedef int zt9;"), ("static;", "static int zs9;"), ("int int a;", "int a;"), ("case;", ";"), ("while;", "while (0);"), ("for;", "for (;zi;);"), ("void f(void) { }", "void f(void);"), ("int f(int a) { return a; }", "int f(int a);"), ("sizeof(int;", "sizeof(int);"), ("void *a; *a;", "int *a; *a;"), ("void *a; a + 1;", "char *a; a + 1;"), ("void *a; a[0];", "char *a; a[0];"), ("void *a; a++;", "char *a; a++;"), ("void *a; *a = 1;", "char *a; *a = 1;"), ("int a; a();", "int a(); a();"), ("static int f(void);", "extern int f(void);"),
    ("int a; { int b; } b = 1;", "int a; { int b; } a = 1;"), ("for (zi = 0; zi; ) { int q; } q = 1;", "int q; for (zi = 0; zi; ) { int q; } q = 1;"), ("{ struct q { int m; }; } struct q v;", "struct q { int m; }; { struct q v; }"), ("{ enum { q }; } zi = q;", "enum { q }; { zi = q; }"), ("{ typedef int q; } q v;", "typedef int q; { q v; }"), ("int x[(zi, 3)];", "int x[3];"), ("int a = a2, a2 = 1;", "int a2 = 1, a = a2;"), ("int f9(int), a = f9();", "int f9(int), a = f9(2);"),
    ("{ int a = 5} ; }", "{ int a = 5; ; }"), ("{ int a = zi} z0(); }", "{ int a = zi; z0(); }"), ("{ int a = {5}} ; }", "{ int a = {5}; ; }"), ("{ int a = 5) ; }", "{ int a = 5; ; }"), ("{ int a = 5: ; }", "{ int a = 5; ; }"), ("{ struct zS a = zs} ; }", "{ struct zS a = zs; ; }"),
    ("{ int a[2] = {1}} ; }", "{ int a[2] = {1}; ; }"), ("{ static int a = 5} ; }", "{ static int a = 5; ; }"), ("for (int a = 5} a < 3;) ;", "for (int a = 5; a < 3;) ;"), ("{ int a} ; }", "{ int a; ; }"), ("{ int *a = &zi} ; }", "{ int *a = &zi; ; }"),
]
# statements whose validity depends on where they are
S_NOLOOP = [("break;", ";"), ("continue;", ";"), ("switch (zi) { case 1: continue; }", "switch (zi) { case 1: break; }"), ("case 1: ;", ";"), ("default: ;", ";"), ("if (zi) break;", "while (zi) break;"), ("{ continue; }", "while (zi) { continue; }")]
S_VOIDFN = [("return 1;", "return;"), ("return zi;", "return;"), ("return zs;", "return;"), ("return", "return;")]
S_INTFN = [("return zs;", "return zs.m;"), ("return zv();", "return z0();"), ("return (1;", "return (1);"), ("return zund;", "return zi;"), ("return 1", "return 1;")]
S_STRFN = [("return 1;", "return zs;"), ("return zt;", "return zs;"), ("return &zs;", "return zs;"), ("return zi;", "return *zsp;")]

# file scope: (bad, good)
F = [
    ("int zg; char zg;", "int zg; char zh;"), ("int zg; int *zg;", "int zg; int *zh;"), ("int zg(void); int zg;", "int zg(void); int zh;"), ("int zg; int zg(void);", "int zg; int zh(void);"), ("int zg(int); int zg(char);", "int zg(int); int zg(int);"), ("int zg(int); char zg(int);", "int zg(int); int zg(int);"), ("int zg(int); int zg(int, int);", "int zg(int); int zh(int, int);"), ("int zg(int, ...); int zg(int);", "int zg(int, ...); int zg(int, ...);"), ("int zg(void) { return 1; } int zg(void) { return 2; }", "int zg(void) { return 1; } int zg(void);"), ("int zg(int a) { return 1; } int zg(char *a);", "int zg(int a) { return 1; } int zg(int b);"), ("int zg(int); int zg(char *a) { return 1; }", "int zg(int); int zg(int a) { return 1; }"), ("int zg[3]; int zg[4];", "int zg[3]; int zh[4];"), ("extern int zg; extern char zg;", "extern int zg; extern int zg;"), ("int zg = 1; int zg = 2;", "int zg = 1; int zh = 2;"), ("typedef int zt1; typedef char zt1;", "typedef int zt1; typedef char zt2;"), ("typedef int zt1; int zt1;", "typedef int zt1; zt1 zv1;"), ("int zt1; typedef int zt1;", "int zt1; typedef int zt2;"), ("enum { zq }; int zq;", "enum { zq }; int zr;"), ("enum { zq }; enum { zq };", "enum { zq }; enum { zr };"), ("int zq; enum { zq };", "int zq; enum { zr };"), ("struct zQ { int a; }; struct zQ { int a; };", "struct zQ { int a; }; struct zR { int a; };"), ("struct zQ { int a; }; union zQ zv1;", "struct zQ { int a; }; struct zQ zv1;"), ("enum zQ { zq }; enum zQ { zr };", "enum zQ { zq }; enum zR { zr };"), ("struct zQ; union zQ { int a; };", "struct zQ; struct zQ { int a; };"),
    ("int zg[0];", "int zg[1];"), ("int zg[-2];", "int zg[2];"), ("int zg[zi];", "int zg[4];"), ("void zg;", "int zg;"), ("extern void zg[2];", "extern int zg[2];"), ("struct zI zg;", "struct zI *zg;"), ("struct zNo zg;", "struct zNo *zg;"), ("int zg()[2];", "int *zg();"), ("int zg[2]();", "int (*zg[2])();"), ("int zg()();", "int (*zg())();"), ("int zg[2][];", "int zg[2][2];"), ("void zg[];", "extern int zg[];"),
    ("int zg(int a, int a) { return a; }", "int zg(int a, int b) { return a; }"), ("int zg(int) { return 1; }", "int zg(int a) { return 1; }"), ("int zg(int a, char) { return a; }", "int zg(int a, char b) { return a; }"), ("int zg(void, int);", "int zg(int);"), ("int zg(int, void);", "int zg(int, int);"), ("int zg(void a);", "int zg(void);"), ("int zg(...);", "int zg(int, ...);"), ("int zg(int, ..., int);", "int zg(int, ...);"), ("int zg(int,);", "int zg(int, int);"), ("int zg(,int);", "int zg(int);"), ("int zg(int a b);", "int zg(int a, int b);"), ("int zg(int a;", "int zg(int a);"), ("int zg(struct zI a) { return 1; }", "int zg(struct zI *a) { return 1; }"), ("struct zI zg(void) { }", "struct zI *zg(void) { return 0; }"), ("int zg(int a = 5);", "int zg(int a);"), ("int zg(static int a);", "int zg(int a);"), ("int zg(extern int a);", "int zg(int a);"), ("int zg(typedef int a);", "int zg(int a);"), ("int zg(a) { return 1; }", "int zg(int a) { return 1; }"), ("int zg() return 1; }", "int zg() { return 1; }"), ("int zg = 5 { }", "int zg = 5;"), ("int zg(void) = 5;", "int zg(void);"), ("int zg(int a) { int a; return a; }", "int zg(int a) { int b; return a; }"), ("int zg(int a) { char a; return a; }", "int zg(int a) { { char a; } return a; }"), ("int (*zg)(int) { return 1; }", "int zg(int a) { return 1; }"), ("int zg[2] { return 1; }", "int zg[2];"), ("typedef int zg(void) { return 1; }", "typedef int zg(void);"),
    ("int zg(void) { return 1;", "int zg(void) { return 1; }"), ("int zg(void) return 1;", "int zg(void) { return 1; }"), ("int zg", "int zg;"), ("zg;", "int zg;"), ("zi = 5;", "int zg = 5;"), ("z0();", "int zg = 5;"), ("if (1) ;", "int zg;"), ("return;", "int zg;"), ("{ }", "int zg;"), ("}", "int zg;"), (")", "int zg;"), ("]", "int zg;"), ("(", "int zg;"), ("5;", "int zg;"), ("+;", "int zg;"), ("int zg = zi;", "int zg = 5;"), ("int zg = z0();", "int zg = 5;"), ("int *zg = zi;", "int *zg = &zi;"), ("int zg = *zp;", "int zg = 3;"), ("int zg = za[1];", "int *zg = &za[1];"), ("int zg = zi + 1;", "int *zg = &zi + 1;"), ("int zg = { 1, 2 };", "int zg = { 1 };"), ("int zg[2] = { 1, 2, 3 };", "int zg[2] = { 1, 2 };"), ("int zg[2] = 1;", "int zg[2] = { 1 };"), ("char zg[2] = \"abc\";", "char zg[2] = \"ab\";"), ("char *zg = { \"a\", \"b\" };", "char *zg = { \"a\" };"), ("int zg[] = \"abc\";", "char zg[] = \"abc\";"), ("struct zS zg = 5;", "struct zS zg = { 5 };"), ("struct zT zg = { 1, 2 };", "struct zT zg = { 1 };"), ("struct zS zg = zs;", "struct zS *zg = &zs;"), ("union zU zg = { 1, 2 };", "union zU zg = { 1 };"), ("typedef int zg = 5;", "typedef int zg;"), ("int zg = ;", "int zg = 1;"), ("int zg = 1 2;", "int zg = 1 - 2;"), ("int zg = zundd;", "int zg = zE2;"), ("int zg[] = {};", "int zg[] = { 0 };"), ("int zg[2] = { 1, };x", "int zg[2] = { 1, };"), ("struct zT zg = { zi };", "struct zT zg = { 4 };"), ("int zg = 1 / 0;", "int zg = 0 / 1;"), ("int zg = 1 % 0;", "int zg = 0 % 1;"), ("int zg = sizeof(struct zI);", "int zg = sizeof(struct zS);"), ("int zg = &zi * 2;", "int *zg = &zi + 2;"), ("struct zS zg = { 1, 2, 3, 4, 5, 6 };", "struct zS zg = { 1, 2, 3, 4, 5 };"), ("int *zg[2] = { &zi, zi };", "int *zg[2] = { &zi, 0 };"), ("int zg = (zi, 1);", "int zg = 1;"), ("int zg = zi++;", "int zg = 1;"), ("int zg = (zi = 1);", "int zg = 1;"), ("int zg = zi ? 1 : 2;", "int zg = 1 ? 1 : 2;"),
    ("static extern int zg;", "static int zg;"), ("char int zg;", "char zg;"), ("unsigned signed zg;", "unsigned zg;"), ("struct zg;x", "struct zg;"), ("struct { int a; int; } zg;", "struct { int a; int b; } zg;"), ("struct { } zg;", "struct { int a; } zg;"), ("struct zQ { struct zQ a; };", "struct zQ { struct zQ *a; };"), ("struct zQ { void a; };", "struct zQ { void *a; };"), ("struct zQ { int a(void); };", "struct zQ { int (*a)(void); };"), ("struct zQ { int a[]; };", "struct zQ { int a[2]; };"), ("struct zQ { int a = 1; };", "struct zQ { int a; };"), ("struct zQ { int a }", "struct zQ { int a; };"), ("struct zQ { int a; char a; };", "struct zQ { int a; char b; };"), ("struct zQ { int a, a; };", "struct zQ { int a, b; };"), ("struct zQ { int a; struct { int a; }; };", "struct zQ { int a; struct { int a; } b; };"), ("enum { zq = zi };", "enum { zq = 2 };"), ("enum { };", "enum { zq };"), ("enum zQ;x", "enum zQ { zq };"), ("enum { zq = \"a\" };", "enum { zq = 'a' };"), ("int zg(void) { return 1; };x", "int zg(void) { return 1; }"), ("int @;", "int zg;"), ("int zg'a';", "int zg;"), ("int zg, ;", "int zg, zh;"), ("int zg zh;", "int zg, zh;"), ("int 3zg;", "int zg3;"), ("int while;", "int zWhile;"), ("int zg[2;", "int zg[2];"), ("int (zg;", "int (zg);"), ("asm(int);", "asm(\"; nothing\");"), ("int zg[3], zg2[zg];", "int zg[3], zg2[sizeof(zg)];"), ("int zg[1 / 0];", "int zg[1 / 1];"), ("enum { zq = 1 / 0 };", "enum { zq = 1 / 1 };"), ("int zg[1 % 0];", "int zg[3 % 2];"),
    ("void zg(void) { L: ; } void zh(void) { goto L; }", "void zg(void) { L: ; } void zh(void) { goto L; L: ; }"), ("void zg(void) { int zloc; } int *zh = &zloc;", "int zloc; void zg(void) { int zloc; } int *zh = &zloc;"),
]
# directives, each on its own lines: (bad, good)
P = [
    ("#else", "#ifdef zz\n#else\n#endif"), ("#endif", "#ifdef zz\n#endif"), ("#ifdef zz\n#else\n#else\n#endif", "#ifdef zz\n#else\n#endif"), ("#ifdef zz", "#ifdef zz\n#endif"), ("#ifndef zz", "#ifndef zz\n#endif"), ("#frobnicate", "#"), ("#define zM 1\n#define zM 2", "#define zM 1\n#undef zM\n#define zM 2"), ("#include \"nosuchfile.h\"", "#ifdef zz\n#include \"nosuchfile.h\"\n#endif"), ("#include", "#ifdef zz\n#endif"), ("#ifdef", "#ifdef zz\n#endif"), ("#define", "#define zM2"), ("#undef", "#undef zM9"), ("#define 5", "#define z5"), ("#ifdef 5\n#endif", "#ifdef z5\n#endif"), ("#error bad", ""), ("#line", "#ifdef zz\n#line 5\n#endif"), ("#include <nosuchsys.h>", ""), ("#pragma pack(3)", "#pragma pack(2)"), ("#pragma pack(pop)", "#pragma pack(push)\n#pragma pack(pop)"), ("#pragma pack(push, 1", "#pragma pack(push, 1)\n#pragma pack(pop)"), ("#ifdef zz\n#endif\n#endif", "#ifdef zz\n#endif"), ("#ifndef zz\n#endif zz\n#else", "#ifndef zz\n#endif"),
]
