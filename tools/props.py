#!/usr/bin/env python3
"""Source of properties.jsonl (run to regenerate it)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, observe=None):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": ["v0100/" + f for f in files], "mechanism": [{"name": n, "where": "v0100/" + w} for n, w in mech],
                          "observe_at": observe or [], "hook_needed": None}})


SAMP = "The repository's tests are fixed programs written once; "

p("C01", "Run-time integer expressions have C's values and effects (32-bit x86)",
  "For every valid C expression of integer type without undefined behaviour, over operands of any integer type and any kind of storage (global, static, "
  "local, parameter, array element, struct or union member, behind pointers), the 32-bit code the compiler generates yields exactly the value and type C requires "
  "and performs exactly its side effects, in every context that consumes it (assignment, argument, return, index, condition, switch).",
  ["programs", "inputs"], "all expression trees x operand types x storage kinds x values x consuming contexts",
  SAMP + "they reach a few operator/operand/type/register-pressure combinations out of an exponential space; code generation picks a different path for each.",
  ["smlrc.c", "cgx86.c"], [("expression parser and type promotion", "smlrc.c:ParseExpr, exprval"), ("x86 code generation", "cgx86.c:GenExpr"), ("operand fusion", "cgx86.c:GenFuse")])

p("C02", "Compile-time constant evaluation agrees with C and with run time",
  "For every integer constant expression without undefined behaviour, the value the compiler computes when it translates the program is the value C requires, "
  "wherever the constant is used: static initializers, array dimensions, enumerators, case labels, conditions, local initializers and folded subexpressions of larger run-time expressions.",
  ["programs", "configurations"], "all constant expressions over all integer types and operators, in every constant context and for 16- and 32-bit int",
  SAMP + "folding is a second implementation of every operator (signedness, width truncation, short-circuit, division rules) and the tests check a handful of constants.",
  ["smlrc.c"], [("constant folding", "smlrc.c:exprval, simplifyConstExpr, divCheckAndCalc"), ("truncation to target int", "smlrc.c:truncInt, truncUint")])

p("C03", "Whole programs behave as C requires: statements, calls, recursion, control flow",
  "Every valid program without undefined behaviour that the compiler accepts, made of any nesting of if/else, while, do, for, switch (with fallthrough, nested and out-of-order cases), "
  "break, continue, goto, return, recursion, calls through pointers and variadic calls, performs exactly the sequence of observable actions C requires.",
  ["programs", "inputs"], "all programs built from the supported statements, declarations and calls, to any nesting depth",
  SAMP + "control-flow lowering, stack-frame layout and register saving interact across constructs, and only a few interactions occur in the tests.",
  ["smlrc.c", "cgx86.c"], [("statement parser", "smlrc.c:ParseStatement, ParseBlock"), ("switch lowering", "smlrc.c:AddCase, ParseStatement"), ("frames", "cgx86.c:GenFxnProlog, GenFxnEpilog")])

p("C04", "Types have the right size, alignment, member offsets and array strides",
  "For every declarable type (nested structs, unions, arrays, pointers, function pointers, enums, typedefs, under any #pragma pack nesting), sizeof, member offsets, "
  "array strides and pointer arithmetic agree with the 32-bit System V ABI layout, and distinct members of a struct never overlap.",
  ["programs"], "all declarations built from the supported declarators, aggregates and packing states",
  SAMP + "layout is computed recursively from declaration nesting; tests check isolated structures.",
  ["smlrc.c"], [("sizes and alignment", "smlrc.c:GetDeclSize, GetDeclAlignment"), ("declarator parser", "smlrc.c:ParseDecl, ParseDerived, ParseArrayDimension"), ("#pragma pack", "smlrc.c:GetToken")])

p("C05", "Initialized objects start with exactly the specified bytes",
  "Every object with an initializer (nested and partially braced aggregates, omitted braces and elements, unsized arrays, strings, addresses with offsets, functions; static or automatic) "
  "starts with exactly the value C requires in every member, every element without an initializer is zero, and sizes of unsized arrays follow from their initializers.",
  ["programs"], "all initializers of all aggregate shapes, at file scope, static local and automatic",
  SAMP + "brace elision and zero filling depend on the whole type tree.",
  ["smlrc.c"], [("initializers", "smlrc.c:InitVar, InitScalar, InitArray, InitStruct"), ("data emission", "cgx86.c:GenIntData, GenZeroData, GenAddrData")])

p("C06", "Structures and unions are copied whole, by value",
  "Assigning, passing, returning and selecting structures or unions of any size through any lvalue copies exactly their bytes, leaves source and neighbouring memory "
  "unchanged, and never aliases a callee's copy with the caller's object.",
  ["programs", "inputs"], "all structure sizes, nestings, copy forms (assignment chains, arguments among other arguments, returned values used in place)",
  SAMP + "copy code depends on size, position and expression shape.",
  ["smlrc.c", "cgx86.c"], [("structure assignment, passing and returning", "smlrc.c:expr, exprval; cgx86.c:GenExpr")])

p("C07", "Pointer, array and function-pointer operations follow C",
  "Every chain of indexing, dereference, address-of, member access, pointer arithmetic, difference and comparison, and every call through a function pointer, designates the object or function "
  "C requires, for any element type, dimension and nesting, and reads or writes only that object.",
  ["programs", "inputs"], "all access paths through randomly shaped data (multi-dimensional arrays, structs of arrays, pointers to pointers, function-pointer tables)",
  SAMP + "scaling and decay depend on the whole declared type.",
  ["smlrc.c", "cgx86.c"], [("dereference and decay", "smlrc.c:decayArray, derefAnyPtr"), ("address arithmetic", "smlrc.c:expr, exprval")])

p("C08", "Single-precision float arithmetic, conversions and comparisons are IEEE-exact",
  "Every float addition, subtraction, multiplication, division, negation, comparison, logical test and conversion between float and any integer type, folded or at run time, gives the IEEE-754 "
  "single-precision result, and float variables, parameters, returns and constants keep their exact value.",
  ["programs", "inputs"], "all float operand values (including denormals, infinities, NaNs, signed zeros) and expression shapes",
  SAMP + "there are 2^32 operand values per operand and the compiler evaluates constants with a software implementation of its own.",
  ["smlrc.c", "fp.c", "cgx86.c"], [("constant folding of floats", "fp.c:fpadd, fpsub, fpmul, fpdiv"), ("run-time float code", "cgx86.c:GenExpr"), ("float constants", "smlrc.c:GetNumber")])

p("C09", "16-bit code (tiny and small models) computes what C requires",
  "For every valid integer expression over 16-bit int, its 8- and 16-bit types and any storage, the tiny- and small-model code generated for DOS yields exactly the values and side effects C requires with 16-bit int.",
  ["programs", "inputs"], "all expression trees x types x storage x values x contexts, 16-bit targets",
  SAMP + "the 16-bit code generator has its own instruction selection and truncation rules.",
  ["smlrc.c", "cgx86.c"], [("16-bit code generation", "cgx86.c:GenExpr"), ("16-bit truncation", "smlrc.c:truncInt, truncUint")])

p("C10", "Huge- and unreal-model code computes what C requires",
  "For every valid integer expression and any storage, the 32-bit-in-real-mode code generated for the huge and unreal memory models yields exactly the values and side effects C requires, including "
  "accesses through pointers anywhere in memory and across 64 KB boundaries.",
  ["programs", "inputs"], "all expression trees x types x storage x values x contexts, and all data placements, huge and unreal models",
  SAMP + "these models address memory by a different mechanism per access, and relocate every address at start-up.",
  ["smlrc.c", "cgx86.c", "smlrl.c", "srclib/c0dh.asm", "srclib/c0du.asm"], [("far access code", "cgx86.c:GenExpr"), ("start-up relocation", "srclib/c0dh.asm, c0du.asm"), (".relod/.relot", "cgx86.c; smlrl.c:Pass")])

p("C11", "MIPS code computes what C requires",
  "For every valid integer expression, statement nest and structure copy, over any storage, the code generated for MIPS yields exactly the values and side effects C requires.",
  ["programs", "inputs"], "all expression trees x types x storage x values x contexts, MIPS target",
  SAMP + "register stack spilling and delay-slot-free code depend on expression depth and call nesting.",
  ["smlrc.c", "cgmips.c"], [("MIPS code generation", "cgmips.c:GenExpr")])

p("C12", "Literals have exactly the value their spelling denotes",
  "Every integer, character and string literal - any base, suffix, escape sequence, concatenation, wide prefix and char signedness - has exactly the value, type, length and bytes C assigns to its spelling, "
  "both in generated code and in preprocessor conditions, and out-of-range ones are diagnosed.",
  ["inputs", "configurations"], "all spellings of literals, for narrow and wide characters of each configured width",
  SAMP + "tests sample a few escapes and suffixes.",
  ["smlrc.c"], [("number scanner", "smlrc.c:GetNumber"), ("character and string scanner", "smlrc.c:GetCharValue, GetString")])

p("C13", "Invalid programs are rejected with a diagnostic, never silently compiled",
  "A program with a violation of C's constraints that the compiler checks (undeclared or redeclared names, type mismatches, non-lvalues, wrong argument counts, bad cases, jumps and labels, incomplete types, "
  "malformed literals, syntax errors) is rejected with an error naming the file and line and a failing exit status, wherever in an otherwise valid program the violation occurs.",
  ["programs"], "all positions of all checked violations in all surrounding programs",
  SAMP + "negative tests are very few and each violation is tried in one place at most.",
  ["smlrc.c"], [("checks", "smlrc.c:lvalueCheck, compatCheck, CheckRedecl, scalarTypeCheck, error")])

p("C14", "The compiler never crashes, hangs or corrupts memory on any input",
  "On any byte sequence given as source, with any options, the compiler terminates in bounded time with either a successful result or a diagnosed error and a failing exit status; it never reads or writes outside its buffers.",
  ["inputs", "configurations"], "all source texts and option lists",
  SAMP + "all well formed; fixed-size tables and hand-written scanners are exercised far from their limits.",
  ["smlrc.c", "cgx86.c", "cgmips.c"], [("bounds checks", "smlrc.c:AddIdent, PushSyntax, push2, GetString, GetIdent, AddMacroExpansionChar")])

p("C15", "Options that only add output or move labels never change what programs do",
  "Diagnostic, annotation, labelling and placement options (warnings, verbosity, label numbering, global-name prefixing, bss on or off, externs on or off) never change the meaning of the "
  "generated code, and the char-signedness option changes exactly the signedness of plain char.",
  ["programs", "configurations"], "all programs x all combinations of these options",
  SAMP + "each run with one option set.",
  ["smlrc.c", "cgx86.c", "cgmips.c"], [("option parsing", "smlrc.c:main; cgx86.c:GenInitParams"), ("bss and externs", "cgx86.c:GenFin, GenZeroData")])

p("C16", "The compiler compiles itself faithfully",
  "The compiler, preprocessor, linker and driver built by this compiler give byte-identical outputs, messages and exit codes to the ones built by the host compiler, on every input.",
  ["programs", "inputs"], "all inputs of the tools, valid and invalid",
  "The bootstrap tests compare the tools on their own sources only.",
  ["smlrc.c", "cgx86.c", "cgmips.c", "smlrl.c", "srclib"], [("whole tool chain", "smlrc.c; cgx86.c; smlrl.c; srclib")])

p("C17", "Names resolve to the declaration C's scope rules select",
  "In every arrangement of scopes, every use of an identifier, tag, enumerator, typedef name or label designates the innermost visible declaration of the right name space, shadowing ends with its block, and static and extern "
  "declarations designate the same object across scopes and files.",
  ["programs"], "all nestings of declarations of all kinds sharing names",
  SAMP + "symbol tables are flat arrays unwound at block end; only simple shadowing is tested.",
  ["smlrc.c"], [("lookup and unwinding", "smlrc.c:FindSymbol, FindTaggedDecl, FindTypedef, DeleteSyntax, UndoNonLabelIdents")])

p("C19", "Functions follow the documented calling convention and interoperate",
  "Code of this compiler and code of another compiler that keeps to the documented stack-based convention (x86: everything on the stack, first argument lowest, the caller cleans up, results in eax; MIPS: the first four words in a0-a3 with stack space reserved, results in v0; "
  "structures passed as whole words and returned through a hidden first argument) can call each other with any list of integer, pointer, float, structure and variable arguments: arguments and results arrive intact, the stack and frame pointers come back as they were, and nothing depends on the registers a call may change.",
  ["programs", "inputs"], "all signatures, argument values and call nestings in both directions",
  SAMP + "they only link the compiler's own output.",
  ["smlrc.c", "cgx86.c", "cgmips.c", "include/stdarg.h"], [("argument passing and return", "cgx86.c, cgmips.c:GenExpr, GenFxnProlog, GenFxnEpilog"), ("va_arg", "include/stdarg.h")])

p("P01", "The preprocessor expands macros as the C standard prescribes",
  "For every set of object- and function-like macros (nested, recursive, variadic, with # and ##, empty and parenthesized arguments, redefinition and #undef) the preprocessor's output is the token sequence the C standard prescribes.",
  ["inputs", "programs"], "all sets of macro definitions and uses",
  SAMP + "the preprocessor has no tests of its own in the suite.",
  ["ucpp/macro.c", "ucpp/lexer.c", "ucpp/cpp.c"], [("macro replacement", "ucpp/macro.c:substitute_macro")])

p("P02", "Conditional compilation selects exactly the right text",
  "Every #if/#elif expression is evaluated with C's precedence, signedness, short-circuiting and undefined-name rules, and nested #if/#ifdef/#elif/#else/#endif keep exactly the groups the standard selects, skipping the rest whatever it contains.",
  ["inputs", "programs"], "all conditional expressions and group nestings",
  SAMP + "no tests for it in the suite.",
  ["ucpp/eval.c", "ucpp/cpp.c", "ucpp/arith.c"], [("#if evaluation", "ucpp/eval.c:eval_expr"), ("group skipping", "ucpp/cpp.c:handle_cpp")])

p("P03", "Source positions survive preprocessing",
  "Through any mix of comments, line splices, includes, multi-line macro calls, conditionals and #line, the file name and line number reported for each token (by __LINE__, __FILE__ and compiler diagnostics) are those of the original source.",
  ["inputs"], "all layouts of a source over lines, files and directives",
  SAMP + "no test looks at positions.",
  ["ucpp/cpp.c", "ucpp/lexer.c", "smlrc.c"], [("line tracking", "ucpp/cpp.c; smlrc.c:GetToken")])

p("P04", "The compiler's built-in preprocessor agrees with the full one",
  "On source that uses only the directives the built-in preprocessor documents (simple object-like #define, #undef, #ifdef, #ifndef, #else, #endif, #include), compiling with it or through the full preprocessor gives the same program.",
  ["programs", "inputs"], "all programs in the common subset",
  SAMP + "the tests always go through the full one.",
  ["smlrc.c", "ucpp"], [("built-in preprocessor", "smlrc.c:GetTokenInner, DefineMacro, IncludeFile, pushPrep")])

p("P05", "The preprocessor never crashes, hangs or corrupts memory on any input",
  "On any byte sequence the preprocessor terminates in bounded time with output or a diagnosed error, and never accesses memory outside its objects.",
  ["inputs"], "all source texts and option lists", SAMP + "all well formed.",
  ["ucpp/cpp.c", "ucpp/lexer.c", "ucpp/macro.c", "ucpp/eval.c"], [("lexer automaton and buffers", "ucpp/lexer.c; ucpp/macro.c")])

p("P06", "Every #include brings in exactly the file and text it names",
  "For every tree of files, search options and chain of #include directives, each #include reads the file the documented search order designates, and its text is processed completely at every inclusion: "
  "only text inside a guard whose macro is defined at that moment is left out.",
  ["inputs", "configurations"], "all file trees, search paths, include graphs and guard shapes",
  SAMP + "the preprocessor caches file names and guards, and no test has two files of one name or a guard that is not one.",
  ["ucpp/cpp.c", "smlrc.c"], [("file search and guard cache", "ucpp/cpp.c:find_file, find_file_next"), ("built-in include", "smlrc.c:IncludeFile")])

p("L01", "Every reference resolves to its symbol's final address",
  "In every linked executable, each relocated field (absolute or PC-relative, 16 or 32 bits, with any addend, in code or data, local or global symbol, across objects) holds exactly the value the final addresses of the "
  "defining section or symbol require (modulo the width of the field), and no other byte changes; relocations of any other kind are an error.",
  ["programs", "inputs"], "all sets of objects, sections, symbols and relocations",
  SAMP + "they exercise the relocations compilers emit for a few programs.",
  ["smlrl.c"], [("relocation", "smlrl.c:Relocate, RelocateAndWriteSection"), ("symbol search", "smlrl.c:FindSymbolAddress, FindSymbolByName")])

p("L02", "All output formats carry the same program",
  "For the same objects, each executable format the linker writes (ELF, PE, Mach-O, a.out, flat and DOS formats) has self-consistent headers that a loader accepts, and the image loaded from it contains "
  "the same sections with the same contents and behaves the same when run.",
  ["programs", "configurations"], "all object sets x all output formats and header options",
  "Windows, Mac and DPMI executables are never run by the tests here; others are run for fixed programs.",
  ["smlrl.c"], [("format writers", "smlrl.c:RwElf, RwPe, RwMach, RwAout, RwDosExe, RwFlat")])

p("L03", "Archives contribute exactly the members a program needs",
  "When libraries are linked, exactly the members reachable from the entry point through undefined references are included, whatever their order, dependency cycles and command-line order, and adding members or libraries that are not needed changes nothing.",
  ["programs", "inputs"], "all dependency graphs over objects and archive members and all command-line orders",
  SAMP + "they use one library in one order.",
  ["smlrl.c"], [("archive scan and on-demand loading", "smlrl.c:loadMeta, FindAllSymbols, FindSymbolByName")])

p("L04", "Undefined and duplicate symbols are always errors",
  "A link in which a needed symbol is undefined, or two needed objects define the same global symbol, or the entry point is missing, always fails with a message naming the symbol and a failing status, and leaves no output that looks complete; otherwise it succeeds.",
  ["programs", "inputs"], "all object sets and reference graphs", SAMP + "no negative link tests.",
  ["smlrl.c"], [("checks", "smlrl.c:CheckDuplicates, FindAllSymbols")])

p("L05", "Sections are merged, ordered and aligned as documented",
  "Input sections of one name form one contiguous output section in input order with each piece aligned as requested, code before read-only before writable before uninitialized, __start_/__stop_ symbols "
  "bound them exactly, uninitialized data reads as zero, and the map file reports the true addresses.",
  ["programs", "configurations"], "all section names, attributes, sizes, alignments and orders", SAMP + "layout is only checked indirectly.",
  ["smlrl.c"], [("layout", "smlrl.c:FindAllSections, SectDescCmp, Pass"), ("map", "smlrl.c:GenerateMap")])

p("L06", "Relocatable executables work at any load address",
  "For every program, applying the relocation tables stored in an executable (PE base relocations, a.out records and the unreal table) for another load address yields exactly the image that linking at that address yields.",
  ["programs", "configurations"], "all programs x all load addresses", "The tests never load an image anywhere but at its preferred address.",
  ["smlrl.c"], [("relocation tables", "smlrl.c:RwPe, RwAout, RwDosExe, Pass")])

p("L07", "PE imports name exactly the functions the program uses",
  "For every set of imported DLL functions, the PE import table lists each used DLL and function once, correctly terminated and addressed, so that a loader binds each thunk to its function and no other.",
  ["programs"], "all sets of DLLs and functions", "PE output is never loaded by the tests.",
  ["smlrl.c", "cgx86.c"], [("import table", "smlrl.c:RwPe, SectDescCmp"), ("dll_import sections", "srclib/dimports.c, kernel32")])

p("L08", "The linker rejects malformed objects and archives without misbehaving",
  "On any file given as object or archive the linker terminates in bounded time with an executable or a diagnosed error and failing status, and never accesses memory outside its objects.",
  ["inputs"], "all byte sequences as inputs", SAMP + "no malformed input.",
  ["smlrl.c"], [("object and archive loader", "smlrl.c:loadElfObj, loadMeta")])

p("D01", "One driver command equals the steps it stands for",
  "Building any set of sources in one driver command produces the same executable as preprocessing, compiling, assembling and linking them step by step, in any grouping, with any combination of -c, -S, -o, -D, -I, -SI, -asm, -map, -nopp and target options.",
  ["configurations", "programs"], "all source sets, groupings and option combinations", SAMP + "one fixed command line per test.",
  ["smlrcc.c"], [("stages", "smlrcc.c:Compile, Link, main")])

p("D02", "Archives made by the driver return their members unchanged",
  "An archive created from any list of object files contains exactly their names and bytes in order, in the format other tools and the linker read, so that linking the archive equals linking the needed objects.",
  ["inputs"], "all lists of files, names and sizes", SAMP + "libraries are made once from one list.",
  ["smlrcc.c", "smlrl.c"], [("archiver", "smlrcc.c:Archive")])

p("D03", "A failing step fails the command and leaves nothing behind",
  "If any step of a driver command fails, whatever the step and whichever source, the command fails with a non-zero status, produces no executable, and temporary files are deleted; when all succeed only the requested outputs remain.",
  ["fault_sequences", "configurations"], "all failing steps x all option combinations", SAMP + "almost all steps succeed.",
  ["smlrcc.c"], [("System, DeleteTemporaryFiles", "smlrcc.c:System, DeleteTemporaryFiles")])

p("D04", "Arguments reach the tools unaltered",
  "File names, macro definitions and options - given directly, where they may contain spaces, quotes, backslashes or shell-special characters, or as the white-space-separated words of @file response files - reach the invoked tools exactly as given.",
  ["inputs"], "all argument strings and response-file layouts", SAMP + "plain arguments only.",
  ["smlrcc.c", "smlrl.c"], [("escaping", "smlrcc.c:Escape, AddOption"), ("response files", "smlrcc.c:fatargs; smlrl.c:fatargs")])

p("A01", "All supported assemblers give equivalent programs",
  "The compiler's assembly output assembles with nasm, yasm and (through the converter) fasm to programs with the same behaviour, for every program and x86 target.",
  ["programs", "configurations"], "all generated programs x assemblers", SAMP + "a fixed set.",
  ["n2f.c", "cgx86.c"], [("converter", "n2f.c:n2f, findFrags"), ("nasm syntax", "cgx86.c:GenPrintInstr")])

p("B01", "printf-family integer and string formatting follows C",
  "For every combination of flags, width, precision, length and conversion (d i u o x X c s p n %) and every argument, the library's printf family produces exactly the characters and return value C specifies, and snprintf never writes beyond its buffer.",
  ["inputs"], "all format strings and arguments", SAMP + "a few formats.", ["srclib/doprint.c", "srclib/vsnprint.c"], [("formatter", "srclib/doprint.c")])
p("B02", "printf-family floating formatting is exact",
  "For every float value, flags, width and precision, %e %f %g and their capitals print the correctly rounded decimal representation C specifies.",
  ["inputs"], "all 2^32 float values x formats", SAMP + "a few values.", ["srclib/doprint.c", "srclib/cvtfd.c"], [("float formatting", "srclib/doprint.c")])
p("B03", "scanf-family input conversion follows C",
  "For every format and input, the scanf family assigns the values, consumes the characters and returns the count C specifies, including scansets, widths, suppression, %n and matching failures, and never stores beyond a field width.",
  ["inputs"], "all formats and input texts", SAMP + "a few formats.", ["srclib/doscan.c"], [("scanner", "srclib/doscan.c")])
p("B04", "Number parsing accepts and converts exactly what C specifies",
  "strtol, strtoul, atoi, atol, strtof and strtod convert exactly the longest valid prefix, report the end position, and saturate with ERANGE out of range; parsed floats are correctly rounded.",
  ["inputs"], "all strings and bases", SAMP + "a few strings.", ["srclib/strtol.c", "srclib/strtoul.c", "srclib/strtod.c", "srclib/strtof.c"], [("conversion", "srclib/strtol.c, strtoul.c, strtod.c")])
p("B05", "String, memory and character functions follow C",
  "Every function of <string.h> and <ctype.h> returns the specified result for every argument and overlap the standard allows, and reads or writes nothing outside the specified ranges.",
  ["inputs", "histories"], "all buffers, alignments, lengths and overlaps", SAMP + "some functions, few inputs.", ["srclib/memmove.c", "srclib/strstr.c", "srclib/strtok.c", "srclib/ctype.c"], [("functions", "srclib/mem*.c, str*.c, is*.c")])
p("B06", "The heap hands out disjoint, aligned, preserved blocks",
  "Through any history of malloc, calloc, realloc and free, live blocks are aligned, never overlap, keep their contents (realloc preserves the common prefix, calloc zeroes), freed memory can be reused, and exhaustion returns NULL leaving existing blocks intact.",
  ["histories"], "all operation sequences and sizes", SAMP + "no allocation histories.", ["srclib/malloc.c", "srclib/realloc.c", "srclib/free.c", "srclib/calloc.c", "srclib/mm.h"], [("boundary-tag heap", "srclib/malloc.c, free.c, realloc.c")])
p("B07", "Streams behave as C's file model through any operation sequence",
  "Through any sequence of reads, writes, seeks, pushbacks, flushes, buffering changes and reopenings on any mode, every call returns what C specifies and the file ends with exactly the bytes the calls wrote.",
  ["histories"], "all operation sequences over files, modes and buffer settings", SAMP + "simple sequences.", ["srclib/fillbuf.c", "srclib/flushbuf.c", "srclib/fseek.c", "srclib/fread.c", "srclib/fwrite.c", "srclib/ungetc.c", "srclib/fopen.c", "srclib/istdio.h"], [("buffering", "srclib/fillbuf.c, flushbuf.c, fseek.c")])
p("B08", "qsort sorts and bsearch finds",
  "For every array, element size and consistent comparison, qsort leaves a sorted permutation of the elements and touches nothing else; bsearch returns an equal element exactly when one exists.",
  ["inputs"], "all arrays, element sizes and orders", SAMP + "one small case.", ["srclib/qsort.c", "srclib/bsearch.c"], [("sort", "srclib/qsort.c")])
p("B09", "Calendar functions convert times exactly",
  "gmtime, mktime, asctime, ctime, strftime and difftime convert every representable time, and normalize every in-range broken-down time, exactly as the Gregorian calendar and C specify; mktime inverts localtime.",
  ["inputs"], "all 2^32 times and broken-down inputs", SAMP + "one date.", ["srclib/bldtime.c", "srclib/brktime.c", "srclib/mktime.c", "srclib/strftime.c"], [("conversion", "srclib/bldtime.c, brktime.c")])
p("B10", "Math functions are accurate over the whole domain",
  "Every function of <math.h> returns, for every float argument, the true result to within rounding - for the functions built on 2^x, to within what single-precision reduction of the exponent leaves (a relative error proportional to the exponent's magnitude) - and exactly the C-specified result, with errno set on domain and pole errors, for the exact functions (ceil, floor, trunc, round, fabs, sqrt, fmod, modf, frexp, ldexp) and for special values (signed zeros, infinities, NaNs).",
  ["inputs"], "all float arguments", SAMP + "a few values.", ["srclib/x87.c", "srclib/pow.c", "srclib/fmod.c", "srclib/exp.c"], [("functions", "srclib/sin.c, pow.c, fmod.c, round.c")])
p("B12", "Process start-up, exit and non-local jumps follow C",
  "argc/argv arrive intact, atexit handlers run once in reverse order, streams are flushed on exit, the exit status is delivered, longjmp resumes the right setjmp with the right value and intact callers, and signals and abort terminate as specified.",
  ["histories", "inputs"], "all registration orders, jump nestings, argument lists and exit paths", SAMP + "one path each.", ["srclib/exit.c", "srclib/atexit.c", "srclib/longjmp.c", "srclib/c0.c", "srclib/c0l.asm", "include/setjmp.h"], [("termination", "srclib/exit.c, atexit.c"), ("jumps", "srclib/longjmp.c")])
p("B13", "Integer utility functions are exact",
  "div, ldiv, abs, labs, rand/srand and the library's 64-bit helper arithmetic give the exact specified results for every argument; rand sequences repeat for equal seeds and stay in range.",
  ["inputs"], "all argument values", SAMP + "few values.", ["srclib/div.c", "srclib/ldiv.c", "srclib/rand.c", "srclib/lngadd.c", "srclib/lngsl.c", "srclib/cvtdf.c", "srclib/cvtfd.c"], [("functions", "srclib/div.c, rand.c, lng*.c")])
p("B14", "Low-level file calls follow their flags and lose no byte",
  "Through any history of open, creat, read, write, lseek, __lseekp, unlink, isatty, fileno and close - any flags, modes, sizes (beyond 64 KB included) and addresses - every call returns what POSIX specifies, transfers exactly the bytes it reports and no others, and the files end with exactly the bytes written.",
  ["histories"], "all histories of descriptor calls, flags, sizes and addresses", SAMP + "none call them beyond one read or write.", ["srclib/open.c", "srclib/read.c", "srclib/write.c", "srclib/lseek.c", "srclib/lseek16.c", "srclib/close.c", "srclib/unlink.c", "srclib/isatty.c", "srclib/creat.c"], [("descriptor calls", "srclib/open.c, read.c, write.c, lseek.c")])
p("H01", "The standard headers describe the compiler and combine freely",
  "Any sequence and repetition of the standard headers compiles on every target and under every char and wchar_t option, with either preprocessor, and what they define agrees with what compiled code does: "
  "the ranges, sizes and signedness of the types and limits, constant and format macros, offsetof, wide strings, floating characteristics, operator spellings, assert as NDEBUG stands at each inclusion, and every declared function exists in the library.",
  ["programs", "configurations"], "all sequences of inclusions, targets, options and uses of what the headers define",
  SAMP + "they include a few headers in one order on one configuration.",
  ["include", "smlrc.c", "smlrcc.c", "srclib/localeco.c", "srclib/assert.c"], [("headers", "include"), ("predefined macros", "smlrc.c:main, smlrcc.c")])

p("X01", "The library behaves the same on every target",
  "A program that uses only the portable library produces the same output whichever supported memory model, object format and operating system it is built for.",
  ["programs", "configurations"], "all portable programs x targets", SAMP + "each target's tests run separate fixed programs; Windows, macOS and DPMI ones are never run.",
  ["srclib", "smlrcc.c", "smlrl.c"], [("library builds", "srclib/lc*.txt")])

if __name__ == "__main__":
    with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
        for x in P:
            f.write(json.dumps(x) + "\n")
