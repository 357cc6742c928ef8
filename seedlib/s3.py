from mk import mk, mkc
RND = '''
#include <stdio.h>
#include <stdlib.h>
#include "cudd.h"
#include "dddmp.h"
static unsigned long long s = 88172645463325252ULL;
static unsigned rnd(void) { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return (unsigned)(s >> 32); }
#define N 5
typedef unsigned tt;            /* truth table over N variables: bit m is the value at assignment m */
static DdNode *build(DdManager *d, tt t) {
    DdNode *r = Cudd_ReadLogicZero(d); Cudd_Ref(r);
    for (int m = 0; m < 32; m++) if (t >> m & 1) {
        DdNode *c = Cudd_ReadOne(d); Cudd_Ref(c);
        for (int i = 0; i < N; i++) { DdNode *v = Cudd_bddIthVar(d, i), *n = Cudd_bddAnd(d, c, Cudd_NotCond(v, !(m >> i & 1)));
            Cudd_Ref(n); Cudd_RecursiveDeref(d, c); c = n; }
        DdNode *n = Cudd_bddOr(d, r, c); Cudd_Ref(n); Cudd_RecursiveDeref(d, r); Cudd_RecursiveDeref(d, c); r = n;
    }
    return r;
}
static tt table(DdManager *d, DdNode *f) {
    tt r = 0;
    for (int m = 0; m < 32; m++) { int in[N]; for (int i = 0; i < N; i++) in[i] = m >> i & 1;
        if (Cudd_Eval(d, f, in) == Cudd_ReadOne(d)) r |= 1u << m; }
    return r;
}
'''
mkc("andabs-else", "C33", "the conjunction of two functions under existential quantification where the result of the then-branch is the complement of the second function's else-cofactor",
    "the shortcut returns the else-cofactor of the first function without quantifying it",
    [("lib/cudd-3.0.0/cudd/cuddAndAbs.c", "	    e = cuddBddExistAbstractRecur(manager, fe, Cube);", "	    e = fe;")],
    RND + '''
int main(void) {
    DdManager *d = Cudd_Init(N, 0, 256, 4096, 0);
    for (int k = 0; k < 20000; k++) {
        tt a = rnd() & rnd(), b = rnd(), want = 0; int q = rnd() % 32;
        if (k % 2) { a = rnd(); b &= rnd() | 0x55555555u; if (k % 4 == 3) b = ~a ^ (rnd() & rnd() & rnd()); }
        for (int m = 0; m < 32; m++) for (int n = 0; n < 32; n++) if (!((m ^ n) & ~q) && (a & b) >> n & 1) want |= 1u << m;
        DdNode *f = build(d, a), *g = build(d, b), *c = Cudd_ReadOne(d); Cudd_Ref(c);
        for (int i = 0; i < N; i++) if (q >> i & 1) { DdNode *n = Cudd_bddAnd(d, c, Cudd_bddIthVar(d, i)); Cudd_Ref(n); Cudd_RecursiveDeref(d, c); c = n; }
        DdNode *r = Cudd_bddAndAbstract(d, f, g, c); Cudd_Ref(r);
        if (table(d, r) != want) { printf("FAIL: exists %x. %08x & %08x\\n", q, a, b); return 1; }
        Cudd_RecursiveDeref(d, f); Cudd_RecursiveDeref(d, g); Cudd_RecursiveDeref(d, c); Cudd_RecursiveDeref(d, r);
    }
    puts("ok"); return 0;
}
''')
mkc("leq-unless-swap", "C32", "the comparison of two functions outside a set when both the second function and the set are complemented edges and lie in a certain order in memory",
    "the operands are not exchanged consistently, so Cudd_bddLeqUnless answers for other functions",
    [("lib/cudd-3.0.0/cudd/cuddSat.c", "	    } else {\n		f = Cudd_Not(tmp);\n	    }\n	} else {\n	    if (Cudd_IsComplement(f)) {\n		/* !D <= !f",
      "	    }\n	} else {\n	    if (Cudd_IsComplement(f)) {\n		/* !D <= !f")],
    RND + '''
int main(void) {
    DdManager *d = Cudd_Init(N, 0, 256, 4096, 0);
    for (int k = 0; k < 20000; k++) {
        tt a = rnd() & rnd() & rnd(), b = rnd() | rnd(), c = rnd();
        if (k % 2) c |= a & ~b;
        DdNode *f = build(d, a), *g = build(d, b), *h = build(d, c);
        if (Cudd_bddLeqUnless(d, f, g, h) != !(a & ~b & ~c)) { printf("FAIL: %08x <= %08x unless %08x\\n", a, b, c); return 1; }
        Cudd_RecursiveDeref(d, f); Cudd_RecursiveDeref(d, g); Cudd_RecursiveDeref(d, h);
    }
    puts("ok"); return 0;
}
''')
mkc("weakdiv-dc", "C39", "weak division of covers by a divisor with a cube without the top variable when the dividend has none",
    "cubes of the divisor that do not mention the top variable are ignored, so the quotient is too large",
    [("lib/cudd-3.0.0/cudd/cuddZddFuncs.c", "    if (gd != zero) {\n	tmp = cuddZddWeakDiv(dd, fd, gd);", "    if (gd != zero && fd != zero) {\n	tmp = cuddZddWeakDiv(dd, fd, gd);")],
    '''
#include <stdio.h>
#include "cudd.h"
static DdNode *cube(DdManager *z, const char *p) {   /* cover variable i: ZDD variables 2i (positive), 2i+1 (negative) */
    DdNode *f = Cudd_ReadZddOne(z, 0); int n = Cudd_ReadZddSize(z);
    /* the family with one set */
    DdNode *r; f = Cudd_ReadOne(z); Cudd_Ref(f);
    for (; *p; p++) { r = Cudd_zddChange(z, f, *p - '0'); Cudd_Ref(r); Cudd_RecursiveDerefZdd(z, f); f = r; }
    return f;
}
static DdNode *un(DdManager *z, DdNode *a, DdNode *b) { DdNode *r = Cudd_zddUnion(z, a, b); Cudd_Ref(r); return r; }
int main(void) {
    DdManager *z = Cudd_Init(3, 6, 256, 4096, 0);
    DdNode *f = cube(z, "02"), *g = un(z, cube(z, "0"), cube(z, "4"));     /* f = a b, g = a + c: nothing divides */
    DdNode *q = Cudd_zddWeakDiv(z, f, g);
    if (q != Cudd_ReadZero(z)) { puts("FAIL: a b / (a + c) is not empty"); return 1; }
    q = Cudd_zddWeakDivF(z, f, g);
    if (q != Cudd_ReadZero(z)) { puts("FAIL: a b / (a + c) is not empty (2)"); return 1; }
    DdNode *h = un(z, cube(z, "02"), cube(z, "24"));
    q = Cudd_zddWeakDiv(z, h, g); Cudd_Ref(q);
    if (q != cube(z, "2")) { puts("FAIL: (a b + b c) / (a + c) is not b"); return 1; }
    puts("ok"); return 0;
}
''')
mkc("window3-size", "C36", "window permutation of three variables when the third order is better than the first and a later one is better than the first but worse than the third",
    "the best size is not updated, so a later, larger permutation of the window is kept and the result is not the best of the window",
    [("lib/cudd-3.0.0/cudd/cuddWindow.c", """    sizeNew = cuddSwapInPlace(table,y,z);
    if (sizeNew < size) {
	if (sizeNew == 0) return(0);
	best = BCA;
	size = sizeNew;
    }
#define CBA 4
    sizeNew = cuddSwapInPlace(table,x,y);
    if (sizeNew < size) {
	if (sizeNew == 0) return(0);
	best = CBA;
	size = sizeNew;
    }
#define CAB 5
    sizeNew = cuddSwapInPlace(table,y,z);""", """    sizeNew = cuddSwapInPlace(table,y,z);
    if (sizeNew < size) {
	if (sizeNew == 0) return(0);
	best = BCA;
    }
#define CBA 4
    sizeNew = cuddSwapInPlace(table,x,y);
    if (sizeNew < size) {
	if (sizeNew == 0) return(0);
	best = CBA;
	size = sizeNew;
    }
#define CAB 5
    sizeNew = cuddSwapInPlace(table,y,z);""")],
    RND + '''
int main(void) {
    static int P[6][3] = {{0,1,2},{0,2,1},{1,0,2},{1,2,0},{2,0,1},{2,1,0}};
    for (int k = 0; k < 4000; k++) {
        int n = 1 + rnd() % 3, o[N], q[N];
        DdManager *d = Cudd_Init(N, 0, 256, 4096, 0); DdNode *f[4];
        for (int i = 0; i < n; i++) f[i] = build(d, k % 2 ? rnd() & rnd() : rnd());
        Cudd_ReduceHeap(d, CUDD_REORDER_WINDOW3_CONV, 0);
        int z = Cudd_SharingSize(f, n);
        for (int i = 0; i < N; i++) o[i] = Cudd_ReadInvPerm(d, i);
        for (int x = 0; x + 3 <= N; x++) for (int p = 0; p < 6; p++) {
            for (int i = 0; i < N; i++) q[i] = i < x || i > x + 2 ? o[i] : o[x + P[p][i - x]];
            Cudd_ShuffleHeap(d, q);
            if (Cudd_SharingSize(f, n) < z) { printf("FAIL: %d nodes can be reduced to %d in the window %d\\n", z, Cudd_SharingSize(f, n), x); return 1; }
        }
        for (int i = 0; i < n; i++) Cudd_RecursiveDeref(d, f[i]);
        Cudd_Quit(d);
    }
    puts("ok"); return 0;
}
''')
mk("decoder-minimum", "C28", "a strategy with an integer variable whose minimum is not zero and whose bits overlap it",
   "bits are combined with the minimum instead of being added to it, so the decoded value is wrong",
   [("tools/explicitImplementationIntegerDecoder.py", "value += (1 << m)", "value |= (1 << m)")],
   '''
for lo, v in ((0, 2), (2, 2), (3, 3), (6, 1)):
    l = "State 0 with rank 0 -> <n@0.%d.%d:%d, n@1:%d, x:1>\\n\\tWith successors : 0\\n" % (lo, lo + 3, v & 1, v >> 1)
    r = subprocess.run(["python3", "tools/explicitImplementationIntegerDecoder.py"], input=l, stdout=subprocess.PIPE, stderr=subprocess.PIPE, universal_newlines=True)
    if "n=%d" % (lo + v) not in r.stdout or "x:1" not in r.stdout:
        fail(r.stdout + r.stderr)
ok()
''')
mk("adder-carry", "C26", "the addition of numbers with different bit widths of which the longer one has at least two more bits",
   "the carry of the longer part of the sum is taken from the wrong bit",
   [("tools/StructuredSlugsParser/compiler.py", '''memoryStructureParts.append(["&",part2MemoryStructurePointers[i],"?",str(len(memoryStructureParts)-2)])''',
     '''memoryStructureParts.append(["&",part2MemoryStructurePointers[i],"?",str(2*len(part1MemoryStructurePointers)-1)])''')],
   '''
t = """[INPUT]
n:0...1
[OUTPUT]
m:0...15
[SYS_INIT]
n + m = 8
[SYS_LIVENESS]
TRUE
"""
t = t.replace("[SYS_LIVENESS]\\nTRUE\\n", "")
r = subprocess.run(["python3", "tools/StructuredSlugsParser/compiler.py", write("s.structuredslugs", t)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, universal_newlines=True)
sp = Spec(r.stdout)
def val(v, name):
    return sum(b << int(k.split("@")[1].split(".")[0]) for k, b in v.items() if k.startswith(name + "@"))
n = 0
for v in sp.vals(sp.V):
    n += 1
    if sp.all("SYS_INIT", v, v) != (val(v, "n") + val(v, "m") == 8):
        fail("n = %d, m = %d" % (val(v, "n"), val(v, "m")))
if n != 32:
    fail("variables: %s %s" % (sp.V, r.stderr))
ok()
''')
