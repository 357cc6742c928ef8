// A register machine for CUDD: reads cases ("case ...", operations, "end") on stdin, prints one line per operation.
#include "alloc.h"
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <cstdint>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <sstream>
#include <iostream>
#include <algorithm>
#include <functional>
#include <sys/resource.h>
extern "C" {
#include "epd.h"
#include "epdInt.h"
#include "mtr.h"
#include "cudd.h"
#include "cuddInt.h"
#include "dddmp.h"
}

typedef std::vector<uint64_t> TT;
static DdManager *M, *M2;
static int N, NZ;                 // BDD and ZDD variables
static std::vector<DdNode *> B, A, Z;
static std::istringstream *in;
static std::string out;
static std::string scratch;

static void put(const char *f, ...) {
	char buf[400];
	va_list ap;
	va_start(ap, f);
	vsnprintf(buf, sizeof buf, f, ap);
	va_end(ap);
	out += buf;
}
static int I() { int x = 0; *in >> x; return x; }
static double D() { std::string s; *in >> s; return strtod(s.c_str(), NULL); }
static DdNode *&b() { return B[I() % B.size()]; }
static DdNode *&a() { return A[I() % A.size()]; }
static DdNode *&z() { return Z[I() % Z.size()]; }
static std::vector<int> ints() { int n = I(); std::vector<int> v(n); for (int &x : v) x = I(); return v; }
static std::vector<DdNode *> bvars(const std::vector<int> &v, DdManager *m = NULL) {
	std::vector<DdNode *> r;
	for (int x : v) r.push_back(Cudd_bddIthVar(m ? m : M, x));
	return r;
}
static std::vector<DdNode *> avars(const std::vector<int> &v) {
	std::vector<DdNode *> r;
	for (int x : v) { r.push_back(Cudd_addIthVar(M, x)); Cudd_Ref(r.back()); }
	return r;
}
static void drop(std::vector<DdNode *> &v) { for (DdNode *x : v) Cudd_RecursiveDeref(M, x); }

// ---- truth tables by traversal of the nodes
static int words() { return N > 6 ? 1 << (N - 6) : 1; }
static uint64_t mask() { return N >= 6 ? ~0ULL : (1ULL << (1 << N)) - 1; }
static TT varTT(int i) {
	TT t(words(), 0);
	for (int m = 0; m < (1 << N); m++) if (m >> i & 1) t[m >> 6] |= 1ULL << (m & 63);
	return t;
}
static std::vector<TT> VT;
static const TT &ttrec(DdNode *r, std::map<DdNode *, TT> &memo) {
	auto it = memo.find(r);
	if (it != memo.end()) return it->second;
	TT t(words());
	if (Cudd_IsConstant(r)) {
		for (auto &w : t) w = mask();
	} else {
		DdNode *T = Cudd_T(r), *E = Cudd_E(r);
		const TT &x = ttrec(Cudd_Regular(T), memo), &y = ttrec(Cudd_Regular(E), memo);
		const TT &v = VT.at(Cudd_NodeReadIndex(r));
		for (size_t i = 0; i < t.size(); i++) {
			uint64_t p = Cudd_IsComplement(T) ? ~x[i] : x[i], q = Cudd_IsComplement(E) ? ~y[i] : y[i];
			t[i] = ((v[i] & p) | (~v[i] & q)) & mask();
		}
	}
	return memo[r] = t;
}
static TT tt(DdNode *f) {
	std::map<DdNode *, TT> memo;
	TT t = ttrec(Cudd_Regular(f), memo);
	if (Cudd_IsComplement(f)) for (auto &w : t) w = ~w & mask();
	return t;
}
static std::string hex(DdNode *f) {
	if (!f) return "NULL";
	TT t = tt(f);
	std::string s;
	char buf[20];
	for (size_t i = t.size(); i-- > 0;) { snprintf(buf, sizeof buf, "%016llx", (unsigned long long)t[i]); s += buf; }
	return s;
}
static std::string atab(DdNode *f) {
	if (!f) return "NULL";
	std::string s;
	char buf[40];
	for (int m = 0; m < (1 << N); m++) {
		DdNode *x = f;
		while (!Cudd_IsConstant(x)) x = (m >> Cudd_NodeReadIndex(x) & 1) ? Cudd_T(x) : Cudd_E(x);
		snprintf(buf, sizeof buf, "%s%.17g", m ? "," : "", Cudd_V(x));
		s += buf;
	}
	return s;
}
static std::string ztab(DdNode *f) {
	if (!f) return "NULL";
	std::string s;
	for (int m = 0; m < (1 << NZ); m++) {
		DdNode *x = f;
		bool v = true;
		for (int l = 0; l < NZ && v; l++) {
			int i = Cudd_ReadInvPermZdd(M, l);
			if (!Cudd_IsConstant(x) && (int)Cudd_NodeReadIndex(x) == i) x = (m >> i & 1) ? Cudd_T(x) : Cudd_E(x);
			else if (m >> i & 1) v = false;
		}
		s += (v && x == Cudd_ReadOne(M)) ? '1' : '0';
	}
	return s;
}
// counts the distinct nodes by traversal
static void nodes(DdNode *f, std::set<DdNode *> &s) {
	f = Cudd_Regular(f);
	if (!s.insert(f).second || Cudd_IsConstant(f)) return;
	nodes(Cudd_T(f), s);
	nodes(Cudd_E(f), s);
}
static void set(DdNode *&r, DdNode *f) {
	if (f) {
		Cudd_Ref(f);
		Cudd_RecursiveDeref(M, r);
		r = f;
	}
	out += hex(f);
	if (!f) { put(" error %d", (int)Cudd_ReadErrorCode(M)); Cudd_ClearErrorCode(M); }
}
// f is already referenced
static void setref(DdNode *&r, DdNode *f) { if (f) { Cudd_RecursiveDeref(M, r); r = f; } out += hex(f); }
static void seta(DdNode *&r, DdNode *f) {
	if (f) { Cudd_Ref(f); Cudd_RecursiveDeref(M, r); r = f; }
	out += atab(f);
	if (!f) { put(" error %d", (int)Cudd_ReadErrorCode(M)); Cudd_ClearErrorCode(M); }
}
static void setz(DdNode *&r, DdNode *f) {
	if (f) { Cudd_Ref(f); Cudd_RecursiveDerefZdd(M, r); r = f; }
	out += ztab(f);
	if (!f) { put(" error %d", (int)Cudd_ReadErrorCode(M)); Cudd_ClearErrorCode(M); }
}
static void cubeout(DdNode *f) { out += hex(f); }
static std::string slurp(const std::string &p) {
	std::string s;
	FILE *f = fopen(p.c_str(), "r");
	if (!f) return "";
	int c;
	while ((c = fgetc(f)) != EOF) s += (char)c;
	fclose(f);
	return s;
}
static void esc(const std::string &s) {
	for (char c : s) {
		if (c == '\n') out += "\\n"; else if (c == '\\') out += "\\\\"; else out += c;
	}
}
static DdNode *fromhex(DdManager *m, const TT &t, int var, int base) {
	// the returned node is referenced
	if (var < 0) {
		DdNode *r = (t[base >> 6] >> (base & 63) & 1) ? Cudd_ReadOne(m) : Cudd_ReadLogicZero(m);
		Cudd_Ref(r);
		return r;
	}
	DdNode *e = fromhex(m, t, var - 1, base), *h = fromhex(m, t, var - 1, base | 1 << var);
	DdNode *r = Cudd_bddIte(m, Cudd_bddIthVar(m, var), h, e);
	Cudd_Ref(r);
	Cudd_RecursiveDeref(m, e);
	Cudd_RecursiveDeref(m, h);
	return r;
}
static TT readhex() {
	std::string s;
	*in >> s;
	TT t(words(), 0);
	for (size_t i = 0; i < t.size(); i++) t[t.size() - 1 - i] = strtoull(s.substr(16 * i, 16).c_str(), NULL, 16);
	return t;
}
static DdNode *fromvals(const std::vector<double> &v, int var, int base) {
	if (var < 0) { DdNode *r = Cudd_addConst(M, v[base]); Cudd_Ref(r); return r; }
	DdNode *e = fromvals(v, var - 1, base), *h = fromvals(v, var - 1, base | 1 << var);
	DdNode *x = Cudd_addIthVar(M, var);
	Cudd_Ref(x);
	DdNode *r = Cudd_addIte(M, x, h, e);
	Cudd_Ref(r);
	Cudd_RecursiveDeref(M, x);
	Cudd_RecursiveDeref(M, e);
	Cudd_RecursiveDeref(M, h);
	return r;
}
static void checkAll() {
	for (size_t i = 0; i < B.size(); i++) { out += i ? " " : ""; out += hex(B[i]); }
	out += " |";
	for (size_t i = 0; i < A.size(); i++) { out += " "; out += atab(A[i]); }
	out += " |";
	for (size_t i = 0; i < Z.size(); i++) { out += " "; out += ztab(Z[i]); }
	for (size_t i = 0; i < B.size(); i++)
		for (size_t j = 0; j < i; j++) {
			if ((B[i] == B[j]) != (tt(B[i]) == tt(B[j]))) put(" NOT-CANONICAL b%d b%d", (int)j, (int)i);
		}
	for (size_t i = 0; i < A.size(); i++)
		for (size_t j = 0; j < i; j++) if ((A[i] == A[j]) != (atab(A[i]) == atab(A[j]))) put(" NOT-CANONICAL a%d a%d", (int)j, (int)i);
	for (size_t i = 0; i < Z.size(); i++)
		for (size_t j = 0; j < i; j++) if ((Z[i] == Z[j]) != (ztab(Z[i]) == ztab(Z[j]))) put(" NOT-CANONICAL z%d z%d", (int)j, (int)i);
}
static void debug() {
	put("debug %d keys %d", Cudd_DebugCheck(M), Cudd_CheckKeys(M));
	// the order is a permutation, and all nodes respect it
	std::vector<int> seen(N, 0);
	bool ok = true;
	for (int l = 0; l < N; l++) {
		int i = Cudd_ReadInvPerm(M, l);
		if (i < 0 || i >= N || seen[i] || Cudd_ReadPerm(M, i) != l) ok = false; else seen[i] = 1;
	}
	std::set<DdNode *> s;
	for (auto f : B) nodes(f, s);
	for (auto f : A) nodes(f, s);
	for (auto f : s) {
		if (Cudd_IsConstant(f)) continue;
		for (DdNode *g : {Cudd_Regular(Cudd_T(f)), Cudd_Regular(Cudd_E(f))})
			if (!Cudd_IsConstant(g) && Cudd_ReadPerm(M, Cudd_NodeReadIndex(g)) <= Cudd_ReadPerm(M, Cudd_NodeReadIndex(f))) ok = false;
		if (Cudd_IsComplement(Cudd_T(f)) || Cudd_T(f) == Cudd_E(f)) ok = false;
	}
	put(" order %s", ok ? "ok" : "BAD");
}
#define OP(name) else if (op == name)
#include "dd_ops.h"

static long blocksBefore;

static void finish() {
	checkAll();
	out += " ; ";
	debug();
	for (auto f : B) Cudd_RecursiveDeref(M, f);
	for (auto f : A) Cudd_RecursiveDeref(M, f);
	for (auto f : Z) Cudd_RecursiveDerefZdd(M, f);
	put(" zeroref %d", Cudd_CheckZeroRef(M));
	put(" zeroref2 %d", Cudd_CheckZeroRef(M2));
	B.clear(); A.clear(); Z.clear();
	Cudd_Quit(M);
	Cudd_Quit(M2);
	M = M2 = NULL;
	put(" blocks %d", (int)(liveBlocks - blocksBefore));
}

int main(int argc, char **argv) {
	struct rlimit core = {0, 0};
	setrlimit(RLIMIT_CORE, &core);
	scratch = argc > 1 ? argv[1] : ".";
	std::string line;
	while (std::getline(std::cin, line)) {
		std::istringstream is(line);
		in = &is;
		std::string op;
		is >> op;
		if (op == "case") {
			N = I();
			NZ = I();
			int slots = I(), cache = I(), regs = I();
			blocksBefore = liveBlocks;
			M = Cudd_Init(N, 0, slots, cache, 0);
			M2 = Cudd_Init(N, 0, slots, cache, 0);
			if (NZ) Cudd_zddVarsFromBddVars(M, NZ / N);
			static FILE *null = fopen("/dev/null", "w");
			Cudd_SetStdout(M, null);
			Cudd_SetStdout(M2, null);
			Cudd_SetStderr(M, null);
			Cudd_SetStderr(M2, null);
			VT.clear();
			for (int i = 0; i < N; i++) VT.push_back(varTT(i));
			for (int i = 0; i < regs; i++) {
				B.push_back(Cudd_ReadLogicZero(M));
				Cudd_Ref(B.back());
				A.push_back(Cudd_ReadZero(M));
				Cudd_Ref(A.back());
				if (NZ) { Z.push_back(Cudd_ReadZero(M)); Cudd_Ref(Z.back()); }
			}
			std::cin.peek();
		} else if (op == "end") {
			finish();
			out += "\nEND\n";
			fwrite(out.data(), 1, out.size(), stdout);
			fflush(stdout);
			out.clear();
		} else {
			run(op);
			out += "\n";
		}
	}
	return 0;
}
