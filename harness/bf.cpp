// A register machine for the BF layer (src/BFAbstractionLibrary): reads cases ("case ...", operations, "end") on stdin and prints
// one line per operation. Functions are printed as truth tables, computed by walking the nodes.
#include "alloc.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <fstream>
#include <iterator>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>
#include "BF.h"
#include "bddDump.h"
#include "cuddInt.h"

static int N;                                      // variables per manager
static std::unique_ptr<BFManager> M[2];
static std::vector<BF> V[2];                       // the variables
static std::vector<BF> R;                          // registers
static std::vector<BFVarCube> K;
static std::vector<BFVarVector> W;
static std::istringstream *in;
static std::string scratch;

static int I() { int x = 0; *in >> x; return x; }
static std::string S() { std::string s; *in >> s; return s; }
static std::vector<int> ints() { int n = I(); std::vector<int> v(n); for (int &x : v) x = I(); return v; }
static BF &r() { return R[I()]; }
static std::vector<BF> vars(int m, const std::vector<int> &v) { std::vector<BF> x; for (int i : v) x.push_back(V[m][i]); return x; }

typedef std::vector<uint64_t> TT;
static int words() { return N > 6 ? 1 << (N - 6) : 1; }
static TT walk(DdManager *m, DdNode *f, std::map<DdNode *, TT> &memo) {
	static const uint64_t P[6] = {0xaaaaaaaaaaaaaaaaULL, 0xccccccccccccccccULL, 0xf0f0f0f0f0f0f0f0ULL, 0xff00ff00ff00ff00ULL, 0xffff0000ffff0000ULL, 0xffffffff00000000ULL};
	if (f == Cudd_ReadOne(m)) return TT(words(), ~0ULL);
	if (f == Cudd_Not(Cudd_ReadOne(m))) return TT(words(), 0);
	DdNode *g = Cudd_Regular(f);
	auto it = memo.find(g);
	TT t;
	if (it != memo.end()) t = it->second;
	else {
		int v = g->index;
		TT x = walk(m, cuddT(g), memo), y = walk(m, cuddE(g), memo);
		for (int i = 0; i < words(); i++) {
			uint64_t p = v < 6 ? P[v] : ((i >> (v - 6)) & 1 ? ~0ULL : 0);
			t.push_back((p & x[i]) | (~p & y[i]));
		}
		memo[g] = t;
	}
	if (g != f) for (uint64_t &x : t) x = ~x;
	return t;
}
static std::string tt(const BF &f) {
	if (!f.isValid()) return "-";
	std::map<DdNode *, TT> memo;
	TT t = walk(f.manager()->getMgr(), f.getCuddNode(), memo);
	if (N < 6) t[0] &= (1ULL << (1 << N)) - 1;
	std::string r;
	char b[40];
	for (int i = words() - 1; i >= 0; i--) {
		snprintf(b, sizeof b, r.empty() ? "%llx" : "%016llx", (unsigned long long)t[i]);
		if (!r.empty() || t[i] || i == 0) r += b;
	}
	return r;
}
static void order(std::ostream &o, DdManager *m) { for (int i = 0; i < N; i++) o << " " << Cudd_ReadPerm(m, i); }
static std::string slurp(const std::string &f) {
	std::ifstream s(f.c_str(), std::ios::binary);
	return std::string(std::istreambuf_iterator<char>(s), std::istreambuf_iterator<char>());
}
static std::string esc(const std::string &s) {
	std::string r;
	for (char c : s) { if (c == '\n') r += "\\n"; else if (c == '\\') r += "\\\\"; else r += c; }
	return r;
}

struct Container : public VariableInfoContainer {
	int m;
	std::vector<std::pair<std::string, std::vector<unsigned int> > > types;
	void getVariableTypes(std::vector<std::string> &t) const { for (auto &x : types) t.push_back(x.first); }
	void getVariableNumbersOfType(std::string type, std::vector<unsigned int> &nums) const {
		for (auto &x : types) if (x.first == type) nums.insert(nums.end(), x.second.begin(), x.second.end());
	}
	BF getVariableBF(unsigned int n) const { return V[m][n]; }
	std::string getVariableName(unsigned int n) const { std::ostringstream o; o << "n" << n; return o.str(); }
};

static void op(const std::string &c, std::ostream &o) {
	if (c == "const") { int d = I(), m = I(), v = I(); R[d] = v ? M[m]->constantTrue() : M[m]->constantFalse(); o << tt(R[d]); }
	else if (c == "var") { int d = I(), m = I(), v = I(); R[d] = V[m][v]; o << tt(R[d]); }
	else if (c == "tt") { // built from minterms
		int d = I(), m = I();
		uint64_t t = strtoull(S().c_str(), NULL, 16);
		BF x = M[m]->constantFalse();
		for (int i = 0; i < 1 << N; i++) if (i < 64 && ((t >> i) & 1)) {
			BF y = M[m]->constantTrue();
			for (int j = 0; j < N; j++) y &= (i >> j) & 1 ? V[m][j] : !V[m][j];
			x |= y;
		}
		R[d] = x;
		o << tt(R[d]);
	}
	else if (c == "fn") { // a function of some variables, given by its truth table
		int d = I(), m = I();
		std::vector<BF> v = vars(m, ints());
		std::string bits = S();
		std::vector<BF> t;
		for (char x : bits) t.push_back(x == '1' ? M[m]->constantTrue() : M[m]->constantFalse());
		for (BF &x : v) {
			std::vector<BF> u;
			for (size_t i = 0; i < t.size(); i += 2) u.push_back((x & t[i + 1]) | (!x & t[i]));
			t = u;
		}
		R[d] = t[0];
		o << tt(R[d]);
	}
	else if (c == "not") { int d = I(); R[d] = !r(); o << tt(R[d]); }
	else if (c == "and") { int d = I(); BF &a = r(), &b = r(); R[d] = a & b; o << tt(R[d]); }
	else if (c == "or") { int d = I(); BF &a = r(), &b = r(); R[d] = a | b; o << tt(R[d]); }
	else if (c == "xor") { int d = I(); BF &a = r(), &b = r(); R[d] = a ^ b; o << tt(R[d]); }
	else if (c == "minus") { int d = I(); BF &a = r(), &b = r(); R[d] = a - b; o << tt(R[d]); }
	else if (c == "implies") { int d = I(); BF &a = r(), &b = r(); R[d] = a.Implies(b); o << tt(R[d]); }
	else if (c == "andeq") { BF &a = r(), &b = r(); o << tt(a &= b); o << " " << tt(a); }
	else if (c == "oreq") { BF &a = r(), &b = r(); o << tt(a |= b); o << " " << tt(a); }
	else if (c == "assign") { BF &a = r(), &b = r(); o << tt(a = b) << " " << tt(a) << " " << tt(b); }
	else if (c == "move") { BF &a = r(), &b = r(); o << tt(a = std::move(b)) << " " << tt(a) << " " << tt(b); if (!b.isValid()) b = a; }
	else if (c == "construct") { int d = I(); BF &a = r(); BF x(a), y(x), z(std::move(x)), e; BF f(e); o << tt(x) << " " << tt(y) << " " << tt(z) << " " << tt(e) << " " << tt(f); e = z; f = std::move(e); R[d] = f; o << " " << tt(R[d]); }
	else if (c == "vector") { // insertions and removals in a vector
		std::vector<int> idx = ints();
		std::vector<BF> v;
		for (int i : idx) v.push_back(R[i]);
		int p = I(), q = I();
		v.insert(v.begin() + p, R[idx[q]]);
		v.erase(v.begin() + q);
		std::swap(v.front(), v.back());
		for (size_t i = 0; i < idx.size(); i++) o << tt(v[i]) << " ";
		R[idx[0]] = v[0];
	}
	else if (c == "cmp") { BF &a = r(), &b = r(); o << (a <= b) << (a < b) << (a >= b) << (a > b) << (a == b) << (a != b) << (a.getHashCode() == b.getHashCode()) << a.ReachedLeastFixedPoint(b) << a.ReachedGratestFixedPoint(b); }
	else if (c == "pred") { BF &a = r(); o << a.isTrue() << a.isFalse() << a.isConstant() << a.isValid() << (a.manager() == M[0].get() ? 0 : 1) << !BF().isValid(); }
	else if (c == "cube") { int k = I(), m = I(); std::vector<int> v = ints(); K[k] = M[m]->computeCube(vars(m, v)); o << K[k].size(); }
	else if (c == "cubea") {
		int k = I(), m = I();
		std::vector<BF> v = vars(m, ints());
		std::vector<int> ph(v.size(), 1);
		K[k] = M[m]->computeCube(v.data(), ph.data(), v.size());
		o << K[k].size();
	}
	else if (c == "cube1") { int k = I(), m = I(), v = I(); K[k] = V[m][v]; o << K[k].size(); }
	else if (c == "cubecopy") { int k = I(), j = I(); if (I()) { BFVarCube x(K[j]); BFVarCube y; y = x; K[k] = y; } else K[k] = K[j]; o << K[k].size(); }
	else if (c == "vec") { int w = I(), m = I(); std::vector<int> v = ints(); W[w] = M[m]->computeVarVector(vars(m, v)); o << W[w].size(); }
	else if (c == "veccopy") { int w = I(), j = I(); if (I()) { BFVarVector x(W[j]); BFVarVector y; y = x; W[w] = y; BFVarVector z; x = z; } else W[w] = W[j]; o << W[w].size(); }
	else if (c == "exist") { int d = I(); BF &a = r(); R[d] = a.ExistAbstract(K[I()]); o << tt(R[d]); }
	else if (c == "univ") { int d = I(); BF &a = r(); R[d] = a.UnivAbstract(K[I()]); o << tt(R[d]); }
	else if (c == "andabs") { int d = I(); BF &a = r(), &b = r(); R[d] = a.AndAbstract(b, K[I()]); o << tt(R[d]); }
	else if (c == "exist1") { int d = I(); BF &a = r(); int m = I(), v = I(); R[d] = a.ExistAbstractSingleVar(V[m][v]); o << tt(R[d]); }
	else if (c == "univ1") { int d = I(); BF &a = r(); int m = I(), v = I(); R[d] = a.UnivAbstractSingleVar(V[m][v]); o << tt(R[d]); }
	else if (c == "swap") { int d = I(); BF &a = r(); int x = I(), y = I(); R[d] = a.SwapVariables(W[x], W[y]); o << tt(R[d]); }
	else if (c == "restrict") { int d = I(); BF &a = r(), b = r(); int m = I(); if (b.isFalse()) b = V[m][0]; int sa = a.getSize(); BF x = a.optimizeRestrict(b); o << tt(x) << " " << (x.getSize() <= sa || !I()); R[d] = x; }
	else if (c == "careset") { int d = I(); BF &a = r(), b = r(); int m = I(); if (b.isFalse()) b = V[m][0]; int sa = a.getSize(); BF x = a.minimizeUsingCareSet(b); o << tt(x) << " " << (x.getSize() <= sa || !I()); R[d] = x; }
	else if (c == "mand" || c == "mor") {
		int d = I(), m = I();
		std::vector<BF> v;
		for (int i : ints()) v.push_back(R[i]);
		R[d] = c == "mand" ? M[m]->multiAnd(v) : M[m]->multiOr(v);
		o << tt(R[d]);
	}
	else if (c == "count") { BF &a = r(); double x = a.getNofSatisfyingAssignments(K[I()]); char b[40]; snprintf(b, sizeof b, "%.1f", x); o << (x != x ? "nan" : b); }
	else if (c == "paths") { BF &a = r(); char b[40]; snprintf(b, sizeof b, "%.1f", a.getNofMinterms()); o << b; order(o, a.manager()->getMgr()); }
	else if (c == "size") { BF &a = r(); o << a.getSize() << " " << (a.isConstant() ? -1 : (int)a.readNodeIndex()); order(o, a.manager()->getMgr()); }
	else if (c == "file") { // write, and read into manager m2 with other variables
		int d = I();
		BF &a = r();
		int m = I(), m2 = I();
		std::vector<int> perm = ints();
		std::string f = scratch + "/f.bdd";
		std::vector<std::string> names;
		for (int i = 0; i < N; i++) { std::ostringstream s; s << "v" << i; names.push_back(s.str()); }
		int pre = I();
		M[m]->writeBDDToFile(f.c_str(), pre ? "# first line\n# second line\n" : "", a, V[m], names);
		std::vector<BF> v = vars(m2, perm);
		std::string text = slurp(f);
		o << (text.compare(0, 27, "# first line\n# second line\n") == 0) << " ";
		if (pre) { std::ofstream s(f.c_str(), std::ios::binary); s << text.substr(27); }
		try { BF x = M[m2]->readBDDFromFile(f.c_str(), v); R[d] = x; o << tt(x); }
		catch (std::runtime_error &e) { o << "error"; }
		remove(f.c_str());
	}
	else if (c == "badfile") {
		int m = I(), kind = I();
		std::string f = scratch + "/g.bdd";
		if (kind == 1) { std::ofstream s(f.c_str()); }
		if (kind == 2) { std::ofstream s(f.c_str()); s << "[INPUT]\na\n[OUTPUT]\nb\n"; }
		if (kind == 3) f = scratch;
		if (kind == 4) f = scratch + "/no/such/file";
		try { BF x = M[m]->readBDDFromFile(f.c_str(), V[m]); o << "read " << tt(x); } catch (std::runtime_error &e) { o << "error"; }
		if (kind == 1 || kind == 2) remove(f.c_str());
	}
	else if (c == "dot") {
		BF &a = r();
		Container x;
		x.m = I();
		int n = I();
		for (int i = 0; i < n; i++) { std::string t = S(); std::vector<int> v = ints(); x.types.push_back(std::make_pair(t, std::vector<unsigned int>(v.begin(), v.end()))); }
		std::string ord;
		n = I();
		for (int i = 0; i < n; i++) { if (i) ord += " "; ord += S(); }
		std::string f = scratch + "/d.dot";
		if (I()) o << BF_hasVariableSupport(x, a, n ? ord.c_str() : NULL);
		else try { BF_newDumpDot(x, a, n ? ord.c_str() : NULL, f); o << esc(slurp(f)); } catch (BFDumpDotException &e) { o << "exception"; }
		remove(f.c_str());
	}
	else if (c == "minterms") {
		BF &a = r(), &b = r();
		int m = I();
		std::vector<int> p = ints(), s = ints();
		std::vector<BF> pv = vars(m, p), sv = vars(m, s); // the enumerator keeps references
		BFMintermEnumerator e(a, b, pv, sv);
		int n = 0;
		while (e.hasNextMinterm() && n++ < 2000) {
			std::vector<int> v;
			e.getNextMinterm(v);
			for (int x : v) o << (x > 0 ? "1" : x < 0 ? "0" : "-");
			o << " ";
		}
		o << ".";
	}
	else if (c == "reorder") { int m = I(); int meth = I(); o << Cudd_ReduceHeap(M[m]->getMgr(), (Cudd_ReorderingType)meth, 0); }
	else if (c == "auto") { int m = I(), on = I(), next = I(); M[m]->setAutomaticOptimisation(on); M[m]->setReorderingMaxBlowup(1.0f + 0.1f * I()); if (next >= 0) Cudd_SetNextReordering(M[m]->getMgr(), next); o << "ok"; }
	else if (c == "gc") { int m = I(); cuddGarbageCollect(M[m]->getMgr(), 1); o << "ok"; }
	else o << "?";
}

static long blocksBefore;

int main(int argc, char **argv) {
	scratch = argv[1];
	std::string line;
	while (std::getline(std::cin, line)) {
		std::istringstream l(line);
		in = &l;
		std::string c = S();
		if (c == "case") {
			N = I();
			int regs = I();
			blocksBefore = liveBlocks;
			for (int m = 0; m < 2; m++) {
				M[m].reset(new BFManager(64, 1.2f));
				Cudd_SetStdout(M[m]->getMgr(), stderr);
				V[m].clear();
				for (int i = 0; i < N; i++) V[m].push_back(M[m]->newVariable());
			}
			R.assign(regs, M[0]->constantFalse());
			K.assign(3, BFVarCube(M[0]->computeCube(std::vector<BF>())));
			W.assign(3, BFVarVector(M[0]->computeVarVector(std::vector<BF>())));
			std::cout << "ok\n";
		} else if (c == "end") {
			for (size_t i = 0; i < R.size(); i++) std::cout << tt(R[i]) << " ";
			for (int m = 0; m < 2; m++) std::cout << (Cudd_DebugCheck(M[m]->getMgr()) == 0 && Cudd_CheckKeys(M[m]->getMgr()) == 0 ? "sound " : "UNSOUND ");
			R.clear();
			K.clear();
			W.clear();
			for (int m = 0; m < 2; m++) { V[m].clear(); std::cout << Cudd_CheckZeroRef(M[m]->getMgr()) << " "; M[m].reset(); }
			std::cout << "blocks " << liveBlocks - blocksBefore << " ";
			std::cout << "\nEND" << std::endl;
		} else {
			std::ostringstream o;
			op(c, o);
			std::cout << o.str() << "\n";
		}
	}
	return 0;
}
