static void decomp(int n, DdNode **arr, DdNode *&x, DdNode *&y) {
	put("%d ", n);
	if (n == 0) return;
	if (n == 1) {
		out += hex(arr[0]);
		Cudd_RecursiveDeref(M, arr[0]);
	} else {
		setref(x, arr[0]);
		out += " ";
		setref(y, arr[1]);
	}
	free(arr);
}
static std::vector<char *> names(const char *p) {
	std::vector<char *> r;
	for (int i = 0; i < N; i++) { char buf[20]; snprintf(buf, sizeof buf, "%s%d", p, i); r.push_back(strdup(buf)); }
	return r;
}
static void freenames(std::vector<char *> &v) { for (char *x : v) free(x); }

static void run_bdd2(const std::string &op);
static void run_add(const std::string &op);
static void run_zdd(const std::string &op);
static void run_io(const std::string &op);
static void run_mgr(const std::string &op);
static void run_num(const std::string &op);

static void run(const std::string &op) {
	if (op[0] == 'a' && op[1] == '_') return run_add(op);
	if (op[0] == 'z' && op[1] == '_') return run_zdd(op);
	if (op[0] == 'i' && op[1] == '_') return run_io(op);
	if (op[0] == 'm' && op[1] == '_') return run_mgr(op);
	if (op[0] == 'n' && op[1] == '_') return run_num(op);
	if (op == "tt") { DdNode *&d = b(); TT t = readhex(); setref(d, fromhex(M, t, N - 1, 0)); }
	OP("var") { DdNode *&d = b(); set(d, Cudd_bddIthVar(M, I())); }
	OP("const") { DdNode *&d = b(); set(d, I() ? Cudd_ReadOne(M) : Cudd_ReadLogicZero(M)); }
	OP("copy") { DdNode *&d = b(); set(d, b()); }
	OP("not") { DdNode *&d = b(); set(d, Cudd_Not(b())); }
	OP("and") { DdNode *&d = b(), *f = b(), *g = b(); set(d, Cudd_bddAnd(M, f, g)); }
	OP("or") { DdNode *&d = b(), *f = b(), *g = b(); set(d, Cudd_bddOr(M, f, g)); }
	OP("nand") { DdNode *&d = b(), *f = b(), *g = b(); set(d, Cudd_bddNand(M, f, g)); }
	OP("nor") { DdNode *&d = b(), *f = b(), *g = b(); set(d, Cudd_bddNor(M, f, g)); }
	OP("xor") { DdNode *&d = b(), *f = b(), *g = b(); set(d, Cudd_bddXor(M, f, g)); }
	OP("xnor") { DdNode *&d = b(), *f = b(), *g = b(); set(d, Cudd_bddXnor(M, f, g)); }
	OP("ite") { DdNode *&d = b(), *f = b(), *g = b(), *h = b(); set(d, Cudd_bddIte(M, f, g, h)); }
	OP("andlim") { DdNode *&d = b(), *f = b(), *g = b(); set(d, Cudd_bddAndLimit(M, f, g, I())); }
	OP("orlim") { DdNode *&d = b(), *f = b(), *g = b(); set(d, Cudd_bddOrLimit(M, f, g, I())); }
	OP("xnorlim") { DdNode *&d = b(), *f = b(), *g = b(); set(d, Cudd_bddXnorLimit(M, f, g, I())); }
	OP("itelim") { DdNode *&d = b(), *f = b(), *g = b(), *h = b(); set(d, Cudd_bddIteLimit(M, f, g, h, I())); }
	OP("intersect") { DdNode *&d = b(), *f = b(), *g = b(); set(d, Cudd_bddIntersect(M, f, g)); }
	OP("leq") { DdNode *f = b(), *g = b(); put("%d", Cudd_bddLeq(M, f, g)); }
	OP("leqUnless") { DdNode *f = b(), *g = b(), *h = b(); put("%d", Cudd_bddLeqUnless(M, f, g, h)); }
	OP("equivDC") { DdNode *f = b(), *g = b(), *h = b(); put("%d", Cudd_EquivDC(M, f, g, h)); }
	OP("iteConst") {
		DdNode *f = b(), *g = b(), *h = b(), *r = Cudd_bddIteConstant(M, f, g, h);
		out += r == DD_NON_CONSTANT ? "NONCONST" : hex(r);
	}
	OP("cofactor") { DdNode *&d = b(), *f = b(), *g = b(); set(d, Cudd_Cofactor(M, f, g)); }
	OP("constrain") { DdNode *&d = b(), *f = b(), *g = b(); set(d, Cudd_bddConstrain(M, f, g)); }
	OP("restrict") { DdNode *&d = b(), *f = b(), *g = b(); set(d, Cudd_bddRestrict(M, f, g)); }
	OP("npand") { DdNode *&d = b(), *f = b(), *g = b(); set(d, Cudd_bddNPAnd(M, f, g)); }
	OP("licomp") { DdNode *&d = b(), *f = b(), *g = b(); set(d, Cudd_bddLICompaction(M, f, g)); }
	OP("minimize") { DdNode *&d = b(), *f = b(), *g = b(); set(d, Cudd_bddMinimize(M, f, g)); }
	OP("squeeze") { DdNode *&d = b(), *f = b(), *g = b(); set(d, Cudd_bddSqueeze(M, f, g)); }
	OP("interpolate") { DdNode *&d = b(), *f = b(), *g = b(); set(d, Cudd_bddInterpolate(M, f, g)); }
	OP("isop") { DdNode *&d = b(), *f = b(), *g = b(); set(d, Cudd_bddIsop(M, f, g)); }
	OP("compose") { DdNode *&d = b(), *f = b(), *g = b(); set(d, Cudd_bddCompose(M, f, g, I())); }
	OP("vcompose") {
		DdNode *&d = b(), *f = b();
		std::vector<DdNode *> v;
		for (int i = 0; i < N; i++) v.push_back(b());
		set(d, Cudd_bddVectorCompose(M, f, v.data()));
	}
	OP("permute") { DdNode *&d = b(), *f = b(); std::vector<int> p = ints(); set(d, Cudd_bddPermute(M, f, p.data())); }
	OP("varmap") {
		DdNode *&d = b(), *f = b();
		std::vector<DdNode *> x = bvars(ints()), y = bvars(ints());
		put("%d ", Cudd_SetVarMap(M, x.data(), y.data(), x.size()));
		set(d, Cudd_bddVarMap(M, f));
	}
	OP("varmapagain") { DdNode *&d = b(), *f = b(); set(d, Cudd_bddVarMap(M, f)); }
	OP("swap") {
		DdNode *&d = b(), *f = b();
		std::vector<DdNode *> x = bvars(ints()), y = bvars(ints());
		set(d, Cudd_bddSwapVariables(M, f, x.data(), y.data(), x.size()));
	}
	OP("adjpermute") { DdNode *&d = b(), *f = b(); std::vector<DdNode *> x = bvars(ints()); set(d, Cudd_bddAdjPermuteX(M, f, x.data(), x.size())); }
	OP("exist") { DdNode *&d = b(), *f = b(), *g = b(); set(d, Cudd_bddExistAbstract(M, f, g)); }
	OP("existlim") { DdNode *&d = b(), *f = b(), *g = b(); set(d, Cudd_bddExistAbstractLimit(M, f, g, I())); }
	OP("univ") { DdNode *&d = b(), *f = b(), *g = b(); set(d, Cudd_bddUnivAbstract(M, f, g)); }
	OP("andabs") { DdNode *&d = b(), *f = b(), *g = b(), *h = b(); set(d, Cudd_bddAndAbstract(M, f, g, h)); }
	OP("andabslim") { DdNode *&d = b(), *f = b(), *g = b(), *h = b(); set(d, Cudd_bddAndAbstractLimit(M, f, g, h, I())); }
	OP("xorabs") { DdNode *&d = b(), *f = b(), *g = b(), *h = b(); set(d, Cudd_bddXorExistAbstract(M, f, g, h)); }
	OP("diff") { DdNode *&d = b(), *f = b(); set(d, Cudd_bddBooleanDiff(M, f, I())); }
	OP("vardep") { DdNode *f = b(); put("%d", Cudd_bddVarIsDependent(M, f, Cudd_bddIthVar(M, I()))); }
	OP("cube") { DdNode *&d = b(); std::vector<int> v = ints(), p = ints(); std::vector<DdNode *> x = bvars(v); set(d, Cudd_bddComputeCube(M, x.data(), p.empty() ? NULL : p.data(), x.size())); }
	OP("indcube") { DdNode *&d = b(); std::vector<int> v = ints(); set(d, Cudd_IndicesToCube(M, v.data(), v.size())); }
	OP("arrcube") { DdNode *&d = b(); std::vector<int> v = ints(); set(d, Cudd_CubeArrayToBdd(M, v.data())); }
	OP("cubearr") {
		DdNode *f = b();
		std::vector<int> v(N, 9);
		put("%d", Cudd_BddToCubeArray(M, f, v.data()));
		for (int x : v) put(" %d", x);
	}
	OP("checkcube") { DdNode *f = b(); put("%d", Cudd_CheckCube(M, f)); }
	OP("clipand") { DdNode *&d = b(), *f = b(), *g = b(); int k = I(); set(d, Cudd_bddClippingAnd(M, f, g, k, I())); }
	OP("clipandabs") { DdNode *&d = b(), *f = b(), *g = b(), *h = b(); int k = I(); set(d, Cudd_bddClippingAndAbstract(M, f, g, h, k, I())); }
	else run_bdd2(op);
}

static void run_bdd2(const std::string &op) {
	if (op == "support") { DdNode *&d = b(), *f = b(); set(d, Cudd_Support(M, f)); put(" %d", Cudd_SupportSize(M, f)); }
	OP("supportidx") {
		DdNode *f = b();
		int *ix = NULL, n = Cudd_SupportIndices(M, f, &ix);
		put("%d :", n);
		for (int i = 0; i < n; i++) put(" %d", ix[i]);
		free(ix);
		int *s = Cudd_SupportIndex(M, f);
		out += " :";
		for (int i = 0; i < N; i++) put(" %d", s[i]);
		free(s);
	}
	OP("vsupport") {
		DdNode *&d = b();
		std::vector<DdNode *> f;
		for (int i : ints()) f.push_back(B[i % B.size()]);
		set(d, Cudd_VectorSupport(M, f.data(), f.size()));
		put(" %d :", Cudd_VectorSupportSize(M, f.data(), f.size()));
		int *ix = NULL, n = Cudd_VectorSupportIndices(M, f.data(), f.size(), &ix);
		for (int i = 0; i < n; i++) put(" %d", ix[i]);
		free(ix);
		int *s = Cudd_VectorSupportIndex(M, f.data(), f.size());
		out += " :";
		for (int i = 0; i < N; i++) put(" %d", s[i]);
		free(s);
		std::set<DdNode *> all;
		for (auto x : f) nodes(x, all);
		put(" : %d %d", Cudd_SharingSize(f.data(), f.size()), (int)all.size());
	}
	OP("classify") {
		DdNode *f = b(), *g = b(), *x, *y, *w;
		put("%d", Cudd_ClassifySupport(M, f, g, &x, &y, &w));
		Cudd_Ref(x); Cudd_Ref(y); Cudd_Ref(w);
		out += " " + hex(x) + " " + hex(y) + " " + hex(w);
		Cudd_RecursiveDeref(M, x); Cudd_RecursiveDeref(M, y); Cudd_RecursiveDeref(M, w);
	}
	OP("count") {
		DdNode *f = b();
		int n = I();
		put("%.17g", Cudd_CountMinterm(M, f, n));
		put(" %.17Lg", Cudd_LdblCountMinterm(M, f, n));
		EpDouble e;
		put(" %d", Cudd_EpdCountMinterm(M, f, n, &e));
		char buf[100];
		EpdGetString(&e, buf);
		put(" %s", buf);
		int digits;
		DdApaNumber p = Cudd_ApaCountMinterm(M, f, n, &digits);
		char *s = Cudd_ApaStringDecimal(digits, p);
		put(" %s", s);
		free(s);
		Cudd_FreeApaNumber(p);
		std::set<DdNode *> all;
		nodes(f, all);
		put(" %.17g %d %d %.17g", Cudd_Density(M, f, n), Cudd_DagSize(f), (int)all.size(), Cudd_CountPath(f));
		put(" %.17g", Cudd_CountPathsToNonZero(f));
		// the paths, by enumeration
		int ones = 0, zeros = 0;
		for (int k = 0; k < 2; k++) {
			int *c;
			double v;
			DdGen *gen = Cudd_FirstCube(M, Cudd_NotCond(f, k), &c, &v);
			while (!Cudd_IsGenEmpty(gen)) { (k ? zeros : ones)++; Cudd_NextCube(gen, &c, &v); }
			Cudd_GenFree(gen);
		}
		put(" %d %d", ones, ones + zeros);
	}
	OP("cofmint") {
		DdNode *f = b();
		double *s = Cudd_CofMinterm(M, f);
		for (int i = 0; i <= N; i++) put("%s%.17g", i ? " " : "", s[i]);
		free(s);
	}
	OP("corr") {
		DdNode *f = b(), *g = b();
		std::vector<double> p;
		for (int i = 0; i < N; i++) p.push_back(D());
		put("%.17g", Cudd_bddCorrelation(M, f, g));
		put(" %.17g", Cudd_bddCorrelationWeights(M, f, g, p.data()));
	}
	OP("cubes") {
		DdNode *f = b();
		int *c;
		double v;
		DdGen *g = Cudd_FirstCube(M, f, &c, &v);
		for (int k = 0; !Cudd_IsGenEmpty(g) && k < 4000; k++) {
			for (int i = 0; i < N; i++) put("%d", c[i]);
			out += " ";
			Cudd_NextCube(g, &c, &v);
		}
		Cudd_GenFree(g);
	}
	OP("primes") {
		DdNode *l = b(), *u = b();
		int *c;
		DdGen *g = Cudd_FirstPrime(M, l, u, &c);
		for (int k = 0; !Cudd_IsGenEmpty(g) && k < 4000; k++) {
			for (int i = 0; i < N; i++) put("%d", c[i]);
			out += " ";
			Cudd_NextPrime(g, &c);
		}
		Cudd_GenFree(g);
	}
	OP("nodes") {
		DdNode *f = b(), *x;
		std::set<DdNode *> all, got;
		nodes(f, all);
		DdGen *g = Cudd_FirstNode(M, f, &x);
		int n = 0;
		bool topdown = true;
		while (!Cudd_IsGenEmpty(g)) {
			n++;
			got.insert(Cudd_Regular(x));
			Cudd_NextNode(g, &x);
		}
		Cudd_GenFree(g);
		put("%d %d %d", n, (int)all.size(), (int)(got == all));
		(void)topdown;
	}
	OP("pickcube") {
		DdNode *f = b();
		char s[40];
		int r = Cudd_bddPickOneCube(M, f, s);
		put("%d", r);
		if (r) { out += " "; for (int i = 0; i < N; i++) put("%d", s[i]); }
	}
	OP("pickone") { DdNode *&d = b(), *f = b(); std::vector<DdNode *> x = bvars(ints()); set(d, Cudd_bddPickOneMinterm(M, f, x.data(), x.size())); }
	OP("pickarb") {
		DdNode *f = b();
		std::vector<DdNode *> x = bvars(ints());
		int k = I();
		DdNode **r = Cudd_bddPickArbitraryMinterms(M, f, x.data(), x.size(), k);
		if (!r) out += "NULL";
		else {
			for (int i = 0; i < k; i++) Cudd_Ref(r[i]);
			for (int i = 0; i < k; i++) { out += hex(r[i]); out += " "; Cudd_RecursiveDeref(M, r[i]); }
			free(r);
		}
		Cudd_ClearErrorCode(M);
	}
	OP("maskvars") {
		DdNode *&d = b(), *f = b();
		std::vector<DdNode *> x = bvars(ints()), y = bvars(ints());
		set(d, Cudd_SubsetWithMaskVars(M, f, x.data(), x.size(), y.data(), y.size()));
	}
	OP("largestcube") { DdNode *&d = b(), *f = b(); int len = -1; set(d, Cudd_LargestCube(M, f, &len)); put(" %d", len); }
	OP("shortest") {
		DdNode *&d = b(), *f = b();
		std::vector<int> w = ints(), s(N, -1);
		int len = -1;
		set(d, Cudd_ShortestPath(M, f, w.empty() ? NULL : w.data(), s.data(), &len));
		put(" %d %d :", len, Cudd_ShortestLength(M, B[0] == NULL ? f : f, w.empty() ? NULL : w.data()));
		for (int x : s) put(" %d", x);
	}
	OP("makeprime") { DdNode *&d = b(), *f = b(), *g = b(); set(d, Cudd_bddMakePrime(M, f, g)); }
	OP("maxexpand") { DdNode *&d = b(), *f = b(), *g = b(), *h = b(); set(d, Cudd_bddMaximallyExpand(M, f, g, h)); }
	OP("largestprimeunate") { DdNode *&d = b(), *f = b(), *g = b(); set(d, Cudd_bddLargestPrimeUnate(M, f, g)); }
	OP("closest") { DdNode *&d = b(), *f = b(), *g = b(); int dist = -1; set(d, Cudd_bddClosestCube(M, f, g, &dist)); put(" %d", dist); }
	OP("hamming") { DdNode *f = b(); std::vector<int> m = ints(); put("%d", Cudd_MinHammingDist(M, f, m.data(), I())); }
	OP("decreasing") { DdNode *f = b(); int i = I(); out += hex(Cudd_Decreasing(M, f, i)) + " " + hex(Cudd_Increasing(M, f, i)); }
	OP("essential") {
		DdNode *&d = b(), *f = b();
		DdNode *g = f;
		Cudd_Ref(g);
		set(d, Cudd_FindEssential(M, f));
		for (int i = 0; i < N; i++) put(" %d%d", Cudd_bddIsVarEssential(M, g, i, 0), Cudd_bddIsVarEssential(M, g, i, 1));
		Cudd_RecursiveDeref(M, g);
	}
	OP("clauses") {
		DdNode *f = b();
		int force = I();
		// with a changed order the function reads past the end of its arrays (known finding)
		for (int i = 0; i < N && !force; i++) if (Cudd_ReadPerm(M, i) != i) { out += "SKIP"; return; }
		DdTlcInfo *t = Cudd_FindTwoLiteralClauses(M, f);
		if (!t) { out += "NULL"; return; }
		unsigned v1, v2;
		int p1, p2;
		for (int i = 0; Cudd_ReadIthClause(t, i, &v1, &v2, &p1, &p2); i++) put("%d,%d,%d,%d ", (int)v1, p1, v2 == CUDD_MAXINDEX ? -1 : (int)v2, p2);
		Cudd_tlcInfoFree(t);
	}
	OP("symmetric") { DdNode *f = b(); int i = I(); put("%d", Cudd_VarsAreSymmetric(M, f, i, I())); }
	OP("approx") {
		DdNode *&d = b(), *f = b(), *g = b();
		int k = I(), nv = I(), th = I(), flag = I();
		double q = D(), q2 = D();
		DdNode *r = NULL;
		switch (k) {
		case 0: r = Cudd_UnderApprox(M, f, nv, th, flag, q); break;
		case 1: r = Cudd_OverApprox(M, f, nv, th, flag, q); break;
		case 2: r = Cudd_RemapUnderApprox(M, f, nv, th, q); break;
		case 3: r = Cudd_RemapOverApprox(M, f, nv, th, q); break;
		case 4: r = Cudd_BiasedUnderApprox(M, f, g, nv, th, q, q2); break;
		case 5: r = Cudd_BiasedOverApprox(M, f, g, nv, th, q, q2); break;
		case 6: r = Cudd_SubsetHeavyBranch(M, f, nv, th); break;
		case 7: r = Cudd_SupersetHeavyBranch(M, f, nv, th); break;
		case 8: r = Cudd_SubsetShortPaths(M, f, nv, th, flag); break;
		case 9: r = Cudd_SupersetShortPaths(M, f, nv, th, flag); break;
		case 10: r = Cudd_SubsetCompress(M, f, nv, th); break;
		case 11: r = Cudd_SupersetCompress(M, f, nv, th); break;
		}
		set(d, r);
	}
	OP("decomp") {
		DdNode *&x = b(), *&y = b(), *f = b(), **arr = NULL;
		int k = I(), n = -1;
		switch (k) {
		case 0: n = Cudd_bddApproxConjDecomp(M, f, &arr); break;
		case 1: n = Cudd_bddApproxDisjDecomp(M, f, &arr); break;
		case 2: n = Cudd_bddIterConjDecomp(M, f, &arr); break;
		case 3: n = Cudd_bddIterDisjDecomp(M, f, &arr); break;
		case 4: n = Cudd_bddGenConjDecomp(M, f, &arr); break;
		case 5: n = Cudd_bddGenDisjDecomp(M, f, &arr); break;
		case 6: n = Cudd_bddVarConjDecomp(M, f, &arr); break;
		case 7: n = Cudd_bddVarDisjDecomp(M, f, &arr); break;
		}
		decomp(n, arr, x, y);
	}
	OP("cdecomp") {
		DdNode *f = b(), **r = I() ? Cudd_bddCharToVect(M, f) : Cudd_bddConstrainDecomp(M, f);
		if (!r) { out += "NULL"; return; }
		for (int i = 0; i < N; i++) { out += hex(r[i]); out += " "; Cudd_RecursiveDeref(M, r[i]); }
		free(r);
		for (int i = 0; i < N; i++) put("%d ", Cudd_ReadInvPerm(M, i));
	}
	OP("solve") {
		DdNode *&d = b(), *f = b();
		std::vector<int> ys = ints();
		DdNode *F = f;
		Cudd_Ref(F);
		std::vector<DdNode *> y = bvars(ys), G(ys.size());
		DdNode *Y = Cudd_bddComputeCube(M, y.data(), NULL, y.size());
		Cudd_Ref(Y);
		int *yi = NULL;
		DdNode *c = Cudd_SolveEqn(M, F, Y, G.data(), &yi, ys.size());
		set(d, c);
		if (c) {
			out += " :";
			for (size_t i = 0; i < ys.size(); i++) { out += " "; put("%d ", yi[i]); out += hex(G[i]); }
			DdNode *v = Cudd_VerifySol(M, F, G.data(), yi, ys.size());
			Cudd_Ref(v);
			out += " : " + hex(v);
			Cudd_RecursiveDeref(M, v);
			for (auto g : G) Cudd_RecursiveDeref(M, g);
		}
		Cudd_RecursiveDeref(M, Y);
		Cudd_RecursiveDeref(M, F);
	}
	OP("split") {
		// a part of the minterms over the given variables and those of the function
		DdNode *&d = b(), *f = b();
		std::vector<int> vs = ints();
		int k = I();
		for (int i = 0; i < N; i++) {
			if (std::find(vs.begin(), vs.end(), i) != vs.end()) continue;
			DdNode *t = Cudd_bddBooleanDiff(M, f, i);
			Cudd_Ref(t);
			if (t != Cudd_ReadLogicZero(M)) vs.push_back(i);
			Cudd_RecursiveDeref(M, t);
		}
		std::vector<DdNode *> x = bvars(vs);
		double c = Cudd_CountMinterm(M, f, x.size()), m = floor(c * k / 8);
		put("%d %.0f ", (int)x.size(), m);
		set(d, Cudd_SplitSet(M, f, x.data(), x.size(), m));
	}
	OP("cproj") { DdNode *&d = b(), *f = b(), *g = b(); set(d, Cudd_CProjection(M, f, g)); }
	OP("prio") {
		DdNode *&d = b(), *f = b();
		std::vector<DdNode *> x = bvars(ints()), y = bvars(ints()), w = bvars(ints());
		int k = I();
		set(d, Cudd_PrioritySelect(M, f, x.data(), y.data(), w.data(), k == 3 ? b() : NULL, x.size(), k == 0 ? Cudd_Xgty : k == 1 ? Cudd_Dxygtdxz : Cudd_Dxygtdyz));
	}
	OP("xgty") { DdNode *&d = b(); std::vector<DdNode *> x = bvars(ints()), y = bvars(ints()); set(d, Cudd_Xgty(M, x.size(), NULL, x.data(), y.data())); }
	OP("xeqy") { DdNode *&d = b(); std::vector<DdNode *> x = bvars(ints()), y = bvars(ints()); set(d, Cudd_Xeqy(M, x.size(), x.data(), y.data())); }
	OP("dxyxz") { DdNode *&d = b(); std::vector<DdNode *> x = bvars(ints()), y = bvars(ints()), w = bvars(ints()); set(d, Cudd_Dxygtdxz(M, x.size(), x.data(), y.data(), w.data())); }
	OP("dxyyz") { DdNode *&d = b(); std::vector<DdNode *> x = bvars(ints()), y = bvars(ints()), w = bvars(ints()); set(d, Cudd_Dxygtdyz(M, x.size(), x.data(), y.data(), w.data())); }
	OP("ineq") { DdNode *&d = b(); std::vector<DdNode *> x = bvars(ints()), y = bvars(ints()); set(d, Cudd_Inequality(M, x.size(), I(), x.data(), y.data())); }
	OP("diseq") { DdNode *&d = b(); std::vector<DdNode *> x = bvars(ints()), y = bvars(ints()); set(d, Cudd_Disequality(M, x.size(), I(), x.data(), y.data())); }
	OP("interval") { DdNode *&d = b(); std::vector<DdNode *> x = bvars(ints()); int l = I(); set(d, Cudd_bddInterval(M, x.size(), x.data(), l, I())); }
	OP("transfer") {
		// to the other manager and back
		DdNode *&d = b(), *f = b();
		DdNode *t = Cudd_bddTransfer(M, M2, f);
		Cudd_Ref(t);
		DdNode *r = Cudd_bddTransfer(M2, M, t);
		set(d, r);
		Cudd_RecursiveDeref(M2, t);
	}
	OP("eval") {
		DdNode *f = b();
		std::vector<int> v(N);
		for (int m = 0; m < (1 << N); m++) {
			for (int i = 0; i < N; i++) v[i] = m >> i & 1;
			out += Cudd_Eval(M, f, v.data()) == Cudd_ReadOne(M) ? '1' : '0';
		}
	}
	OP("estimate") { DdNode *f = b(); int i = I(); int p = I(); put("%d %d", Cudd_EstimateCofactor(M, f, i, p), Cudd_EstimateCofactorSimple(f, i)); }
	OP("isvar") { DdNode *f = b(); put("%d", Cudd_bddIsVar(M, f)); }
	else { out += "UNKNOWN " + op; }
}

// ------------------------------------------------------------------ manager
static void run_mgr(const std::string &op) {
	if (op == "m_reorder") { int k = I(); put("%d", Cudd_ReduceHeap(M, (Cudd_ReorderingType)k, I())); }
	OP("m_shuffle") { std::vector<int> p = ints(); put("%d", Cudd_ShuffleHeap(M, p.data())); for (int i = 0; i < N; i++) put(" %d", Cudd_ReadInvPerm(M, i)); }
	OP("m_lgroup") {
		// a group of the variables from the given one on, in the present order
		int v = I(), k = I(), fixed = I();
		std::vector<int> o;
		for (int i = 0; i < N; i++) o.push_back(Cudd_ReadInvPerm(M, i));
		if (Cudd_ReadPerm(M, v) + k <= N) put("%d", Cudd_MakeTreeNode(M, v, k, fixed ? MTR_FIXED : MTR_DEFAULT) != NULL);
		else put("-1");
		for (int i : o) put(" %d", i);
	}
	OP("m_gshuffle") { std::vector<int> p = ints(); put("%d", Cudd_ShuffleHeap(M, p.data())); for (int i = 0; i < N; i++) put(" %d", Cudd_ReadInvPerm(M, i)); }
	OP("m_shuffle2") { std::vector<int> p = ints(); put("%d", Cudd_ShuffleHeap(M2, p.data())); }
	OP("m_reorder2") {
		int k = I(), r;
		cuddGarbageCollect(M, 1);
		int before = Cudd_SharingSize(B.data(), B.size());
		r = Cudd_ReduceHeap(M, (Cudd_ReorderingType)k, 0);
		put("%d %d %d", r, before, Cudd_SharingSize(B.data(), B.size()));
		for (int i = 0; i < N; i++) put(" %d", Cudd_ReadInvPerm(M, i));
	}
	OP("m_treefree") { Cudd_FreeTree(M); out += "ok"; }
	OP("m_gc") { put("%d", (int)(cuddGarbageCollect(M, 1) >= 0)); }
	OP("m_auto") { int k = I(); if (k) Cudd_AutodynEnable(M, (Cudd_ReorderingType)k); else Cudd_AutodynDisable(M); Cudd_SetNextReordering(M, I()); out += "ok"; }
	OP("m_next") { Cudd_SetNextReordering(M, I()); out += "ok"; }
	OP("m_gcoff") { if (I()) Cudd_DisableGarbageCollection(M); else Cudd_EnableGarbageCollection(M); out += "ok"; }
	OP("m_growth") { Cudd_SetMaxGrowth(M, D()); Cudd_SetSiftMaxVar(M, I()); out += "ok"; }
	OP("m_cache") { Cudd_SetMaxCacheHard(M, I()); Cudd_SetMinHit(M, I()); out += "ok"; }
	OP("m_bind") { int i = I(); put("%d", I() ? Cudd_bddBindVar(M, i) : Cudd_bddUnbindVar(M, i)); }
	OP("m_group") { int lo = I(), n = I(); put("%d", Cudd_MakeTreeNode(M, lo, n, I() ? MTR_FIXED : MTR_DEFAULT) != NULL); }
	OP("m_groups") {
		// the variables of a group are adjacent
		out += "order";
		for (int i = 0; i < N; i++) put(" %d", Cudd_ReadInvPerm(M, i));
	}
	OP("m_debug") { debug(); }
	OP("m_all") { checkAll(); }
	OP("m_zshuffle") { std::vector<int> p = ints(); put("%d", Cudd_zddShuffleHeap(M, p.data())); }
	OP("m_zreorder") { int k = I(); put("%d", Cudd_zddReduceHeap(M, (Cudd_ReorderingType)k, I())); }
	OP("m_zauto") { int k = I(); if (k) Cudd_AutodynEnableZdd(M, (Cudd_ReorderingType)k); else Cudd_AutodynDisableZdd(M); Cudd_SetNextReordering(M, I()); out += "ok"; }
	OP("m_realign") { if (I()) Cudd_zddRealignEnable(M); else Cudd_zddRealignDisable(M); out += "ok"; }
	OP("m_reserve") { put("%d", Cudd_Reserve(M, I())); }
	else { out += "UNKNOWN " + op; }
}

static DD_AOP aop(int k) {
	static const DD_AOP t[] = {Cudd_addPlus, Cudd_addTimes, Cudd_addThreshold, Cudd_addSetNZ, Cudd_addDivide, Cudd_addMinus, Cudd_addMinimum,
		Cudd_addMaximum, Cudd_addOneZeroMaximum, Cudd_addDiff, Cudd_addAgreement, Cudd_addOr, Cudd_addNand, Cudd_addNor, Cudd_addXor, Cudd_addXnor};
	return t[k];
}
static void run_add(const std::string &op) {
	if (op == "a_vals") {
		DdNode *&d = a();
		std::vector<double> v;
		for (int i = 0; i < (1 << N); i++) v.push_back(D());
		DdNode *r = fromvals(v, N - 1, 0);
		seta(d, r);
		Cudd_RecursiveDeref(M, r);
	}
	OP("a_const") { DdNode *&d = a(); seta(d, Cudd_addConst(M, D())); }
	OP("a_var") { DdNode *&d = a(); seta(d, Cudd_addIthVar(M, I())); }
	OP("a_apply") { int k = I(); DdNode *&d = a(), *f = a(), *g = a(); seta(d, Cudd_addApply(M, aop(k), f, g)); }
	OP("a_log") { DdNode *&d = a(), *f = a(); seta(d, Cudd_addMonadicApply(M, Cudd_addLog, f)); }
	OP("a_ite") { DdNode *&d = a(), *f = a(), *g = a(), *h = a(); seta(d, Cudd_addIte(M, f, g, h)); }
	OP("a_itec") { DdNode *f = a(), *g = a(), *h = a(), *r = Cudd_addIteConstant(M, f, g, h); if (r == DD_NON_CONSTANT) out += "NONCONST"; else { Cudd_Ref(r); out += atab(r); Cudd_RecursiveDeref(M, r); } }
	OP("a_evalc") { DdNode *f = a(), *g = a(), *r = Cudd_addEvalConst(M, f, g); if (r == DD_NON_CONSTANT) out += "NONCONST"; else { Cudd_Ref(r); out += atab(r); Cudd_RecursiveDeref(M, r); } }
	OP("a_cmpl") { DdNode *&d = a(), *f = a(); seta(d, Cudd_addCmpl(M, f)); }
	OP("a_negate") { DdNode *&d = a(), *f = a(); seta(d, Cudd_addNegate(M, f)); }
	OP("a_round") { DdNode *&d = a(), *f = a(); seta(d, Cudd_addRoundOff(M, f, I())); }
	OP("a_max") { DdNode *f = a(); put("%.17g %.17g", Cudd_V(Cudd_addFindMax(M, f)), Cudd_V(Cudd_addFindMin(M, f))); }
	OP("a_bit") { DdNode *&d = a(), *f = a(); seta(d, Cudd_addIthBit(M, f, I())); }
	OP("a_inv") { DdNode *&d = a(), *f = a(), *e = Cudd_addConst(M, D()); Cudd_Ref(e); seta(d, Cudd_addScalarInverse(M, f, e)); Cudd_RecursiveDeref(M, e); }
	OP("a_leq") { DdNode *f = a(), *g = a(); put("%d", Cudd_addLeq(M, f, g)); }
	OP("a_exist") {
		int k = I();
		DdNode *&d = a(), *f = a();
		std::vector<DdNode *> x = avars(ints());
		DdNode *c = Cudd_addComputeCube(M, x.data(), NULL, x.size());
		Cudd_Ref(c);
		seta(d, k == 0 ? Cudd_addExistAbstract(M, f, c) : k == 1 ? Cudd_addUnivAbstract(M, f, c) : Cudd_addOrAbstract(M, f, c));
		Cudd_RecursiveDeref(M, c);
		drop(x);
	}
	OP("a_tobdd") {
		DdNode *&d = b(), *f = a();
		int k = I();
		double x = D(), y = D();
		set(d, k == 0 ? Cudd_addBddThreshold(M, f, x) : k == 1 ? Cudd_addBddStrictThreshold(M, f, x) : k == 2 ? Cudd_addBddInterval(M, f, x, y) :
		    k == 3 ? Cudd_addBddIthBit(M, f, (int)x) : Cudd_addBddPattern(M, f));
	}
	OP("a_frombdd") { DdNode *&d = a(), *f = b(); seta(d, Cudd_BddToAdd(M, f)); }
	OP("a_compose") { DdNode *&d = a(), *f = a(), *g = a(); seta(d, Cudd_addCompose(M, f, g, I())); }
	OP("a_vcompose") {
		DdNode *&d = a(), *f = a();
		int k = I();
		std::vector<DdNode *> v, w;
		for (int i = 0; i < N; i++) { v.push_back(Cudd_BddToAdd(M, b())); Cudd_Ref(v.back()); }
		for (int i = 0; i < N; i++) { w.push_back(Cudd_addCmpl(M, v[i])); Cudd_Ref(w.back()); }
		seta(d, k == 0 ? Cudd_addVectorCompose(M, f, v.data()) : Cudd_addGeneralVectorCompose(M, f, v.data(), w.data()));
		drop(v);
		drop(w);
	}
	OP("a_nonsim") {
		// only the given variables are substituted, by functions without them
		DdNode *&d = a(), *f = a();
		std::vector<int> vs = ints();
		std::vector<DdNode *> v;
		DdNode *c = Cudd_IndicesToCube(M, vs.data(), vs.size());
		Cudd_Ref(c);
		for (int i = 0; i < N; i++) {
			DdNode *g = b(), *t;
			if (std::find(vs.begin(), vs.end(), i) == vs.end()) t = Cudd_bddIthVar(M, i);
			else t = Cudd_bddExistAbstract(M, g, c);
			Cudd_Ref(t);
			v.push_back(Cudd_BddToAdd(M, t));
			Cudd_Ref(v.back());
			Cudd_RecursiveDeref(M, t);
		}
		Cudd_RecursiveDeref(M, c);
		seta(d, Cudd_addNonSimCompose(M, f, v.data()));
		drop(v);
	}
	OP("a_permute") { DdNode *&d = a(), *f = a(); std::vector<int> p = ints(); seta(d, Cudd_addPermute(M, f, p.data())); }
	OP("a_swap") {
		DdNode *&d = a(), *f = a();
		std::vector<DdNode *> x = avars(ints()), y = avars(ints());
		seta(d, Cudd_addSwapVariables(M, f, x.data(), y.data(), x.size()));
		drop(x);
		drop(y);
	}
	OP("a_cofactor") {
		DdNode *&d = a(), *f = a();
		std::vector<DdNode *> x = avars(ints());
		std::vector<int> p = ints();
		DdNode *c = Cudd_addComputeCube(M, x.data(), p.data(), x.size());
		Cudd_Ref(c);
		seta(d, Cudd_Cofactor(M, f, c));
		Cudd_RecursiveDeref(M, c);
		drop(x);
	}
	OP("a_constrain") {
		int k = I();
		DdNode *&d = a(), *f = a(), *c = Cudd_BddToAdd(M, b());
		Cudd_Ref(c);
		seta(d, k ? Cudd_addRestrict(M, f, c) : Cudd_addConstrain(M, f, c));
		Cudd_RecursiveDeref(M, c);
	}
	OP("a_matmul") {
		int k = I();
		DdNode *&d = a(), *f = a(), *g = a();
		std::vector<DdNode *> x = avars(ints());
		seta(d, k == 0 ? Cudd_addMatrixMultiply(M, f, g, x.data(), x.size()) : k == 1 ? Cudd_addTimesPlus(M, f, g, x.data(), x.size()) :
		     Cudd_addTriangle(M, f, g, x.data(), x.size()));
		drop(x);
	}
	OP("a_outer") { DdNode *&d = a(), *f = a(), *g = a(), *h = a(); seta(d, Cudd_addOuterSum(M, f, g, h)); }
	OP("a_walsh") { DdNode *&d = a(); std::vector<DdNode *> x = avars(ints()), y = avars(ints()); seta(d, Cudd_addWalsh(M, x.data(), y.data(), x.size())); drop(x); drop(y); }
	OP("a_residue") { DdNode *&d = a(); int n = I(), m = I(), o = I(); seta(d, Cudd_addResidue(M, n, m, o, I())); }
	OP("a_xeqy") { DdNode *&d = a(); std::vector<DdNode *> x = avars(ints()), y = avars(ints()); seta(d, Cudd_addXeqy(M, x.size(), x.data(), y.data())); drop(x); drop(y); }
	OP("a_hamming") { DdNode *&d = a(); std::vector<DdNode *> x = bvars(ints()), y = bvars(ints()); seta(d, Cudd_addHamming(M, x.data(), y.data(), x.size())); }
	OP("a_count") {
		DdNode *f = a();
		std::set<DdNode *> all, leaves;
		nodes(f, all);
		for (auto x : all) if (Cudd_IsConstant(x)) leaves.insert(x);
		put("%.17g %.17g %.17g %d %d %d %d", Cudd_CountMinterm(M, f, N), Cudd_CountPath(f), Cudd_CountPathsToNonZero(f), Cudd_DagSize(f),
		    (int)all.size(), Cudd_CountLeaves(f), (int)leaves.size());
	}
	OP("a_cubes") {
		DdNode *f = a();
		int *c;
		double v;
		DdGen *g = Cudd_FirstCube(M, f, &c, &v);
		for (int k = 0; !Cudd_IsGenEmpty(g) && k < 4000; k++) {
			for (int i = 0; i < N; i++) put("%d", c[i]);
			put(":%.17g ", v);
			Cudd_NextCube(g, &c, &v);
		}
		Cudd_GenFree(g);
	}
	OP("a_support") { DdNode *f = a(); int *s = Cudd_SupportIndex(M, f); for (int i = 0; i < N; i++) put("%d ", s[i]); free(s); }
	OP("a_essential") { DdNode *f = a(), *r = Cudd_FindEssential(M, f); Cudd_Ref(r); out += hex(r); Cudd_RecursiveDeref(M, r); }
	OP("a_equal") { DdNode *f = a(), *g = a(); put("%d", Cudd_EqualSupNorm(M, f, g, D(), 0)); }
	OP("a_eval") {
		DdNode *f = a();
		std::vector<int> v(N);
		for (int m = 0; m < (1 << N); m++) {
			for (int i = 0; i < N; i++) v[i] = m >> i & 1;
			put("%s%.17g", m ? "," : "", Cudd_V(Cudd_Eval(M, f, v.data())));
		}
	}
	else { out += "UNKNOWN " + op; }
}

static void run_zdd(const std::string &op) {
	if (op == "z_sets") {
		// builds the family given as a 0/1 string with union, change
		DdNode *&d = z();
		std::string s;
		*in >> s;
		DdNode *r = Cudd_ReadZero(M);
		Cudd_Ref(r);
		for (size_t m = 0; m < s.size(); m++) {
			if (s[m] != '1') continue;
			DdNode *e = Cudd_ReadZddOne(M, 0), *t;
			// the empty set is the family with every variable absent: the constant 1
			e = Cudd_ReadOne(M);
			Cudd_Ref(e);
			for (int i = 0; i < NZ; i++) if (m >> i & 1) {
				t = Cudd_zddChange(M, e, i);
				Cudd_Ref(t);
				Cudd_RecursiveDerefZdd(M, e);
				e = t;
			}
			t = Cudd_zddUnion(M, r, e);
			Cudd_Ref(t);
			Cudd_RecursiveDerefZdd(M, r);
			Cudd_RecursiveDerefZdd(M, e);
			r = t;
		}
		setz(d, r);
		Cudd_RecursiveDerefZdd(M, r);
	}
	OP("z_var") { DdNode *&d = z(); setz(d, Cudd_zddIthVar(M, I())); }
	OP("z_one") { DdNode *&d = z(); setz(d, Cudd_ReadZddOne(M, I())); }
	OP("z_union") { DdNode *&d = z(), *f = z(), *g = z(); setz(d, Cudd_zddUnion(M, f, g)); }
	OP("z_inter") { DdNode *&d = z(), *f = z(), *g = z(); setz(d, Cudd_zddIntersect(M, f, g)); }
	OP("z_diff") { DdNode *&d = z(), *f = z(), *g = z(); setz(d, Cudd_zddDiff(M, f, g)); }
	OP("z_diffc") { DdNode *f = z(), *g = z(), *r = Cudd_zddDiffConst(M, f, g); if (r == DD_NON_CONSTANT) out += "NONCONST"; else { Cudd_Ref(r); out += ztab(r); Cudd_RecursiveDerefZdd(M, r); } }
	OP("z_ite") { DdNode *&d = z(), *f = z(), *g = z(), *h = z(); setz(d, Cudd_zddIte(M, f, g, h)); }
	OP("z_sub0") { DdNode *&d = z(), *f = z(); setz(d, Cudd_zddSubset0(M, f, I())); }
	OP("z_sub1") { DdNode *&d = z(), *f = z(); setz(d, Cudd_zddSubset1(M, f, I())); }
	OP("z_change") { DdNode *&d = z(), *f = z(); setz(d, Cudd_zddChange(M, f, I())); }
	OP("z_uprod") { DdNode *&d = z(), *f = z(), *g = z(); setz(d, Cudd_zddUnateProduct(M, f, g)); }
	OP("z_prod") { DdNode *&d = z(), *f = z(), *g = z(); setz(d, Cudd_zddProduct(M, f, g)); }
	OP("z_divide") { DdNode *&d = z(), *f = z(), *g = z(); setz(d, Cudd_zddDivide(M, f, g)); }
	OP("z_divideF") { DdNode *&d = z(), *f = z(), *g = z(); setz(d, Cudd_zddDivideF(M, f, g)); }
	OP("z_wdiv") { DdNode *&d = z(), *f = z(), *g = z(); setz(d, Cudd_zddWeakDiv(M, f, g)); }
	OP("z_wdivF") { DdNode *&d = z(), *f = z(), *g = z(); setz(d, Cudd_zddWeakDivF(M, f, g)); }
	OP("z_compl") { DdNode *&d = z(), *f = z(); setz(d, Cudd_zddComplement(M, f)); }
	OP("z_count") {
		DdNode *f = z();
		int k = Cudd_zddDagSize(f);
		put("%d %.17g %.17g %d", Cudd_zddCount(M, f), Cudd_zddCountDouble(M, f), Cudd_zddCountMinterm(M, f, NZ), k);
	}
	OP("z_isop") {
		DdNode *&d = b(), *&e = z(), *l = b(), *u = b();
		DdNode *zz = NULL, *r = Cudd_zddIsop(M, l, u, &zz);
		if (!r) { put("NULL error %d", (int)Cudd_ReadErrorCode(M)); return; }
		Cudd_Ref(r);
		Cudd_Ref(zz);
		set(d, r);
		out += " ";
		setz(e, zz);
		Cudd_RecursiveDeref(M, r);
		Cudd_RecursiveDerefZdd(M, zz);
	}
	OP("z_cover") { DdNode *&d = b(), *f = z(); set(d, Cudd_MakeBddFromZddCover(M, f)); }
	OP("z_frombdd") { DdNode *&d = z(), *f = b(); setz(d, Cudd_zddPortFromBdd(M, f)); }
	OP("z_tobdd") { DdNode *&d = b(), *f = z(); set(d, Cudd_zddPortToBdd(M, f)); }
	OP("z_support") { DdNode *&d = b(), *f = z(); set(d, Cudd_zddSupport(M, f)); }
	OP("z_paths") {
		DdNode *f = z();
		int *p;
		DdGen *g = Cudd_zddFirstPath(M, f, &p);
		for (int k = 0; !Cudd_IsGenEmpty(g) && k < 4000; k++) {
			for (int i = 0; i < NZ; i++) put("%d", p[i]);
			out += " ";
			Cudd_zddNextPath(g, &p);
		}
		Cudd_GenFree(g);
	}
	else { out += "UNKNOWN " + op; }
}

// ------------------------------------------------------------------ files
static void run_io(const std::string &op) {
	std::string path = scratch + "/dd.out";
	if (op == "i_dddmp") {
		// mode (A or B), variable information, to this manager or to the other one and back
		DdNode *&d = b(), *f = b();
		int mode = I(), info = I(), useNames = I(), other = I();
		std::vector<char *> n = names("v");
		std::vector<int> aux(N);
		for (int i = 0; i < N; i++) aux[i] = i + 7;
		FILE *fp = fopen(path.c_str(), "w");
		char name[] = "f";
		int r = Dddmp_cuddBddStore(M, name, f, useNames ? n.data() : NULL, aux.data(), mode ? DDDMP_MODE_BINARY : DDDMP_MODE_TEXT,
		                           (Dddmp_VarInfoType)info, NULL, fp);
		fclose(fp);
		put("%d ", r);
		if (r == DDDMP_SUCCESS) {
			DdManager *m = other ? M2 : M;
			fp = fopen(path.c_str(), "r");
			DdNode *g = Dddmp_cuddBddLoad(m, DDDMP_VAR_MATCHIDS, NULL, NULL, NULL, DDDMP_MODE_DEFAULT, NULL, fp);
			fclose(fp);
			if (!g) out += "NULL";
			else {
				// g is referenced
				if (other) {
					DdNode *t = Cudd_bddTransfer(M2, M, g);
					Cudd_Ref(t);
					Cudd_RecursiveDeref(M2, g);
					g = t;
				}
				setref(d, g);
			}
		}
		freenames(n);
	}
	OP("i_dddmpa") {
		// several roots
		std::vector<int> src = ints(), dst = ints();
		int mode = I(), kind = I();
		std::vector<DdNode *> f;
		for (int i : src) f.push_back(B[i % B.size()]);
		std::vector<char *> n = names("v"), rn;
		for (size_t i = 0; i < f.size(); i++) { char buf[20]; snprintf(buf, sizeof buf, "r%d", (int)i); rn.push_back(strdup(buf)); }
		FILE *fp = fopen(path.c_str(), "w");
		char name[] = "all";
		int r = Dddmp_cuddBddArrayStore(M, name, f.size(), f.data(), rn.data(), n.data(), NULL, mode ? DDDMP_MODE_BINARY : DDDMP_MODE_TEXT,
		                                DDDMP_VARDEFAULT, NULL, fp);
		fclose(fp);
		put("%d", r);
		if (r == DDDMP_SUCCESS) {
			fp = fopen(path.c_str(), "r");
			DdNode **roots = NULL;
			std::vector<char *> rr(rn.rbegin(), rn.rend());
			int k = Dddmp_cuddBddArrayLoad(M, kind ? DDDMP_ROOT_MATCHNAMES : DDDMP_ROOT_MATCHLIST, kind ? rr.data() : NULL, DDDMP_VAR_MATCHNAMES, n.data(),
			                               NULL, NULL, DDDMP_MODE_DEFAULT, NULL, fp, &roots);
			fclose(fp);
			put(" %d", k);
			for (int i = 0; i < k; i++) { out += " "; setref(B[dst[i] % B.size()], roots[i]); }
			free(roots);
		}
		freenames(n);
		freenames(rn);
	}
	OP("i_dddmpadd") {
		// mode: +1 by file name, +2 as an array with a second function
		DdNode *&d = a(), *f = a();
		int mode = I(), free0 = dup(0);
		close(free0);
		char name[] = "f", r0[] = "one", r1[] = "two";
		char *fn = mode & 1 ? (char *)path.c_str() : NULL;
		FILE *fp = mode & 1 ? NULL : fopen(path.c_str(), "w");
		DdNode *fs[2] = {f, Cudd_ReadOne(M)};
		char *rn[2] = {r0, r1};
		int r;
		if (mode & 2) r = Dddmp_cuddAddArrayStore(M, name, 2, fs, rn, NULL, NULL, DDDMP_MODE_TEXT, DDDMP_VARIDS, fn, fp);
		else r = Dddmp_cuddAddStore(M, name, f, NULL, NULL, DDDMP_MODE_TEXT, DDDMP_VARIDS, fn, fp);
		if (fp) fclose(fp);
		put("%d ", r);
		if (r == DDDMP_SUCCESS) {
			fp = mode & 1 ? NULL : fopen(path.c_str(), "r");
			DdNode *g = NULL;
			if (mode & 2) {
				DdNode **gs = NULL;
				int k = Dddmp_cuddAddArrayLoad(M, DDDMP_ROOT_MATCHNAMES, rn, DDDMP_VAR_MATCHIDS, NULL, NULL, NULL, DDDMP_MODE_DEFAULT, fn, fp, &gs);
				put("%d,%d ", k, k == 2 && gs[1] == Cudd_ReadOne(M));
				if (k == 2) { g = gs[0]; Cudd_RecursiveDeref(M, gs[1]); }
				if (gs) free(gs);
			} else {
				g = Dddmp_cuddAddLoad(M, DDDMP_VAR_MATCHIDS, NULL, NULL, NULL, DDDMP_MODE_DEFAULT, fn, fp);
				put("2,1 ");
			}
			if (fp) fclose(fp);
			int free1 = dup(0);
			close(free1);
			put("%d ", free1 == free0);
			seta(d, g);
			if (g) Cudd_RecursiveDeref(M, g);
		}
	}
	OP("i_cnf") {
		DdNode *f = b();
		int mode = I(), noHeader = 0, edgeMax = I(), pathMax = I();
		std::vector<int> ids(N), aux(N), cnf(N);
		for (int i = 0; i < N; i++) { ids[i] = i; aux[i] = i; cnf[i] = i + 1; }
		FILE *fp = fopen(path.c_str(), "w");
		int clauses = -1, vars = -1;
		int r = Dddmp_cuddBddStoreCnf(M, f, (Dddmp_DecompCnfStoreType)mode, noHeader, NULL, ids.data(), aux.data(), cnf.data(), N + 1, edgeMax, pathMax, NULL, fp,
		                              &clauses, &vars);
		fclose(fp);
		put("%d %d %d ", r, clauses, vars);
		esc(slurp(path));
	}
	OP("i_file") {
		// the text of a file with several roots
		std::vector<int> src = ints();
		int info = I(), useNames = I();
		std::vector<DdNode *> f;
		for (int i : src) f.push_back(B[i % B.size()]);
		std::vector<char *> n = names("v"), rn;
		for (size_t i = 0; i < f.size(); i++) { char buf[20]; snprintf(buf, sizeof buf, "r%d", (int)i); rn.push_back(strdup(buf)); }
		std::vector<int> aux(N);
		for (int i = 0; i < N; i++) aux[i] = i + 7;
		FILE *fp = fopen(path.c_str(), "w");
		char name[] = "all";
		put("%d ", Dddmp_cuddBddArrayStore(M, name, f.size(), f.data(), rn.data(), useNames ? n.data() : NULL, aux.data(), DDDMP_MODE_TEXT, (Dddmp_VarInfoType)info, NULL, fp));
		fclose(fp);
		for (int i = 0; i < N; i++) put("%d,", Cudd_ReadPerm(M, i));
		put(" ");
		esc(slurp(path));
		freenames(n);
		freenames(rn);
	}
	OP("i_match") {
		DdNode *&d = b(), *f = b();
		int mode = I(), kind = I(), shuffle = I();
		std::vector<int> p = ints(), q = ints();
		std::vector<char *> n = names("v"), m;
		for (int i = 0; i < N; i++) m.push_back(n[p[i]]);
		std::vector<int> aux(N);
		for (int i = 0; i < N; i++) aux[i] = 2 * p[i] + 3;
		FILE *fp = fopen(path.c_str(), "w");
		char name[] = "f";
		int r = Dddmp_cuddBddStore(M, name, f, n.data(), aux.data(), mode ? DDDMP_MODE_BINARY : DDDMP_MODE_TEXT, DDDMP_VARIDS, NULL, fp);
		fclose(fp);
		put("%d ", r);
		for (int i = 0; i < N; i++) put("%d,", Cudd_ReadPerm(M, i));
		if (shuffle) Cudd_ShuffleHeap(M, q.data());
		put(" ");
		for (int i = 0; i < N; i++) put("%d,", Cudd_ReadPerm(M, i));
		put(" ");
		if (r == DDDMP_SUCCESS) {
			fp = fopen(path.c_str(), "r");
			Dddmp_VarMatchType t[] = {DDDMP_VAR_MATCHIDS, DDDMP_VAR_MATCHPERMIDS, DDDMP_VAR_MATCHAUXIDS, DDDMP_VAR_MATCHNAMES, DDDMP_VAR_COMPOSEIDS};
			DdNode *g = Dddmp_cuddBddLoad(M, t[kind], m.data(), aux.data(), p.data(), DDDMP_MODE_DEFAULT, NULL, fp);
			fclose(fp);
			if (!g) out += "NULL";
			else setref(d, g);
		}
		freenames(n);
	}
	OP("i_conv") {
		// text file to binary file and back
		DdNode *&d = b(), *f = b();
		int mode = I(), info = I();
		std::vector<char *> n = names("v");
		std::vector<int> aux(N);
		for (int i = 0; i < N; i++) aux[i] = i + 7;
		FILE *fp = fopen(path.c_str(), "w");
		char name[] = "f";
		int r = Dddmp_cuddBddStore(M, name, f, n.data(), aux.data(), mode ? DDDMP_MODE_BINARY : DDDMP_MODE_TEXT, (Dddmp_VarInfoType)info, NULL, fp);
		fclose(fp);
		std::string p2 = path + ".2", first = slurp(path);
		int r2 = mode ? Dddmp_Bin2Text((char *)path.c_str(), (char *)p2.c_str()) : Dddmp_Text2Bin((char *)path.c_str(), (char *)p2.c_str());
		int r3 = mode ? Dddmp_Text2Bin((char *)p2.c_str(), (char *)path.c_str()) : Dddmp_Bin2Text((char *)p2.c_str(), (char *)path.c_str());
		put("%d %d %d %d ", r, r2, r3, (int)(slurp(path) == first));
		for (int i = 0; i < 2; i++) {
			fp = fopen(i ? path.c_str() : p2.c_str(), "r");
			DdNode *g = Dddmp_cuddBddLoad(M, DDDMP_VAR_MATCHIDS, NULL, NULL, NULL, DDDMP_MODE_DEFAULT, NULL, fp);
			fclose(fp);
			if (!g) out += "NULL";
			else setref(d, g);
			out += " ";
		}
		unlink(p2.c_str());
		freenames(n);
	}
	OP("i_bad") {
		// files that cannot be opened or contain nothing: everything has to report failure and to leave no trace
		int kind = I(), where = I();
		DdNode *f = b(), *g = a();
		std::string bad = where == 0 ? scratch + "/none/none" : where == 1 ? scratch : path;
		if (where == 2) fclose(fopen(path.c_str(), "w"));
		char *file = (char *)bad.c_str(), name[] = "f";
		std::vector<char *> n = names("v");
		std::vector<int> ids(N);
		for (int i = 0; i < N; i++) ids[i] = i + 1;
		char *outs[] = {name};
		DdNode **roots = NULL;
		int r = -1, x, y, z, *i1 = NULL, *i2 = NULL, *i3 = NULL;
		char **s1 = NULL, **s2 = NULL;
		Dddmp_DecompType t;
		switch (kind) {
		case 0: r = Dddmp_cuddBddLoad(M, DDDMP_VAR_MATCHIDS, NULL, NULL, NULL, DDDMP_MODE_DEFAULT, file, NULL) != NULL; break;
		case 1: r = Dddmp_cuddBddArrayLoad(M, DDDMP_ROOT_MATCHLIST, NULL, DDDMP_VAR_MATCHIDS, NULL, NULL, NULL, DDDMP_MODE_DEFAULT, file, NULL, &roots) != 0; break;
		case 2: r = Dddmp_cuddAddLoad(M, DDDMP_VAR_MATCHIDS, NULL, NULL, NULL, DDDMP_MODE_DEFAULT, file, NULL) != NULL; break;
		case 3: r = Dddmp_cuddHeaderLoad(&t, &x, &y, &s1, &s2, &i1, &i2, &i3, &z, file, NULL) == DDDMP_SUCCESS; break;
		case 4: r = Dddmp_cuddBddLoadCnf(M, DDDMP_VAR_MATCHIDS, NULL, NULL, NULL, 0, file, NULL, &roots, &x) == DDDMP_SUCCESS; break;
		case 5: r = Dddmp_cuddHeaderLoadCnf(&x, &y, &s1, &s2, &i1, &i2, &i3, &z, file, NULL) == DDDMP_SUCCESS; break;
		case 6: r = Dddmp_cuddBddStore(M, name, f, n.data(), NULL, DDDMP_MODE_TEXT, DDDMP_VARIDS, file, NULL) == DDDMP_SUCCESS; break;
		case 7: r = Dddmp_cuddAddStore(M, name, g, n.data(), NULL, DDDMP_MODE_TEXT, DDDMP_VARIDS, file, NULL) == DDDMP_SUCCESS; break;
		case 8: r = Dddmp_cuddBddStoreCnf(M, f, DDDMP_CNF_MODE_BEST, 0, NULL, ids.data(), NULL, ids.data(), N + 1, -1, -1, file, NULL, &x, &y) == DDDMP_SUCCESS; break;
		case 9: r = Dddmp_cuddBddStorePrefix(M, 1, f, n.data(), outs, name, file, NULL) == DDDMP_SUCCESS; break;
		case 10: r = Dddmp_cuddBddStoreBlif(M, 1, f, n.data(), outs, name, file, NULL) == DDDMP_SUCCESS; break;
		case 11: r = Dddmp_cuddBddStoreSmv(M, 1, f, n.data(), outs, name, file, NULL) == DDDMP_SUCCESS; break;
		case 12: r = Dddmp_cuddBddArrayStore(M, name, 1, &f, outs, n.data(), NULL, DDDMP_MODE_BINARY, DDDMP_VARIDS, file, NULL) == DDDMP_SUCCESS; break;
		case 13: r = Dddmp_cuddAddArrayLoad(M, DDDMP_ROOT_MATCHLIST, NULL, DDDMP_VAR_MATCHIDS, NULL, NULL, NULL, DDDMP_MODE_DEFAULT, file, NULL, &roots) != 0; break;
		}
		put("%d", r);
		freenames(n);
	}
	OP("i_wide") {
		// several functions, each over its own block of the variables of a large manager, and their symmetric difference
		std::vector<int> src = ints();
		int K = I(), mode = I(), info = I(), shuffle = I(), stride = I(), match = I();
		int blocks = K / N;
		DdManager *m = Cudd_Init(K, 0, 256, 1024, 0), *m2 = Cudd_Init(K, 0, 256, 1024, 0);
		std::vector<int> order(K);
		unsigned x = shuffle;
		for (int i = 0; i < K; i++) order[i] = i;
		if (shuffle) {
			// blocks stay together, otherwise the symmetric difference becomes too large
			std::vector<int> bs(blocks);
			for (int i = 0; i < blocks; i++) bs[i] = i;
			for (int i = blocks - 1; i > 0; i--) { x = x * 1103515245u + 12345u; std::swap(bs[i], bs[(x >> 8) % (i + 1)]); }
			for (int k = 0; k < blocks; k++) {
				for (int i = 0; i < N; i++) order[k * N + i] = bs[k] * N + i;
				for (int i = N - 1; i > 0; i--) { x = x * 1103515245u + 12345u; std::swap(order[k * N + i], order[k * N + (x >> 8) % (i + 1)]); }
			}
			Cudd_ShuffleHeap(m, order.data());
		}
		std::vector<DdNode *> f;
		DdNode *all = Cudd_ReadLogicZero(m);
		Cudd_Ref(all);
		for (int k = 0; k < blocks; k += 1 + stride) {
			DdNode *t = Cudd_bddTransfer(M, m, B[src[k % src.size()] % B.size()]);
			Cudd_Ref(t);
			std::vector<DdNode *> v;
			for (int i = 0; i < K; i++) v.push_back(Cudd_bddIthVar(m, i < N ? (k * N + i) % K : i));
			DdNode *u = Cudd_bddVectorCompose(m, t, v.data());
			Cudd_Ref(u);
			Cudd_RecursiveDeref(m, t);
			DdNode *w = Cudd_bddXor(m, all, u);
			Cudd_Ref(w);
			Cudd_RecursiveDeref(m, all);
			all = w;
			f.push_back(u);
		}
		f.push_back(all);
		std::vector<char *> n;
		std::vector<int> aux(K);
		for (int i = 0; i < K; i++) { char buf[20]; snprintf(buf, sizeof buf, "w%d", i); n.push_back(strdup(buf)); aux[i] = (i * 7) % 1000; }
		char name[] = "wide";
		put("%d", Dddmp_cuddBddArrayStore(m, name, f.size(), f.data(), NULL, n.data(), aux.data(), mode ? DDDMP_MODE_BINARY : DDDMP_MODE_TEXT, (Dddmp_VarInfoType)info,
		                                 (char *)path.c_str(), NULL));
		DdNode **roots = NULL;
		DdManager *to = match == 0 ? m : m2;
		int k = Dddmp_cuddBddArrayLoad(to, DDDMP_ROOT_MATCHLIST, NULL, match < 2 ? DDDMP_VAR_MATCHIDS : DDDMP_VAR_MATCHNAMES, n.data(), NULL, NULL, DDDMP_MODE_DEFAULT,
		                               (char *)path.c_str(), NULL, &roots);
		put(" %d", k == (int)f.size());
		int same = 1;
		for (int i = 0; i < k; i++) {
			DdNode *g = roots[i];
			if (to != m) {
				DdNode *t = Cudd_bddTransfer(m2, m, g);
				Cudd_Ref(t);
				Cudd_RecursiveDeref(m2, g);
				g = t;
			}
			if (i >= (int)f.size() || g != f[i]) same = 0;
			Cudd_RecursiveDeref(m, g);
		}
		put(" %d", same);
		free(roots);
		freenames(n);
		for (auto g : f) Cudd_RecursiveDeref(m, g);
		put(" %d %d %d", Cudd_CheckZeroRef(m), Cudd_CheckZeroRef(m2), Cudd_DebugCheck(m) | Cudd_DebugCheck(m2));
		Cudd_Quit(m);
		Cudd_Quit(m2);
	}
	OP("i_header") {
		// the header of a file, stored and read by file name
		std::vector<int> src = ints();
		int mode = I(), info = I(), useNames = I();
		std::vector<DdNode *> f;
		for (int i : src) f.push_back(B[i % B.size()]);
		std::vector<char *> n = names("v");
		std::vector<int> aux(N);
		for (int i = 0; i < N; i++) aux[i] = i + 7;
		char name[] = "all";
		put("%d ", Dddmp_cuddBddArrayStore(M, name, f.size(), f.data(), NULL, useNames ? n.data() : NULL, aux.data(), mode ? DDDMP_MODE_BINARY : DDDMP_MODE_TEXT,
		                                   (Dddmp_VarInfoType)info, (char *)path.c_str(), NULL));
		Dddmp_DecompType t;
		int nv = -1, ns = -1, nr = -1, *ids = NULL, *perm = NULL, *auxids = NULL;
		char **supp = NULL, **ord = NULL;
		int r = Dddmp_cuddHeaderLoad(&t, &nv, &ns, &supp, &ord, &ids, &perm, &auxids, &nr, (char *)path.c_str(), NULL);
		put("%d", r);
		if (r == DDDMP_SUCCESS) {
			put(" %d %d %d %d |", (int)t, nv, ns, nr);
			for (int i = 0; i < ns; i++) put(" %s %d %d %d", supp ? supp[i] : "-", ids ? ids[i] : -1, perm ? perm[i] : -1, auxids ? auxids[i] : -1);
			put(" |");
			for (int i = 0; ord && i < nv; i++) put(" %s", ord[i]);
			put(" |");
			for (int i = 0; i < N; i++) put(" %d", Cudd_ReadPerm(M, i));
			for (int i = 0; supp && i < ns; i++) free(supp[i]);
			for (int i = 0; ord && i < nv; i++) free(ord[i]);
			free(supp); free(ord); free(ids); free(perm); free(auxids);
		}
		freenames(n);
	}
	OP("i_misc") {
		// 0 prefix notation, 1 BLIF, 2 SMV (all DDDMP), 3 DDcal, 4 daVinci
		int kind = I();
		std::vector<int> src = ints();
		std::vector<DdNode *> f;
		for (int i : src) f.push_back(B[i % B.size()]);
		std::vector<char *> n = names("v"), o;
		for (size_t i = 0; i < f.size(); i++) { char buf[20]; snprintf(buf, sizeof buf, "out%d", (int)i); o.push_back(strdup(buf)); }
		char model[] = "mod";
		if (kind >= 5) {
			char *file = (char *)path.c_str();
			put("%d ", kind == 5 ? Dddmp_cuddBddStorePrefix(M, 1, f[0], n.data(), o.data(), model, file, NULL)
			           : kind == 6 ? Dddmp_cuddBddStoreBlif(M, 1, f[0], n.data(), o.data(), model, file, NULL)
			                       : Dddmp_cuddBddStoreSmv(M, 1, f[0], n.data(), o.data(), model, file, NULL));
			freenames(n);
			freenames(o);
			esc(slurp(path));
			return;
		}
		FILE *fp = fopen(path.c_str(), "w");
		int r = kind == 0   ? Dddmp_cuddBddArrayStorePrefix(M, f.size(), f.data(), n.data(), o.data(), model, NULL, fp)
		        : kind == 1 ? Dddmp_cuddBddArrayStoreBlif(M, f.size(), f.data(), n.data(), o.data(), model, NULL, fp)
		        : kind == 2 ? Dddmp_cuddBddArrayStoreSmv(M, f.size(), f.data(), n.data(), o.data(), model, NULL, fp)
		        : kind == 3 ? Cudd_DumpDDcal(M, f.size(), f.data(), n.data(), o.data(), fp)
		                    : Cudd_DumpDaVinci(M, f.size(), f.data(), n.data(), o.data(), fp);
		fclose(fp);
		put("%d ", r);
		freenames(n);
		freenames(o);
		esc(slurp(path));
	}
	OP("i_blif") {
		std::vector<int> src = ints();
		std::vector<DdNode *> f;
		for (int i : src) f.push_back(B[i % B.size()]);
		std::vector<char *> n = names("v"), o;
		for (size_t i = 0; i < f.size(); i++) { char buf[20]; snprintf(buf, sizeof buf, "out%d", (int)i); o.push_back(strdup(buf)); }
		FILE *fp = fopen(path.c_str(), "w");
		char model[] = "mod";
		put("%d ", Cudd_DumpBlif(M, f.size(), f.data(), n.data(), o.data(), model, fp, I()));
		fclose(fp);
		freenames(n);
		freenames(o);
		esc(slurp(path));
	}
	OP("i_dot") {
		std::vector<int> src = ints();
		std::vector<DdNode *> f;
		for (int i : src) f.push_back(B[i % B.size()]);
		std::vector<char *> n = names("v"), o;
		for (size_t i = 0; i < f.size(); i++) { char buf[20]; snprintf(buf, sizeof buf, "out%d", (int)i); o.push_back(strdup(buf)); }
		FILE *fp = fopen(path.c_str(), "w");
		put("%d ", Cudd_DumpDot(M, f.size(), f.data(), n.data(), o.data(), fp));
		fclose(fp);
		freenames(n);
		freenames(o);
		esc(slurp(path));
	}
	OP("i_form") {
		DdNode *f = b();
		std::vector<char *> n = names("v");
		char *s = Cudd_FactoredFormString(M, f, n.data());
		esc(s ? s : "NULL");
		free(s);
		freenames(n);
	}
	OP("i_minterm") {
		DdNode *f = b();
		FILE *old = Cudd_ReadStdout(M), *fp = fopen(path.c_str(), "w");
		Cudd_SetStdout(M, fp);
		put("%d ", Cudd_PrintMinterm(M, f));
		fclose(fp);
		Cudd_SetStdout(M, old);
		esc(slurp(path));
	}
	OP("i_aminterm") {
		DdNode *f = a();
		FILE *old = Cudd_ReadStdout(M), *fp = fopen(path.c_str(), "w");
		Cudd_SetStdout(M, fp);
		put("%d ", Cudd_PrintMinterm(M, f));
		fclose(fp);
		Cudd_SetStdout(M, old);
		esc(slurp(path));
	}
	OP("i_cover") {
		DdNode *f = b(), *g = b();
		FILE *old = Cudd_ReadStdout(M), *fp = fopen(path.c_str(), "w");
		Cudd_SetStdout(M, fp);
		put("%d ", Cudd_bddPrintCover(M, f, g));
		fclose(fp);
		Cudd_SetStdout(M, old);
		esc(slurp(path));
	}
	else { out += "UNKNOWN " + op; }
}

// ---------------------------------------------------------------- numbers
static std::string word() { std::string s; *in >> s; return s; }
static std::string capture(std::function<int(FILE *)> fn) {
	std::string path = scratch + "/dd.num";
	FILE *f = fopen(path.c_str(), "w");
	int r = fn(f);
	fclose(f);
	std::string s = r ? slurp(path) : "FAILED";
	while (!s.empty() && s[s.size() - 1] == '\n') s.erase(s.size() - 1);
	return s;
}
static std::vector<DdApaDigit> apa(int D, int room = 0) {
	std::string s = word();
	std::vector<DdApaDigit> v(D + room);
	for (int i = 0; i < D; i++) v[i] = strtoul(s.substr(8 * i, 8).c_str(), NULL, 16);
	return v;
}
static void putapa(int D, const DdApaDigit *v) { for (int i = 0; i < D; i++) put("%08x", v[i]); }
static void putepd(const EpDouble &e) {
	if (EpdIsNan(&e)) put("nan,0");
	else if (EpdIsInf(&e)) put("%sinf,0", e.type.value < 0 ? "-" : "");
	else put("%a,%d", e.type.value, e.exponent);
}
static double dbl(const std::string &s) {
	EpDouble e;
	if (s == "nan") { EpdMakeNan(&e); return e.type.value; }
	if (s == "inf" || s == "-inf") { EpdMakeInf(&e, s[0] == '-'); return e.type.value; }
	return strtod(s.c_str(), NULL);
}
static EpDouble epd() {
	EpDouble e;
	std::string s = word();
	e.type.value = dbl(s);
	e.exponent = I();
	return e;
}
static void run_num(const std::string &op) {
	if (op == "n_apa") {
		std::string k = word();
		int D = I();
		if (k == "add" || k == "sub") {
			int alias = I();
			std::vector<DdApaDigit> x = apa(D), y = apa(D), z(D);
			DdApaDigit *r = alias == 0 ? z.data() : alias == 1 ? x.data() : y.data();
			DdApaDigit c = k == "add" ? Cudd_ApaAdd(D, x.data(), y.data(), r) : Cudd_ApaSubtract(D, x.data(), y.data(), r);
			put("%d ", c == 0 ? 0 : k == "add" ? c == 1 ? 1 : 2 : c == (DdApaDigit)-1 ? 1 : 2);
			putapa(D, r);
		} else if (k == "sdiv" || k == "idiv") {
			int alias = I();
			std::vector<DdApaDigit> x = apa(D), z(D);
			unsigned d = strtoul(word().c_str(), NULL, 10);
			DdApaDigit *r = alias ? x.data() : z.data();
			put("%u ", k == "sdiv" ? Cudd_ApaShortDivision(D, x.data(), d, r) : Cudd_ApaIntDivision(D, x.data(), d, r));
			putapa(D, r);
		} else if (k == "shr") {
			int alias = I();
			std::vector<DdApaDigit> x = apa(D), z(D);
			DdApaDigit *r = alias ? x.data() : z.data();
			Cudd_ApaShiftRight(D, I(), x.data(), r);
			putapa(D, r);
		} else if (k == "lit") {
			std::vector<DdApaDigit> z(D, 77);
			Cudd_ApaSetToLiteral(D, z.data(), strtoul(word().c_str(), NULL, 10));
			putapa(D, z.data());
		} else if (k == "pow") {
			std::vector<DdApaDigit> z(D, 77);
			Cudd_ApaPowerOfTwo(D, z.data(), I());
			putapa(D, z.data());
		} else if (k == "cmp") {
			std::vector<DdApaDigit> x = apa(D);
			int E = I();
			std::vector<DdApaDigit> y = apa(E);
			put("%d", Cudd_ApaCompare(D, x.data(), E, y.data()));
		} else if (k == "ratio") {
			std::vector<DdApaDigit> x = apa(D);
			int p = I(), E = I();
			std::vector<DdApaDigit> y = apa(E);
			put("%d", Cudd_ApaCompareRatios(D, x.data(), p, E, y.data(), I()));
		} else if (k == "digits") put("%d", Cudd_ApaNumberOfDigits(D));
		else if (k == "print") {
			DdApaNumber v = Cudd_NewApaNumber(D);
			Cudd_ApaCopy(D, apa(D).data(), v);
			int p = I();
			char *s = Cudd_ApaStringDecimal(D, v);
			out += "=" + capture([&](FILE *f) { return Cudd_ApaPrintHex(f, D, v); });
			out += " =" + capture([&](FILE *f) { return Cudd_ApaPrintDecimal(f, D, v); });
			out += std::string(" =") + s;
			out += " =" + capture([&](FILE *f) { return Cudd_ApaPrintExponential(f, D, v, p); });
			free(s);
			Cudd_FreeApaNumber(v);
		}
	}
	OP("n_mint") {
		DdNode *f = b();
		int n = I(), p = I();
		put("%d|", Cudd_DagSize(f));
		out += capture([&](FILE *o) { return Cudd_ApaPrintMinterm(o, M, f, n); });
		out += "|" + capture([&](FILE *o) { return Cudd_ApaPrintMintermExp(o, M, f, n, p); });
		out += "|" + capture([&](FILE *o) { return Cudd_ApaPrintDensity(o, M, f, n); });
		out += "|" + capture([&](FILE *o) { FILE *old = Cudd_ReadStdout(M); Cudd_SetStdout(M, o); int r = Cudd_EpdPrintMinterm(M, f, n); Cudd_SetStdout(M, old); return r; });
	}
	OP("n_epd") {
		std::string k = word();
		if (k == "conv") { EpDouble *e = EpdAlloc(); EpdConvert(dbl(word()), e); putepd(*e); EpdFree(e); }
		else if (k == "pow2") { EpDouble e; EpdPow2(I(), &e); putepd(e); }
		else if (k == "str") {
			EpDouble e = epd();
			char buf[100];
			EpdGetString(&e, buf);
			put("%s %d%d%d", buf, EpdIsInf(&e), EpdIsNan(&e), EpdIsZero(&e));
		} else if (k == "cmp") { EpDouble x = epd(), y = epd(); put("%d", EpdCmp(&x, &y)); }
		else {
			int how = I();
			EpDouble x = epd(), y = epd(), z;
			double d = EpdIsNanOrInf(&y) ? y.type.value : ldexp(y.type.value, y.exponent);
			if (how == 0) {
				EpdCopy(&x, &z);
				k == "add" ? EpdAdd2(&z, &y) : k == "sub" ? EpdSubtract2(&z, &y) : k == "mul" ? EpdMultiply2(&z, &y) : EpdDivide2(&z, &y);
			} else if (how == 1) {
				EpdCopy(&x, &z);
				k == "add" ? EpdAdd(&z, d) : k == "sub" ? EpdSubtract(&z, d) : k == "mul" ? EpdMultiply(&z, d) : EpdDivide(&z, d);
			} else k == "add" ? EpdAdd3(&x, &y, &z) : k == "sub" ? EpdSubtract3(&x, &y, &z) : k == "mul" ? EpdMultiply3(&x, &y, &z) : EpdDivide3(&x, &y, &z);
			putepd(z);
		}
	}
	else out += "UNKNOWN";
}
