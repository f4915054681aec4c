// Linear equalities modulo 2^w on the path condition are kept solved: conditions are rewritten under them before
// they reach the solver. Bit blasted modular sums are hard for SAT, trivial for elimination.
struct Lin
{
	u64 k = 0;
	std::map<u32, std::pair<Expr *, u64>> t;
};
static std::unordered_map<Expr *, Lin> solved; // eliminated term -> linear form over terms that are not eliminated
static std::vector<Expr *> diseqs; // equalities known to be false
static std::unordered_map<Expr *, Expr *> rewritten; // cache, valid until the next elimination
static void linTerm(Lin &L, Expr *e, u64 c, u64 m)
{
	auto &x = L.t[e->id];
	x.first = e;
	x.second = (x.second + c) & m;
	if (!x.second) L.t.erase(e->id);
}
static void linAcc(Lin &L, Expr *e, u64 c, u64 m)
{
	if (!(c & m)) return;
	switch (e->op)
	{
	case XCONST: L.k = (L.k + c * e->c) & m; return;
	case XADD: linAcc(L, e->a[0], c, m); linAcc(L, e->a[1], c, m); return;
	case XSUB: linAcc(L, e->a[0], c, m); linAcc(L, e->a[1], 0 - c, m); return;
	case XMUL:
		if (e->a[1]->op == XCONST) { linAcc(L, e->a[0], c * e->a[1]->c, m); return; }
		if (e->a[0]->op == XCONST) { linAcc(L, e->a[1], c * e->a[0]->c, m); return; }
		break;
	case XSHL:
		if (e->a[1]->op == XCONST && e->a[1]->c < e->w) { linAcc(L, e->a[0], c << e->a[1]->c, m); return; }
		break;
	}
	auto it = solved.find(e);
	if (it == solved.end()) { linTerm(L, e, c, m); return; }
	L.k = (L.k + c * it->second.k) & m;
	for (auto &p : it->second.t) linTerm(L, p.second.first, c * p.second.second, m);
}
static Lin linDiff(Expr *a, Expr *b)
{
	Lin L;
	u64 m = maskw(a->w);
	linAcc(L, a, 1, m);
	linAcc(L, b, ~0ull, m);
	return L;
}
static u64 oddInverse(u64 x)
{
	u64 y = x;
	for (int i = 0; i < 6; i++) y *= 2 - x * y;
	return y;
}
// term with an odd coefficient, a plain variable if there is one, the newest of them; 0 if none
static u32 linPivot(const Lin &L)
{
	u32 p = 0, any = 0;
	for (auto &x : L.t)
		if (x.second.second & 1)
		{
			any = x.first;
			if (x.second.first->op == XVAR) p = x.first;
		}
	return p ? p : any;
}
// pivot == form
static Lin linSolve(const Lin &L, u32 p, u64 m)
{
	u64 f = 0 - oddInverse(L.t.at(p).second);
	Lin o;
	o.k = (L.k * f) & m;
	for (auto &x : L.t)
		if (x.first != p)
			if (u64 c = (x.second.second * f) & m) o.t[x.first] = {x.second.first, c};
	return o;
}
static Val linExpr(const Lin &L, u8 w)
{
	u64 m = maskw(w);
	Val s = V(0);
	bool first = true;
	for (auto &x : L.t)
	{
		u64 c = x.second.second;
		Val e = VE(x.second.first);
		if (first)
			s = c == 1 ? e : mkBin(XMUL, w, e, V(c));
		else if (c == m)
			s = mkBin(XSUB, w, s, e);
		else
			s = mkBin(XADD, w, s, c == 1 ? e : mkBin(XMUL, w, e, V(c)));
		first = false;
	}
	return L.k ? mkBin(XADD, w, s, V(L.k)) : s;
}
static Val linEq(Expr *a, Expr *b)
{
	Lin L = linDiff(a, b);
	u64 m = maskw(a->w);
	if (L.t.empty()) return V(L.k == 0);
	u32 p = linPivot(L);
	if (!p) return VE(mk(XEQ, 1, 0, a, b));
	Expr *x = L.t[p].first;
	Val r = linExpr(linSolve(L, p, m), a->w);
	if (!r.e) return VE(mk(XEQ, 1, 0, x, kE(r.c, a->w)));
	return mkBin(XEQ, a->w, VE(x), r);
}
// ---- residues: terms that are, for every value of what they are made of, an affine form modulo a small N.
// Found by tabulating a term over its parts; equalities between them are solved modulo N.
struct Res
{
	u32 N = 0, k = 0;
	std::map<u32, std::pair<Expr *, u32>> t;
};
static std::unordered_map<Expr *, Res> resOf; // N == 0: not a residue
static std::unordered_map<Expr *, Res> resSolved;
static std::vector<u32> varSpan; // of each variable: number of values, 0 if not small
static u64 evalParts(Expr *e, std::unordered_map<Expr *, u64> &m)
{
	auto it = m.find(e);
	if (it != m.end()) return it->second;
	u64 r = 0;
	switch (e->op)
	{
	case XCONST: return e->c;
	case XNOT: r = !evalParts(e->a[0], m); break;
	case XITE: r = evalParts(e->a[0], m) ? evalParts(e->a[1], m) : evalParts(e->a[2], m); break;
	case XZEXT: r = evalParts(e->a[0], m); break;
	case XSEXT: r = (u64)sx(evalParts(e->a[0], m), e->a[0]->w) & maskw(e->w); break;
	case XEXTRACT: r = (evalParts(e->a[0], m) >> e->c) & maskw(e->w); break;
	case XCONCAT: r = (evalParts(e->a[0], m) << e->a[1]->w) | evalParts(e->a[1], m); break;
	default: r = foldBin(e->op, e->a[0]->w, evalParts(e->a[0], m), evalParts(e->a[1], m));
	}
	m[e] = r;
	return r;
}
static const Res &residue(Expr *e);
static bool findParts(Expr *e, std::vector<Expr *> &parts, std::unordered_map<Expr *, u64> &seen)
{
	if (e->op == XCONST || !seen.emplace(e, 0).second) return true;
	if (seen.size() > 80) return false;
	if (e->w > 1 && e->op != XZEXT && e->op != XSEXT && e->op != XEXTRACT && residue(e).N)
	{
		parts.push_back(e);
		return parts.size() <= 8;
	}
	if (e->op == XVAR || e->flags != F_BV) return false;
	for (int i = 0; i < e->n; i++)
		if (!findParts(e->a[i], parts, seen)) return false;
	return true;
}
static const Res &residue(Expr *e)
{
	auto it = resOf.find(e);
	if (it != resOf.end()) return it->second;
	Res R;
	if (e->op == XVAR)
	{
		u32 n = e->c < varSpan.size() ? varSpan[e->c] : 0;
		if (n)
		{
			R.N = n;
			R.t[e->id] = {e, 1};
		}
		return resOf[e] = R;
	}
	if (e->flags != F_BV || e->w <= 1 || e->op == XVAR) return resOf[e] = R;
	std::vector<Expr *> found, parts;
	std::vector<size_t> group;
	std::unordered_map<Expr *, u64> seen;
	bool ok = true;
	seen.emplace(e, 0);
	for (int i = 0; ok && i < e->n; i++) ok = findParts(e->a[i], found, seen);
	u64 size = 1;
	u32 N = 0;
	for (Expr *f : found) // terms of the same value are one part
	{
		const Res &q = residue(f);
		if (q.t.empty()) { group.push_back(SIZE_MAX - q.k); continue; }
		size_t g = 0;
		for (; g < parts.size(); g++)
		{
			const Res &o = residue(parts[g]);
			if (o.N == q.N && o.k == q.k && o.t == q.t) break;
		}
		if (g == parts.size()) parts.push_back(f);
		group.push_back(g);
	}
	if (ok && found.size())
	{
		N = residue(found[0]).N;
		for (Expr *p : parts)
		{
			ok = ok && residue(p).N == N;
			size *= N;
		}
		ok = ok && size <= 4096;
	}
	else ok = false;
	if (ok)
	{
		size_t n = parts.size();
		std::vector<u32> x(n, 0), coef(n, 0);
		u32 k = 0;
		auto value = [&]() {
			std::unordered_map<Expr *, u64> m;
			for (size_t i = 0; i < found.size(); i++) m[found[i]] = group[i] > 1000 ? SIZE_MAX - group[i] : x[group[i]];
			return evalParts(e, m);
		};
		u64 v = value();
		ok = v < N;
		k = (u32)v;
		for (size_t i = 0; ok && i < n; i++)
		{
			x[i] = 1;
			v = value();
			x[i] = 0;
			ok = v < N;
			coef[i] = ((u32)v + N - k) % N;
		}
		for (u64 j = 0; ok && j < size; j++)
		{
			u64 y = j;
			u32 want = k;
			for (size_t i = 0; i < n; i++) x[i] = y % N, y /= N, want = (want + coef[i] * x[i]) % N;
			ok = value() == want;
		}
		if (ok)
		{
			R.N = N;
			R.k = k;
			for (size_t i = 0; i < n; i++)
			{
				const Res &q = residue(parts[i]);
				R.k = (R.k + coef[i] * q.k) % N;
				for (auto &t : q.t)
				{
					auto &z = R.t[t.first];
					z.first = t.second.first;
					z.second = (z.second + coef[i] * t.second.second) % N;
					if (!z.second) R.t.erase(t.first);
				}
			}
		}
	}
	return resOf[e] = R;
}
static void resAcc(Res &R, const Res &q, u32 c)
{
	u32 N = R.N;
	R.k = (R.k + c * q.k) % N;
	for (auto &t : q.t)
	{
		auto s = resSolved.find(t.second.first);
		u32 f = c * t.second.second % N;
		if (s != resSolved.end()) { resAcc(R, s->second, f); continue; }
		auto &z = R.t[t.first];
		z.first = t.second.first;
		z.second = (z.second + f) % N;
		if (!z.second) R.t.erase(t.first);
	}
}
// a - b modulo N under the solved equalities; false if a and b are not such residues
static bool resDiff(Expr *a, Expr *b, Res &R)
{
	const Res A = residue(a);
	if (b->op == XCONST)
	{
		if (!A.N || b->c >= A.N) return false;
		R.N = A.N;
		R.k = A.N - (u32)b->c;
	}
	else
	{
		const Res &B = residue(b);
		if (!A.N || A.N != B.N) return false;
		R.N = A.N;
		resAcc(R, B, A.N - 1);
	}
	resAcc(R, A, 1);
	R.k %= R.N;
	return true;
}
static u32 invMod(u32 x, u32 N)
{
	for (u32 y = 1; y < N; y++)
		if (x * y % N == 1) return y;
	return 0;
}
static u32 resPivot(const Res &R)
{
	u32 p = 0;
	for (auto &t : R.t)
		if (invMod(t.second.second, R.N)) p = t.first;
	return p;
}
static Res resSolve(const Res &R, u32 p)
{
	u32 f = R.N - invMod(R.t.at(p).second, R.N);
	Res o;
	o.N = R.N;
	o.k = R.k * f % R.N;
	for (auto &t : R.t)
		if (t.first != p) o.t[t.first] = {t.second.first, t.second.second * f % R.N};
	return o;
}
static Val resEq(Expr *x, const Res &o)
{
	if (o.t.empty()) return mkBin(XEQ, x->w, VE(x), V(o.k));
	u64 top = o.k;
	for (auto &t : o.t) top += (u64)t.second.second * (o.N - 1);
	u8 w = 2;
	while (top >> w) w++;
	if (w < x->w) w = x->w;
	Val s = V(o.k);
	for (auto &t : o.t)
	{
		Val y = mkExt(XZEXT, t.second.first->w, w, VE(t.second.first));
		s = mkBin(XADD, w, s, t.second.second == 1 ? y : mkBin(XMUL, w, y, V(t.second.second)));
	}
	if (top >= o.N) s = mkBin(XUREM, w, s, V(o.N));
	Val y = mkExt(XZEXT, x->w, w, VE(x));
	if (s.e) resOf[s.e] = o;
	if (y.e) resOf[y.e] = residue(x);
	return mkBin(XEQ, w, y, s);
}
static Val resCond(const Res &R, u32 p) { return resEq(R.t.at(p).first, resSolve(R, p)); }
static Val rewrite(Expr *c, int depth = 0)
{
	if (c->flags != F_BV || c->w != 1 || depth > 40) return VE(c);
	bool eq = c->op == XEQ && c->a[0]->w > 1;
	if (!eq && c->op != XNOT && c->op != XAND && c->op != XOR_) return VE(c);
	auto it = rewritten.find(c);
	if (it != rewritten.end()) return VE(it->second);
	Val r;
	Res R;
	if (eq && resDiff(c->a[0], c->a[1], R))
	{
		u32 p;
		if (R.t.empty()) r = V(R.k == 0);
		else if ((p = resPivot(R))) r = resCond(R, p);
		else r = VE(c);
	}
	else if (eq) r = linEq(c->a[0], c->a[1]);
	else if (c->op == XNOT) r = mkNot(rewrite(c->a[0], depth + 1));
	else r = mkBin(c->op, 1, rewrite(c->a[0], depth + 1), rewrite(c->a[1], depth + 1));
	rewritten[c] = toE(r, 1);
	return r;
}
static void note(Expr *c, bool v);
static bool busyLin = false;
// what was excluded stays excluded in its new form
static void renewDiseqs()
{
	rewritten.clear();
	std::vector<Expr *> d;
	d.swap(diseqs);
	busyLin = true;
	for (Expr *q : d)
	{
		Val r = rewrite(q);
		if (!r.e) continue;
		note(r.e, false);
		diseqs.push_back(r.e);
	}
	busyLin = false;
}
static void learnEq(Expr *c)
{
	Expr *a = c->a[0], *b = c->a[1];
	Res R;
	if (resDiff(a, b, R))
	{
		u32 p = resPivot(R);
		if (!p) return;
		Res s = resSolve(R, p);
		Expr *x = R.t[p].first;
		for (auto &o : resSolved)
		{
			auto f = o.second.t.find(p);
			if (f == o.second.t.end()) continue;
			u32 k = f->second.second;
			o.second.t.erase(f);
			resAcc(o.second, s, k);
		}
		resSolved[x] = s;
		renewDiseqs();
		return;
	}
	if (a->w <= 1) return;
	Lin L = linDiff(a, b);
	u32 p = linPivot(L);
	if (!p) return;
	u64 m = maskw(a->w);
	Expr *x = L.t[p].first;
	Lin s = linSolve(L, p, m);
	for (auto &o : solved)
	{
		if (o.first->w != a->w) continue;
		auto f = o.second.t.find(p);
		if (f == o.second.t.end()) continue;
		u64 c = f->second.second;
		o.second.t.erase(f);
		o.second.k = (o.second.k + c * s.k) & m;
		for (auto &q : s.t) linTerm(o.second, q.second.first, c * q.second.second, m);
	}
	solved[x] = s;
	renewDiseqs();
}
