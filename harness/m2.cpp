// M01 containers, M03 contraction of networks
#include "n.h"
// ---------------------------------------------------------------- M03
static IL bonds(int k, int n)
{
	switch (k)
	{
	case 0: return IL(n + 1, 1);
	case 1: { IL b(n + 1, 2); b[0] = b[n] = 1; return b; }
	case 2: { IL b(n + 1, 1); for (int i = 1; i < n; ++i) b[i] = 1 + i % 2; return b; }
	}
	return IL(n + 1, 2);
}
// <b|O|a> with the edges e (left, right): (a, b) or (a, operator, b)
static double overlap(const std::vector<D> &a, const std::vector<D> &b, const std::vector<D> &o, const D &l, const D &r)
{
	D A = joined(a), B = joined(b);
	int64_t n = a.size();
	IL p;
	for (int64_t i = 1; i <= n; ++i) p.push_back(i);
	if (o.empty())
	{
		D x = dot(l, dot(A, B, p, p), {0, 1}, {0, 2}); // (right a, right b)
		return dot(x, r, {0, 1}, {0, 1}).v[0];
	}
	D O = joined(o);
	IL in, out;
	for (int64_t i = 0; i < n; ++i) in.push_back(2 + 2 * i), out.push_back(1 + 2 * i);
	D x = dot(A, O, p, in); // la ra lo out.. ro
	IL q;
	for (int64_t i = 0; i < n; ++i) q.push_back(3 + i);
	x = dot(x, B, q, p); // la ra lo ro lb rb
	return dot(dot(l, x, {0, 1, 2}, {0, 2, 4}), r, {0, 1, 2}, {0, 1, 2}).v[0];
}
static D filled(IL n, double x)
{
	D o(std::move(n));
	for (auto &y : o.v) y = x;
	return o;
}
static D identity(int64_t n, int64_t m)
{
	D o(IL{n, m});
	for (int64_t i = 0; i < std::min(n, m); ++i) o.at({i, i}) = 1;
	return o;
}
// a0: sites, a1: bonds of a*10 + bonds of b, a2: 0 no operator, 1 operator with bond 1, 2 operator with bond 2; a3: 1 given edges
ENTRY(m03_dense)
{
	UNUSED_ARGS;
	torch::set_default_dtype(torch::scalarTypeToTypeMeta(torch::kFloat64));
	int n = a0;
	IL ba = bonds(a1 / 10, n), bb = bonds(a1 % 10, n), bo = a2 == 0 ? IL() : bonds(a2 == 1 ? 0 : a2 == 3 ? 3 : 1, n);
	std::vector<D> A, B, O;
	MPS a(n), b(n);
	MPO o(n);
	for (int i = 0; i < n; ++i)
	{
		int64_t p = 2 - i % 2;
		A.push_back(sym_dense({ba[i], p, ba[i + 1]}, "a"));
		B.push_back(sym_dense({bb[i], p, bb[i + 1]}, "b"));
		a[i] = to_torch(A[i]);
		b[i] = to_torch(B[i], true);
		if (a2) O.push_back(sym_dense({bo[i], p, bo[i + 1], p}, "o")), o[i] = to_torch(O[i]);
	}
	torch::Tensor r;
	D L, R;
	if (a3)
	{
		IL l{ba[0], bb[0]}, q{ba[n], bb[n]};
		if (a2) l = {ba[0], bo[0], bb[0]}, q = {ba[n], bo[n], bb[n]};
		L = sym_dense(l, "left");
		R = sym_dense(q, "right");
		torch::Tensor tl = to_torch(L), tr = to_torch(R, true);
		r = a2 ? contract(a, b, o, tl, tr) : contract(a, b, tl, tr);
		same(from_torch(tl), L, "M03/edge kept");
		same(from_torch(tr), R, "M03/edge kept");
	}
	else
	{
		L = identity(ba[0], bb[0]), R = identity(ba[n], bb[n]);
		if (a2)
		{
			L = permuted(dot(L, filled({bo[0]}, 1), {}, {}), {0, 2, 1});
			R = permuted(dot(R, filled({bo[n]}, 1), {}, {}), {0, 2, 1});
		}
		r = a2 ? contract(a, b, o) : contract(a, b);
	}
	sym_check(r.dim() == 0, "M03/number");
	if (r.dim() == 0) sym_same(el(r, {}), overlap(A, B, O, L, R), "M03/dense");
	for (int i = 0; i < n; ++i)
	{
		same(from_torch(a[i]), A[i], "M03/kept");
		same(from_torch(b[i]), B[i], "M03/kept");
	}
}
// the edges do not contribute to the conserved total: identity between the outer bonds
static T edge(const Lay &a, const Lay &b, size_t d, const char *name)
{
	Lay l;
	l.sz = {a.sz[d], b.sz[d]};
	l.q.resize(2);
	for (auto &x : a.q[d]) l.q[0].push_back(x.inverse());
	l.q[1] = b.q[d];
	l.sel = a.sel.neutral();
	return mkT(l, ALL, false, name);
}
// a0: network, a1: group, a2: 0 no operator, 1 operator, a3: 0 default edges, 1 given edges, 2 same state twice
ENTRY(m03_block)
{
	UNUSED_ARGS;
	torch::set_default_dtype(torch::scalarTypeToTypeMeta(torch::kFloat64));
	Net t = nets(a0);
	int n = t.p.size();
	std::vector<std::vector<any_quantity>> q(n);
	for (int i = 0; i < n; ++i)
		for (size_t k = 0; k < t.p[i].size(); ++k) q[i].push_back(mkq(a1, "physical"));
	auto A = chain(a1, t.a, q, t.p, false, "a"), B = a3 == 2 ? A : chain(a1, t.b, q, t.p, false, "b");
	std::vector<T> O;
	if (a2) O = chain(a1, t.o, q, t.p, true, "o");
	bMPS a(n), b(n);
	bMPO o(n);
	for (int i = 0; i < n; ++i)
	{
		a[i] = A[i].b, b[i] = B[i].b;
		if (a2) o[i] = O[i].b;
	}
	D L, R;
	btensor r;
	if (a3 == 1)
	{
		T l, m;
		if (a2)
		{
			Lay x = edge(A[0].l, B[0].l, 0, "left").l, y = edge(A[n - 1].l, B[n - 1].l, 2, "right").l;
			x.sz.insert(x.sz.begin() + 1, O[0].l.sz[0]), y.sz.insert(y.sz.begin() + 1, O[n - 1].l.sz[2]);
			x.q.insert(x.q.begin() + 1, O[0].l.q[0]), y.q.insert(y.q.begin() + 1, O[n - 1].l.q[2]);
			for (auto &z : x.q[1]) z = z.inverse();
			for (auto &z : y.q[1]) z = z.inverse();
			x.sel = mkq(a1, "rule"), y.sel = mkq(a1, "rule");
			l = mkT(x, ALL, false, "left"), m = mkT(y, ALL, false, "right");
		}
		else
			l = edge(A[0].l, B[0].l, 0, "left"), m = edge(A[n - 1].l, B[n - 1].l, 2, "right");
		L = l.d, R = m.d;
		r = a2 ? contract(a, b, o, l.b, m.b) : contract(a, b, l.b, m.b);
		is(l.b, l, "M03/edge kept");
	}
	else
	{
		L = identity(A[0].d.n[0], B[0].d.n[0]), R = identity(A[n - 1].d.n[2], B[n - 1].d.n[2]);
		// a bond of one element joins whatever its label is; larger ones must have the same labels
		for (int s = 0; s < 2; ++s)
		{
			const Lay &x = A[s ? n - 1 : 0].l, &y = B[s ? n - 1 : 0].l;
			for (size_t k = 0; x.q[2 * s].size() > 1 && k < x.q[2 * s].size(); ++k) sym_assume(x.q[2 * s][k] == y.q[2 * s][k]);
		}
		if (a2)
		{
			L = permuted(dot(L, filled({O[0].d.n[0]}, 1), {}, {}), {0, 2, 1});
			R = permuted(dot(R, filled({O[n - 1].d.n[2]}, 1), {}, {}), {0, 2, 1});
		}
		r = a2 ? contract(a, b, o) : contract(a, b);
	}
	valid(r, "M03/valid");
	sym_check(r.dim() == 0, "M03/block number");
	if (r.dim() == 0) sym_same(dense(r).v[0], overlap(denses(A), denses(B), denses(O), L, R), "M03/block");
	for (int i = 0; i < n; ++i) is(a[i], A[i], "M03/kept"), is(b[i], B[i], "M03/kept");
}
// ---------------------------------------------------------------- M01
// how a network is built from a list of tensors
template <class N, class M, class V>
static bool build(int how, V &t, N *&out, size_t oc)
{
	return throws([&] {
		switch (how)
		{
		case 0:
			if constexpr (std::is_constructible_v<N, V, size_t>) out = new N(t, oc);
			else out = new N(t);
			break;
		case 1:
			if constexpr (std::is_constructible_v<N, std::initializer_list<typename N::Tens>, size_t>)
				out = t.size() == 1 ? new N({t[0]}, oc) : t.size() == 2 ? new N({t[0], t[1]}, oc) : new N({t[0], t[1], t[2]}, oc);
			else
				out = t.size() == 1 ? new N({t[0]}) : t.size() == 2 ? new N({t[0], t[1]}) : new N({t[0], t[1], t[2]});
			break;
		case 2: case 3:
		{
			M m(std::as_const(t));
			if constexpr (std::is_constructible_v<N, M, size_t>) out = how == 2 ? new N(m, oc) : new N(std::move(m), oc);
			else out = how == 2 ? new N(m) : new N(std::move(m));
			if (how == 2) sym_check(m.size() == t.size(), "M01/source kept");
			break;
		}
		}
	});
}
template <class N>
static constexpr bool has_oc = std::is_same_v<N, MPS> || std::is_same_v<N, bMPS>;
template <class N>
static size_t centre(const N &n)
{
	if constexpr (has_oc<N>) return n.orthogonality_center;
	else return 0;
}
template <class N, class M>
static void dense_lists(int n, int how, size_t rank)
{
	std::vector<torch::Tensor> t;
	std::vector<D> d;
	bool ok = true;
	for (int i = 0; i < n; ++i)
	{
		IL s(size_t(2 + sym_choose("rank", 4)), 1);
		if (s.size() > rank + 1) s.pop_back(), s.pop_back(), s.pop_back(), s.pop_back();
		if (s.size() > 0) s[0] = 1 + sym_choose("left", 2);
		if (s.size() > 2) s[2] = 1 + sym_choose("right", 2);
		if (s.size() != rank) ok = false;
		else if (ok && i && d.back().n[2] != s[0]) ok = false;
		d.push_back(sym_dense(s, "x"));
		t.push_back(to_torch(d[i], i == 1));
	}
	size_t oc = has_oc<N> ? size_t(sym_i64("centre")) : 0;
	if (oc >= size_t(n) && oc != 0) ok = false;
	N *o = nullptr;
	bool thrown = build<N, M>(how, t, o, oc);
	sym_check(thrown == !ok, "M01/accepts exactly the well-formed");
	if (thrown) return;
	sym_check(o->size() == size_t(n), "M01/length");
	sym_check(centre(*o) == oc, "M01/centre");
	for (int i = 0; i < n; ++i) same(from_torch((*o)[i]), d[i], "M01/tensors");
	delete o;
}
// a0: tensors, a1: constructor (0 vector, 1 list, 2 generic network, 3 moved generic network), a2: 0 state, 1 operator
ENTRY(m01_dense)
{
	UNUSED_ARGS;
	if (a2) dense_lists<MPO, MPT>(a0, a1, 4);
	else dense_lists<MPS, MPT>(a0, a1, 3);
}
template <class N, class M>
static void block_lists(int n, int how, size_t rank, int grp)
{
	bool few = grp >= 10; // fewer shapes
	grp %= 10;
	std::vector<btensor> t;
	std::vector<T> d;
	bool ok = true;
	for (int i = 0; i < n; ++i)
	{
		int r = sym_choose("rank", few ? 2 : 3);
		std::vector<IL> s(r == 0 ? rank : r == 1 ? rank - 1 : rank + 1, IL(1, 1));
		auto bond = [&](size_t k) {
			if (s.size() <= k) return;
			int b = (few && (i == 0) == (k == 0)) ? 0 : sym_choose("bond", few ? 2 : 3);
			s[k] = b == 0 ? IL{1} : b == 1 ? IL{1, 1} : IL{2};
		};
		bond(0), bond(2);
		d.push_back(mkT(mklay(grp, s), NONE, false, "x"));
		const Lay &l = d[i].l;
		if (l.sz.size() != rank) ok = false;
		else if (ok && i)
		{
			const Lay &p = d[i - 1].l;
			if (p.sz[2] != l.sz[0]) ok = false;
			else
				for (size_t k = 0; k < l.q[0].size(); ++k)
					if (p.q[2][k] * l.q[0][k] != l.sel.neutral()) ok = false;
		}
		t.push_back(d[i].b);
	}
	size_t oc = has_oc<N> ? size_t(sym_i64("centre")) : 0;
	if (oc >= size_t(n) && oc != 0) ok = false;
	N *o = nullptr;
	bool thrown = build<N, M>(how, t, o, oc);
	sym_check(thrown == !ok, "M01/block accepts exactly the well-formed");
	if (thrown) return;
	sym_check(o->size() == size_t(n), "M01/length");
	sym_check(centre(*o) == oc, "M01/centre");
	for (int i = 0; i < n; ++i) is((*o)[i], d[i], "M01/tensors");
	delete o;
}
// a0: tensors, a1: constructor, a2: 0 state, 1 operator, a3: group, +10: fewer shapes
ENTRY(m01_block)
{
	UNUSED_ARGS;
	if (a2) block_lists<bMPO, bMPT>(a0, a1, 4, a3);
	else block_lists<bMPS, bMPT>(a0, a1, 3, a3);
}
// one tensor repeated: a0: 0 dense, 1 block, a1: 0 state, 1 operator, a2: group
template <class N>
static void fills(size_t rank, bool block, int grp)
{
	size_t n = sym_choose("length", 4), oc = has_oc<N> ? size_t(sym_i64("centre")) : 0;
	int r = sym_choose("rank", 3);
	std::vector<IL> s(r == 0 ? rank : r == 1 ? rank - 1 : rank + 1, IL(1, 1));
	bool ok = r == 0 && (oc == 0 || oc < n);
	N *o = nullptr;
	auto make = [&](const auto &x) {
		return throws([&] {
			if constexpr (has_oc<N>) o = new N(n, x, oc);
			else o = new N(n, x);
		});
	};
	bool thrown;
	T t;
	D d;
	if constexpr (std::is_same_v<typename N::Tens, btensor>)
	{
		for (size_t k = 0; k < 3; k += 2)
			if (k < s.size())
			{
				int b = sym_choose("bond", 3);
				s[k] = b == 0 ? IL{1} : b == 1 ? IL{1, 1} : IL{2};
			}
		t = mkT(mklay(grp, s), SOME, false, "x");
		if (ok && s[0] != s[2]) ok = false;
		else if (ok)
			for (size_t k = 0; k < t.l.q[0].size(); ++k)
				if (t.l.q[0][k] * t.l.q[2][k] != t.l.sel.neutral()) ok = false;
		thrown = make(t.b);
	}
	else
	{
		IL m(s.size(), 1);
		m[0] = 1 + sym_choose("left", 2);
		if (m.size() > 2) m[2] = 1 + sym_choose("right", 2);
		if (ok && m[0] != m[2]) ok = false;
		d = sym_dense(m, "x");
		thrown = make(to_torch(d));
	}
	(void)block;
	sym_check(thrown == !ok, "M01/accepts exactly the well-formed");
	if (thrown) return;
	sym_check(o->size() == n, "M01/length");
	sym_check(centre(*o) == oc, "M01/centre");
	for (size_t i = 0; i < n; ++i)
	{
		if constexpr (std::is_same_v<typename N::Tens, btensor>) is((*o)[i], t, "M01/tensors");
		else same(from_torch((*o)[i]), d, "M01/tensors");
	}
	delete o;
}
ENTRY(m01_fill)
{
	UNUSED_ARGS;
	if (a0 && a1) fills<bMPO>(4, true, a2);
	else if (a0) fills<bMPS>(3, true, a2);
	else if (a1) fills<MPO>(4, false, 0);
	else fills<MPS>(3, false, 0);
}
// networks mixing conserved quantities of different types; chains to be filled in later
ENTRY(m01_other)
{
	UNUSED_ARGS;
	T x = mkT(mklay(0, {{1}, {1}, {1}}), SOME), y = mkT(mklay(1 + sym_choose("type", 2), {{1}, {1}, {1}}), SOME);
	sym_check(throws([&] { bMPS m(std::vector<btensor>{x.b, y.b}); }), "M01/mixed quantities");
	T u = mkT(mklay(0, {{1}, {1}, {1}, {1}}), SOME), v = mkT(mklay(1 + sym_choose("type", 2), {{1}, {1}, {1}, {1}}), SOME);
	sym_check(throws([&] { bMPO m(std::vector<btensor>{u.b, v.b}); }), "M01/mixed quantities");
	size_t n = 1 + sym_choose("length", 3), oc = size_t(sym_i64("centre"));
	MPS a(n, oc);
	bMPS b(n, oc);
	sym_check(a.size() == n && b.size() == n, "M01/length");
	sym_check(centre(a) < n && centre(b) < n, "M01/centre in range");
	if (oc < n) sym_check(centre(a) == oc && centre(b) == oc, "M01/centre");
	sym_check(centre(MPS(n)) == 0 && centre(bMPS(n)) == 0 && centre(MPS()) == 0 && centre(bMPS()) == 0, "M01/centre");
	sym_check(MPS().empty() && bMPO().empty() && MPO().size() == 0 && MPT().empty(), "M01/length");
	sym_check(centre(MPS::empty_copy(a)) == centre(a) && centre(bMPS::empty_copy(b)) == centre(b), "M01/centre");
	sym_check(MPS::empty_copy(a).size() == n && bMPS::empty_copy(b).size() == n && MPO::empty_copy(MPO(n)).size() == n && bMPO::empty_copy(bMPO(n)).size() == n, "M01/length");
}
// a list of symbolic numbers stands for the tensors: every operation of the containers keeps the order and the values
template <class N, class M>
static void container(size_t rank)
{
	constexpr bool block = std::is_same_v<typename N::Tens, btensor>;
	std::vector<double> v;
	using Tens = typename N::Tens;
	T pat = block ? mkT(mklay(0, std::vector<IL>(rank, IL(1, 1))), NONE) : T();
	if constexpr (block) // a chain that can be repeated
	{
		pat.l.q[2][0] = pat.l.q[0][0].inverse();
		for (size_t k = 1; k < rank; ++k)
			if (k != 2) pat.l.q[k][0] = pat.l.sel.neutral();
		pat.l.sel = pat.l.sel.neutral();
	}
	auto fresh = [&](double x) -> Tens {
		if constexpr (block)
		{
			btensor b(btensor::vec_list_t(), pat.l.sel);
			(void)x;
			T t = mkT(pat.l, ALL, false, "x");
			t.b.begin()->second.data_ptr<double>()[0] = x;
			return t.b;
		}
		else
		{
			D d(IL(rank, 1));
			d.v[0] = x;
			return to_torch(d);
		}
	};
	auto value = [&](const Tens &t) -> double {
		if constexpr (block)
		{
			sym_check(t.dim() == int64_t(rank) && std::distance(t.begin(), t.end()) == 1, "M01/tensors");
			return t.begin()->second.template data_ptr<double>()[0];
		}
		else
			return from_torch(t).v[0];
	};
	auto holds = [&](const auto &n, const std::vector<double> &w, size_t oc, const char *what) {
		sym_check(n.size() == w.size(), what);
		if (n.size() != w.size()) return;
		for (size_t i = 0; i < w.size(); ++i) sym_same(value(n[i]), w[i], what);
		sym_check(centre(n) == oc, "M01/centre kept");
		size_t k = 0;
		for (auto &t : n) sym_same(value(t), w[k++], what);
		sym_check(k == w.size(), what);
	};
	size_t n = 1 + sym_choose("length", 3), oc = has_oc<N> ? sym_choose("centre", n) : 0;
	std::vector<Tens> t;
	for (size_t i = 0; i < n; ++i) v.push_back(sym_real("v")), t.push_back(fresh(v[i]));
	N a = [&] {
		if constexpr (has_oc<N>) return N(t, oc);
		else return N(t);
	}();
	holds(a, v, oc, "M01/built");
	N b(a);
	holds(b, v, oc, "M01/copied"), holds(a, v, oc, "M01/copied");
	N c;
	c = a;
	holds(c, v, oc, "M01/assigned"), holds(a, v, oc, "M01/assigned");
	// a copy has its own list
	double y = sym_real("y");
	c[0] = fresh(y);
	auto w = v;
	w[0] = y;
	holds(c, w, oc, "M01/element"), holds(a, v, oc, "M01/element");
	sym_same(value(c.front()), w.front(), "M01/front"), sym_same(value(c.back()), w.back(), "M01/back"), sym_same(value(c.at(n - 1)), w[n - 1], "M01/at");
	sym_check(throws([&] { c.at(n); }), "M01/at");
	sym_same(value(*c.rbegin()), w.back(), "M01/reverse");
	N d(std::move(b));
	holds(d, v, oc, "M01/moved");
	N e;
	e = std::move(d);
	holds(e, v, oc, "M01/moved");
	// swap and assignment with every other length and centre
	size_t fn = 1 + sym_choose("other length", 4), foc = has_oc<N> ? sym_choose("other centre", fn) : 0;
	std::vector<Tens> ft;
	std::vector<double> z;
	for (size_t i = 0; i < fn; ++i) z.push_back(sym_real("z")), ft.push_back(fresh(z[i]));
	N f = [&] {
		if constexpr (has_oc<N>) return N(ft, foc);
		else return N(ft);
	}();
	N g2(f);
	g2 = a;
	holds(g2, v, oc, "M01/assigned"), holds(a, v, oc, "M01/assigned"), holds(f, z, foc, "M01/assigned");
	g2 = g2;
	holds(g2, v, oc, "M01/assigned");
	g2 = N(f);
	holds(g2, z, foc, "M01/assigned");
	int sw = sym_choose("swap", 2);
	if (sw) swap(e, f);
	else e.swap(f);
	holds(f, v, oc, "M01/swapped"), holds(e, z, foc, "M01/swapped");
	// conversion
	M g = static_cast<M>(f);
	sym_check(g.size() == n, "M01/converted");
	for (size_t i = 0; i < n; ++i) sym_same(value(g[i]), v[i], "M01/converted");
	holds(f, v, oc, "M01/converted");
	M h(g);
	M i2;
	i2 = h;
	M j2(std::move(h));
	swap(i2, j2);
	sym_check(i2.size() == n && j2.size() == n, "M01/generic");
	N k2(i2);
	holds(k2, v, 0, "M01/from generic");
	N l2(a.begin(), a.end());
	holds(l2, v, 0, "M01/range");
	N m2(f.to(torch::kFloat64));
	holds(m2, v, oc, "M01/to");
	m2.to_(torch::kFloat64);
	holds(m2, v, oc, "M01/to");
	// growing and shrinking
	double q = sym_real("q");
	f.push_back(fresh(q)), v.push_back(q);
	holds(f, v, oc, "M01/push");
	f.insert(f.cbegin() + 1, fresh(y)), v.insert(v.begin() + 1, y);
	holds(f, v, oc, "M01/insert");
	Tens yy = fresh(q);
	f.insert(f.cbegin(), yy), v.insert(v.begin(), q);
	f.insert(f.cend(), 2, fresh(y)), v.insert(v.end(), 2, y);
	f.insert(f.cbegin() + 1, t.begin(), t.end());
	{
		std::vector<double> tt;
		for (auto &x : t) tt.push_back(value(x));
		v.insert(v.begin() + 1, tt.begin(), tt.end());
	}
	f.insert(f.cend(), {t[0], yy}), v.push_back(value(t[0])), v.push_back(q);
	holds(f, v, oc, "M01/insert");
	f.erase(f.cbegin() + 2), v.erase(v.begin() + 2);
	f.erase(f.cbegin(), f.cbegin() + 2), v.erase(v.begin(), v.begin() + 2);
	holds(f, v, oc, "M01/erase");
	f.pop_back(), v.pop_back();
	f.emplace_back(yy), v.push_back(q);
	f.emplace(f.cbegin() + 1, yy), v.insert(v.begin() + 1, q);
	holds(f, v, oc, "M01/emplace");
	f.reserve(20);
	sym_check(f.capacity() >= 20, "M01/reserve");
	f.shrink_to_fit();
	holds(f, v, oc, "M01/reserve");
	f.resize(2), v.resize(2);
	f.resize(4, yy), v.resize(4, q);
	holds(f, v, oc, "M01/resize");
	f.clear();
	sym_check(f.empty() && f.size() == 0, "M01/clear");
}
ENTRY(m01_operations)
{
	UNUSED_ARGS;
	switch (a0)
	{
	case 0: container<MPS, MPT>(3); break;
	case 1: container<MPO, MPT>(4); break;
	case 2: container<bMPS, bMPT>(3); break;
	case 3: container<bMPO, bMPT>(4); break;
	}
}
