// R01 R02 R03: the two-site ground state search. The source is included: its environment holders are not in a header.
#include "n.h"
#include "dmrg.cpp"
// ---------------------------------------------------------------- R01
static D ones(IL n)
{
	D o(std::move(n));
	for (auto &y : o.v) y = 1;
	return o;
}
// (a, h, b) environments one site further
static D left_of(const D &L, const D &Y, const D &H) { return dot(dot(dot(L, Y, {0}, {0}), H, {0, 2}, {0, 3}), Y, {0, 2}, {0, 1}); }
static D right_of(const D &R, const D &Y, const D &H)
{
	D x = dot(Y, R, {2}, {0});      // a s h b
	x = dot(H, x, {2, 3}, {2, 1});  // h o a b
	x = dot(Y, x, {1, 2}, {1, 3});  // b' h a
	return permuted(x, {2, 1, 0});
}
static D pair_of(const D &x, const D &y) { return dot(x, y, {int64_t(x.n.size()) - (x.n.size() == 4 ? 2 : 1)}, {0}); }
static D applied(const D &s, const D &h, const D &L, const D &R)
{
	// h: left, out, out, right, in, in
	D x = dot(L, s, {0}, {0});            // h b i i c
	x = dot(x, h, {0, 2, 3}, {0, 4, 5});  // b c o o r
	return dot(x, R, {1, 4}, {0, 1});
}
static D two(const D &x, const D &y) { return permuted(dot(x, y, {2}, {0}), {0, 1, 3, 4, 2, 5}); }
static IL bond(int k, int n)
{
	IL b(n + 1, k ? 2 : 1);
	if (k < 3) b[0] = b[n] = 1;
	if (k == 2)
		for (int i = 1; i < n; ++i) b[i] = 1 + i % 2;
	return b;
}
template <class W, class B, class H, class S, class Ok>
static void effective(size_t n, const std::vector<D> &A, const std::vector<D> &O, const H &h, const S &s, B back, Ok ok)
{
	size_t c = s.orthogonality_center;
	auto env = generate_env(h, s);
	std::vector<D> l(n + 1), r(n + 1);
	D edge = ones({A[0].n[0], O[0].n[0], A[0].n[0]});
	l[0] = edge;
	r[n] = ones({A[n - 1].n[2], O[n - 1].n[2], A[n - 1].n[2]});
	for (size_t i = 0; i < n; ++i) l[i + 1] = left_of(l[i], A[i], O[i]);
	for (size_t i = n; i-- > 0;) r[i] = right_of(r[i + 1], A[i], O[i]);
	for (size_t i = 0; i <= c; ++i) same(back(env[int64_t(i) - 1]), l[i], "R01/left environment");
	for (size_t i = c + 1; i <= n; ++i) same(back(env[int64_t(i)]), r[i], "R01/right environment");
	W w = details::compute_2sitesHamil(h);
	sym_check(w.size() + 1 == n, "R01/pairs");
	for (size_t i = 0; i + 1 < n; ++i)
	{
		same(back(w[i]), two(O[i], O[i + 1]), "R01/two sites operator");
		ok(w[i]);
	}
	// the pair on each side of the centre
	for (size_t k = c ? c - 1 : 0; k <= c && k + 1 < n; ++k)
	{
		auto L = env[int64_t(k) - 1], R = env[int64_t(k) + 2];
		auto pair = tensordot(s[k], s[k + 1], {2}, {0});
		auto out = details::hamil2site_times_state(pair, w[k], L, R);
		ok(out);
		D ref = applied(pair_of(A[k], A[k + 1]), two(O[k], O[k + 1]), l[k], r[k + 2]);
		same(back(out), ref, "R01/effective operator");
	}
	for (size_t i = 0; i < n; ++i) same(back(s[i]), A[i], "R01/kept"), same(back(h[i]), O[i], "R01/kept");
}
// a0: sites, a1: bonds of the state, a2: bonds of the operator, a3: centre
ENTRY(r01_dense)
{
	UNUSED_ARGS;
	torch::set_default_dtype(torch::scalarTypeToTypeMeta(torch::kFloat64));
	size_t n = a0;
	IL b = bond(a1, n), o = bond(a2, n);
	std::vector<D> A, O;
	std::vector<torch::Tensor> ta, to;
	for (size_t i = 0; i < n; ++i)
	{
		int64_t p = 2 - i % 2;
		A.push_back(sym_dense({b[i], p, b[i + 1]}, "a"));
		O.push_back(sym_dense({o[i], p, o[i + 1], p}, "o"));
		ta.push_back(to_torch(A[i], i == 1)), to.push_back(to_torch(O[i]));
	}
	MPS s(ta, a3);
	MPO h(to);
	effective<MPT>(n, A, O, h, s, [](const torch::Tensor &t) { return from_torch(t); }, [](const torch::Tensor &) {});
	// edges of a given pair of states
	if (a1 == 0)
	{
		torch::Tensor e = details::trivial_edge(s[0], h[0], s[1], 0, 2, 2);
		same(from_torch(e), ones({b[0], o[1], b[2]}), "R01/edge");
	}
}

// a0: network, a1: group, a2: centre
ENTRY(r01_block)
{
	UNUSED_ARGS;
	torch::set_default_dtype(torch::scalarTypeToTypeMeta(torch::kFloat64));
	Net t = nets(a0);
	size_t n = t.p.size();
	std::vector<std::vector<any_quantity>> q(n);
	for (size_t i = 0; i < n; ++i)
		for (size_t k = 0; k < t.p[i].size(); ++k) q[i].push_back(mkq(a1, "physical"));
	auto A = chain(a1, t.a, q, t.p, false, "a"), O = chain(a1, t.o, q, t.p, true, "o");
	std::vector<btensor> ta, to;
	for (size_t i = 0; i < n; ++i) ta.push_back(A[i].b), to.push_back(O[i].b);
	bMPS s(ta, a2);
	bMPO h(to);
	effective<bMPT>(n, denses(A), denses(O), h, s, [](const btensor &b) { return dense(b); }, [](const btensor &b) { valid(b, "R01/valid"); });
	for (size_t i = 0; i < n; ++i) is(s[i], A[i], "R01/kept"), is(h[i], O[i], "R01/kept");
}
// ---------------------------------------------------------------- R02
static double num(const torch::Tensor &t) { return from_torch(t).v[0]; }
static double num(const btensor &t) { return dense(t).v[0]; }
static void two_level(double a0, double a1, double b, double E, double o, double n)
{
	sym_same(o * o + n * n, 1, "R02/normalised");
	sym_same(a0 * o + b * n, E * o, "R02/eigenvector");
	sym_same(b * o + a1 * n, E * n, "R02/eigenvector");
	sym_check(E <= a0, "R02/lowest");
	sym_check(E <= a1, "R02/lowest");
	sym_same((E - a0) * (E - a1), b * b, "R02/eigenvalue");
}
// every real symmetric matrix; a0: which elements are zero (bits a0, a1, b), a1: 1 equal diagonal
ENTRY(r02_dense)
{
	UNUSED_ARGS;
	torch::set_default_dtype(torch::scalarTypeToTypeMeta(torch::kFloat64));
	double x = (a0 & 1) ? 0 : sym_real("x"), y = (a0 & 2) ? 0 : a1 ? x : sym_real("y"), b = (a0 & 4) ? 0 : sym_real("b");
	D s{IL()};
	auto t = [&](double v) {
		D d{IL()};
		d.v.assign(1, v);
		return to_torch(d);
	};
	auto [E, o, n] = details::eig2x2Mat(t(x), t(y), t(b));
	two_level(x, y, b, num(E), num(o), num(n));
}
ENTRY(r02_block)
{
	UNUSED_ARGS;
	torch::set_default_dtype(torch::scalarTypeToTypeMeta(torch::kFloat64));
	double x = (a0 & 1) ? 0 : sym_real("x"), y = (a0 & 2) ? 0 : a1 ? x : sym_real("y"), b = (a0 & 4) ? 0 : sym_real("b");
	any_quantity q = mkq(a2, "type").neutral();
	auto t = [&](double v, bool absent) {
		btensor o(btensor::vec_list_t(), q);
		D d{IL()};
		d.v.assign(1, v);
		if (!absent || a3 == 0) o.block({}) = to_torch(d); // a0 != 7: some block is there
		return o;
	};
	auto [E, o, n] = details::eig2x2Mat(t(x, a0 & 1), t(y, a0 & 2), t(b, a0 & 4));
	valid(E, "R02/valid"), valid(o, "R02/valid"), valid(n, "R02/valid");
	two_level(x, y, b, num(E), num(o), num(n));
}
// the energy of a state: <u|K|u>
static double energy(const D &u, const D &K)
{
	double e = 0;
	int64_t n = u.v.size();
	for (int64_t i = 0; i < n; ++i)
		for (int64_t j = 0; j < n; ++j) e += u.v[i] * K.v[i * n + j] * u.v[j];
	return e;
}
static double norm2(const D &u)
{
	double e = 0;
	for (double x : u.v) e += x * x;
	return e;
}
static D symmetric(int64_t n, const char *name)
{
	D k({n, n});
	for (int64_t i = 0; i < n; ++i)
		for (int64_t j = i; j < n; ++j) k.at({i, j}) = k.at({j, i}) = sym_real(name);
	return k;
}
// s: the state, K: the matrix of the local problem (same order of the elements), b2: the squared norm of K s - <s|K|s> s
template <class Tens, class B>
static void updated(const D &s, const D &K, const Tens &ts, const Tens &th, const Tens &l, const Tens &r, B back, bool whole)
{
	int64_t n = s.v.size();
	auto [psi, a0, a1, b] = details::one_step_lanczos(ts, th, l, r);
	double x = num(a0), y = num(a1), z = num(b);
	same(back(ts), s, "R02/kept");
	sym_same(x, energy(s, K), "R02/lanczos energy");
	D w = back(psi);
	sym_check(w.n == s.n, "R02/lanczos");
	sym_check(z >= 0, "R02/lanczos");
	bool stuck = z < 1e-15;
	D rest(s.n);
	for (int64_t i = 0; i < n; ++i)
	{
		double e = -x * s.v[i];
		for (int64_t j = 0; j < n; ++j) e += K.v[i * n + j] * s.v[j];
		rest.v[i] = e;
	}
	sym_same(z * z, norm2(rest), "R02/lanczos norm");
	if (!stuck)
		for (int64_t i = 0; i < n; ++i) sym_same(w.v[i] * z, rest.v[i], "R02/lanczos vector");
	if (!stuck) sym_same(y * (z * z), energy(rest, K), "R02/lanczos second energy");
	auto [te, tu] = two_sites_update(ts, th, l, r);
	double E = num(te);
	D u = back(tu);
	sym_check(u.n == s.n, "R02/update");
	if (stuck)
	{
		sym_same(E, x, "R02/eigenstate");
		same(u, s, "R02/eigenstate");
		return;
	}
	auto [e2, o, m] = details::eig2x2Mat(a0, a1, b);
	sym_same(E, num(e2), "R02/update energy");
	for (int64_t i = 0; i < n; ++i) sym_same(u.v[i], num(o) * s.v[i] + num(m) * w.v[i], "R02/update");
	if (!whole) return;
	sym_same(norm2(u), 1, "R02/normalised update");
	sym_same(energy(u, K), E, "R02/energy of the update");
	sym_check(E <= energy(s, K), "R02/energy goes down");
	if (n == 2)
		for (int64_t i = 0; i < n; ++i) sym_same(K.v[2 * i] * u.v[0] + K.v[2 * i + 1] * u.v[1], E * u.v[i], "R02/ground state");
}
// a0: where the local problem sits: 0 both sites, 1 left site, 2 right site, 3 left edge, 4 right edge; a1: its size; a2: the state, -1 one that isn't normalised
ENTRY(r02_update)
{
	UNUSED_ARGS;
	torch::set_default_dtype(torch::scalarTypeToTypeMeta(torch::kFloat64));
	int64_t n = a1;
	IL p{1, a0 == 1 ? n : a0 == 0 ? 2 : 1, a0 == 2 ? n : a0 == 0 ? n / 2 : 1, 1};
	if (a0 == 3) p[0] = n;
	if (a0 == 4) p[3] = n;
	D s(p), K = symmetric(n, "k");
	for (int64_t i = 0; i < n; ++i) s.v[i] = a2 < 0 ? double(1 + i) : i == a2;
	D l = ones({p[0], 1, p[0]}), r = ones({p[3], 1, p[3]}), h = ones({1, p[1], p[2], 1, p[1], p[2]});
	(a0 == 3 ? l : a0 == 4 ? r : h).v = K.v;
	updated(s, K, to_torch(s), to_torch(h), to_torch(l), to_torch(r), [](const torch::Tensor &t) { return from_torch(t); }, a2 >= 0);
}
// both sites with two conserved states each. a0: group, a1: blocks of the operator kept, a2: state; the two states with one of each label
ENTRY(r02_update_block)
{
	UNUSED_ARGS;
	torch::set_default_dtype(torch::scalarTypeToTypeMeta(torch::kFloat64));
	any_quantity x = mkq(a0, "x"), y = mkq(a0, "y"), o = x.neutral();
	sym_assume(x != y);
	auto one = [](any_quantity q) { return std::pair<IL, std::vector<any_quantity>>({1}, {q}); };
	auto edge = one(o);
	auto place = [&](Lay &l, std::pair<IL, std::vector<any_quantity>> e) { l.sz.push_back(e.first), l.q.push_back(e.second); };
	Lay ls{{}, {}, x + y}, lh{{}, {}, o}, le{{}, {}, o};
	place(ls, edge);
	for (int k = 0; k < 2; ++k) ls.sz.push_back({1, 1}), ls.q.push_back({x, y});
	place(ls, edge);
	place(lh, edge);
	for (int k = 0; k < 2; ++k) lh.sz.push_back({1, 1}), lh.q.push_back({x, y});
	place(lh, edge);
	for (int k = 0; k < 2; ++k) lh.sz.push_back({1, 1}), lh.q.push_back({x.inverse(), y.inverse()});
	for (int k = 0; k < 3; ++k) place(le, edge);
	T s = mkT(ls, NONE), h = mkT(lh, NONE), l = mkT(le, NONE), r = mkT(le, NONE);
	auto put = [](T &t, const IL &b, double v) {
		D d(IL(b.size(), 1));
		d.v[0] = v, t.d.at(b) = v, t.b.block(b) = to_torch(d);
	};
	put(l, {0, 0, 0}, 1), put(r, {0, 0, 0}, 1);
	D K({2, 2}), v({1, 2, 2, 1});
	// the two states are (x,y) and (y,x)
	for (int64_t i = 0; i < 2; ++i)
	{
		if (a2 >= 2 || i == a2) put(s, {0, i, 1 - i, 0}, a2 >= 2 ? 1. + i : 1.);
		for (int64_t j = i; j < 2; ++j)
		{
			int bit = i != j ? 4 : i ? 2 : 1;
			if (!(a1 & bit)) continue;
			double k = sym_real("k");
			put(h, {0, i, 1 - i, 0, j, 1 - j}, k);
			if (i != j) put(h, {0, j, 1 - j, 0, i, 1 - i}, k);
		}
		if (a1 & 8) put(h, {0, i, i, 0, i, i}, sym_real("k")); // other sectors
	}
	// every element is on its place of the dense form: the two states are elements 1 and 2
	D full({4, 4});
	full.v = h.d.v;
	updated(s.d, full, s.b, h.b, l.b, r.b, [](const btensor &b) { valid(b, "R02/valid"); return dense(b); }, a2 < 2);
}
// ---------------------------------------------------------------- R03
static IL physical(int n)
{
	IL p{2, 3, 1, 4, 2};
	p.resize(n);
	return p;
}
// what the search reports, and what is true each time it does
template <class S, class F>
struct watch : dmrg_default_logger
{
	using Tens = typename S::Tens;
	size_t count = 0, ended = 0, iteration = 0;
	double E = 0, last = 0;
	F &at;
	explicit watch(F &f) : at(f) {}
	void it_log_all(size_t k, const Tens &e, const S &s) override
	{
		sym_check(k == count, "R03/iteration number");
		++count, E = num(e);
		at(s);
	}
	void end_log_all(size_t k, const Tens &e, const S &s) override
	{
		++ended, last = num(e), iteration = k;
		(void)s;
	}
};
static dmrg_options search_options(int it, double crit, size_t bond)
{
	dmrg_options o(size_t(bond), size_t(1), size_t(it));
	o.cutoff = 0, o.convergence_criterion = crit;
	return o;
}
template <class S>
static void centre_in_range(const S &s, size_t n)
{
	sym_check(s.size() == n && s.orthogonality_center < n, "R03/centre in range");
}
static void isometry(const D &x, bool left)
{
	int64_t b = left ? x.n[2] : x.n[0];
	for (int64_t i = 0; i < b; ++i)
		for (int64_t j = i; j < b; ++j)
		{
			double t = 0;
			each(left ? IL{x.n[0], x.n[1]} : IL{x.n[1], x.n[2]}, [&](const IL &k) { t += left ? x.at({k[0], k[1], i}) * x.at({k[0], k[1], j}) : x.at({i, k[0], k[1]}) * x.at({j, k[0], k[1]}); });
			sym_same(t, i == j, "R03/isometric");
		}
}
// the operator of site i: diagonal of the physical site; the whole operator is zero, its parts aren't
static D channel(size_t i, size_t n, int64_t p)
{
	D o({i ? 2 : 1, p, i + 1 < n ? 2 : 1, p});
	double x = sym_real("h"), y = sym_real("h");
	for (int64_t k = 0; k < p; ++k)
	{
		if (i == 0) o.at({0, k, 1, k}) = x;
		else if (i + 1 == n) o.at({0, k, 0, k}) = x;
		else o.at({0, k, 0, k}) = x, o.at({1, k, 1, k}) = y;
	}
	return o;
}
template <class S, class H, class B>
static void sweeps(S &s, H &h, const std::vector<D> &O, int it, double crit, size_t bond, size_t svd_per_bond, B back)
{
	size_t n = O.size();
	auto env = generate_env(h, s);
	auto two_sites = details::compute_2sitesHamil(h);
	auto states = [&](const S &t) {
		std::vector<D> A;
		for (auto &x : t) A.push_back(back(x));
		return A;
	};
	minitorch::svd_mode = minitorch::decomposition::contract;
	minitorch::contract_product = false, minitorch::contract_ortho = true, minitorch::concrete_spectrum = true;
	minitorch::svd_log.clear();
	auto check = [&](const S &t) {
		centre_in_range(t, n);
		auto A = states(t);
		// the environments around the next pair of sites are those of the current state
		size_t c = t.orthogonality_center;
		if (c + 1 >= n) sym_check(false, "R03/next pair");
		D l = ones({1, 1, 1}), r = l;
		for (size_t k = 0; k < c; ++k) same(back(env[int64_t(k)]), l = left_of(l, A[k], O[k]), "R03/left environment");
		for (size_t k = n; k-- > c + 2;) same(back(env[int64_t(k)]), r = right_of(r, A[k], O[k]), "R03/right environment");
		if (svd_per_bond)
		{
			// every bond was updated
			auto p = physical(n);
			for (size_t k = 0; k + 1 < n; ++k)
			{
				size_t seen = 0;
				for (auto &[u, d, v] : minitorch::svd_log) seen += tsizes(u)[0] == p[k] && tsizes(v)[0] == p[k + 1];
				sym_check(seen >= svd_per_bond, "R03/every bond");
			}
		}
		minitorch::svd_log.clear();
	};
	watch<S, decltype(check)> w(check);
	auto E = details::dmrg_impl(h, two_sites, s, search_options(it, crit, bond), env, w);
	minitorch::svd_mode = minitorch::decomposition::numeric;
	sym_check(w.count <= size_t(it), "R03/iterations");
	if (crit < 0) sym_check(w.count == size_t(it), "R03/iterations");
	else sym_check(w.count == size_t(it) || w.count <= 2, "R03/stops");
	sym_check(w.ended == 1, "R03/end");
	if (w.count) sym_same(num(E), w.E, "R03/energy");
	sym_same(num(E), w.last, "R03/energy");
	if (w.count) sym_same(num(E), 0, "R03/energy");
	centre_in_range(s, n);
	auto A = states(s);
	size_t c = s.orthogonality_center;
	for (size_t k = 0; k < n; ++k)
	{
		sym_check(A[k].n[0] == (k ? A[k - 1].n[2] : 1) && A[k].n[1] == O[k].n[1], "R03/sizes");
		if (it) sym_check(A[k].n[0] <= int64_t(bond) && A[k].n[2] <= int64_t(bond), "R03/bond dimension");
		if (k < c) isometry(A[k], true);
		if (k > c) isometry(A[k], false);
	}
	if (it && minitorch::svd_log.empty()) // the centre is the one of the last update
	{
		double t = norm2(A[c]);
		sym_check(t > 1 - 1e-9, "R03/normalised"), sym_check(t < 1 + 1e-9, "R03/normalised");
	}
}
// a0: sites, a1: centre, a2: iterations, a3: bit 0 never converges, bit 1: bonds of 2
ENTRY(r03_dense)
{
	UNUSED_ARGS;
	torch::set_default_dtype(torch::scalarTypeToTypeMeta(torch::kFloat64));
	size_t n = a0;
	auto p = physical(n);
	std::vector<D> O;
	std::vector<torch::Tensor> ta, to;
	for (size_t i = 0; i < n; ++i)
	{
		D x({1, p[i], 1});
		x.v[0] = 1;
		O.push_back(channel(i, n, p[i]));
		ta.push_back(to_torch(x)), to.push_back(to_torch(O[i]));
	}
	MPS s(ta, a1);
	MPO h(to);
	double crit = -1;
	if (!(a3 & 1))
	{
		crit = sym_real("criterion");
		sym_assume_real(crit >= 0);
	}
	sweeps(s, h, O, a2, crit, (a3 & 2) ? 2 : 1, (a3 & 2) ? 0 : n == 2 ? 1 : 1, [](const torch::Tensor &t) { return from_torch(t); });
}
// a3: bit 0 group, bit 1: bonds of 2, bit 2: two sections
ENTRY(r03_block)
{
	UNUSED_ARGS;
	torch::set_default_dtype(torch::scalarTypeToTypeMeta(torch::kFloat64));
	int grp = (a3 & 1) ? 2 : 0;
	size_t n = a0;
	auto p = physical(n);
	std::vector<D> O;
	std::vector<btensor> ta, to;
	any_quantity left = mkq(grp, "left"), o = left.neutral();
	for (size_t i = 0; i < n; ++i)
	{
		any_quantity x = mkq(grp, "x");
		IL sec{p[i]};
		std::vector<any_quantity> q{x};
		if (a3 & 4) sec.push_back(1), q.push_back(mkq(grp, "y"));
		Lay la{{{1}, sec, {1}}, {{left}, q, {(left + x).inverse()}}, o};
		left = left + x;
		T A = mkT(la, NONE);
		int64_t size = A.d.n[1];
		D first({1, p[i], 1});
		first.v[0] = 1;
		A.b.block({0, 0, 0}) = to_torch(first);
		ta.push_back(A.b);
		Lay lh{{{i ? 2 : 1}, sec, {i + 1 < n ? 2 : 1}, sec}, {{o}, q, {o}, {}}, o};
		for (auto &y : q) lh.q[3].push_back(y.inverse());
		D d = channel(i, n, size);
		T H = mkT(lh, NONE);
		for (int64_t k = 0; k < int64_t(sec.size()); ++k)
		{
			int64_t at = lh.start(1, k);
			D blk({d.n[0], sec[k], d.n[2], sec[k]});
			each(blk.n, [&](const IL &j) { blk.at(j) = d.at({j[0], j[1] + at, j[2], j[3] + at}); });
			H.b.block({0, k, 0, k}) = to_torch(blk);
		}
		to.push_back(H.b);
		O.push_back(d);
	}
	bMPS s(ta, a1);
	bMPO h(to);
	sweeps(s, h, O, a2, -1, (a3 & 2) ? 2 : 1, (a3 & 6) ? 0 : 1, [](const btensor &b) { valid(b, "R03/valid"); return dense(b); });
}
// the public function on an eigenstate: a basis state, the operator any chain of matrices on it
template <class S, class H, class B, class Z>
static void eigenstate(S &s, H &h, double ref, const std::vector<D> &A, const std::vector<D> &O, int it, B back, Z dims)
{
	size_t n = A.size();
	auto none = [](const S &) {};
	watch<S, decltype(none)> w(none);
	double crit = sym_real("criterion");
	sym_assume_real(crit >= 0);
	sym_assume_real(ref * ref > 0); // the block search compares relative to the energy
	auto E = dmrg(h, s, search_options(it, crit, 2), w);
	sym_check(w.count == size_t(it) || w.count <= 2, "R03/stops");
	sym_check(w.count == 0 || w.ended == 1, "R03/end");
	if (it) sym_check(w.count > 0, "R03/iterations");
	if (it) sym_same(num(E), ref, "R03/energy of an eigenstate");
	centre_in_range(s, n);
	// the state is the same, up to signs
	for (size_t i = 0; i < n; ++i)
	{
		D x = back(s[i]);
		bool ok = x.n == A[i].n;
		sym_check(ok, "R03/eigenstate kept");
		dims(s[i]);
		for (size_t k = 0; ok && k < x.v.size(); ++k) sym_same(x.v[k] * x.v[k], A[i].v[k], "R03/eigenstate kept");
	}
	for (size_t i = 0; i < n; ++i) same(back(h[i]), O[i], "R03/operator kept");
}
static D on_eigenstate(size_t i, size_t n, int64_t p, int64_t s, D &product, bool others)
{
	D o({i ? 2 : 1, p, i + 1 < n ? 2 : 1, p}), m({o.n[0], o.n[2]});
	for (int64_t a = 0; a < o.n[0]; ++a)
		for (int64_t b = 0; b < o.n[2]; ++b)
			for (int64_t x = 0; x < p; ++x)
				for (int64_t y = 0; y < p; ++y)
				{
					if (x != s && y == s) continue;     // an eigenstate
					if (y != s && (x != y || !others)) continue;
					double v = o.at({a, x, b, y}) = sym_real("h");
					if (y == s) m.at({a, b}) = v;
				}
	product = i ? dot(product, m, {1}, {0}) : m;
	return o;
}
ENTRY(r03_eigenstate)
{
	UNUSED_ARGS;
	torch::set_default_dtype(torch::scalarTypeToTypeMeta(torch::kFloat64));
	size_t n = a0;
	auto p = physical(n);
	std::vector<D> A, O;
	std::vector<torch::Tensor> ta, to;
	D m;
	for (size_t i = 0; i < n; ++i)
	{
		D x({1, p[i], 1});
		x.v[i % p[i]] = 1;
		A.push_back(x), O.push_back(on_eigenstate(i, n, p[i], i % p[i], m, a3));
		ta.push_back(to_torch(x)), to.push_back(to_torch(O[i]));
	}
	MPS s(ta, a1);
	MPO h(to);
	eigenstate(s, h, m.v[0], A, O, a2, [](const torch::Tensor &t) { return from_torch(t); }, [](const torch::Tensor &) {});
}
// a3: bit 0 group, bit 1 other sections of the operator
ENTRY(r03_eigenstate_block)
{
	UNUSED_ARGS;
	torch::set_default_dtype(torch::scalarTypeToTypeMeta(torch::kFloat64));
	int grp = (a3 & 1) ? 2 : 0;
	size_t n = a0;
	std::vector<D> A, O;
	std::vector<btensor> ta, to;
	any_quantity left = mkq(grp, "left"), o = left.neutral();
	D m;
	for (size_t i = 0; i < n; ++i)
	{
		any_quantity x = mkq(grp, "x"), y = mkq(grp, "y");
		int64_t k = i % 2;
		Lay la{{{1}, {1, 1}, {1}}, {{left}, {x, y}, {(left + (k ? y : x)).inverse()}}, o};
		left = left + (k ? y : x);
		T a = mkT(la, NONE);
		D one({1, 1, 1});
		one.v[0] = 1;
		a.b.block({0, k, 0}) = to_torch(one), a.d.at({0, k, 0}) = 1;
		D d = on_eigenstate(i, n, 2, k, m, a3 & 2);
		Lay lh{{{i ? 2 : 1}, {1, 1}, {i + 1 < n ? 2 : 1}, {1, 1}}, {{o}, {x, y}, {o}, {x.inverse(), y.inverse()}}, o};
		for (int64_t u = 0; u < 2; ++u)
			for (int64_t v = 0; v < 2; ++v)
				if (u != v) // the labels may forbid it
					for (int64_t b = 0; b < d.n[0]; ++b)
						for (int64_t c = 0; c < d.n[2]; ++c) d.at({b, u, c, v}) = 0;
		T h = mkT(lh, NONE);
		for (int64_t u = 0; u < 2; ++u)
		{
			if (u != k && !(a3 & 2)) continue;
			D blk({d.n[0], 1, d.n[2], 1});
			each(blk.n, [&](const IL &j) { blk.at(j) = d.at({j[0], u, j[2], u}); });
			h.b.block({0, u, 0, u}) = to_torch(blk);
		}
		A.push_back(a.d), O.push_back(d);
		ta.push_back(a.b), to.push_back(h.b);
	}
	bMPS s(ta, a1);
	bMPO h(to);
	eigenstate(s, h, m.v[0], A, O, a2, [](const btensor &b) { return dense(b); }, [](const btensor &b) { valid(b, "R03/valid"); });
}
// one site: no pair of sites
ENTRY(r03_single)
{
	UNUSED_ARGS;
	torch::set_default_dtype(torch::scalarTypeToTypeMeta(torch::kFloat64));
	any_quantity q = mkq(0, "x"), o = q.neutral();
	T A = mkT(Lay{{{1}, {1}, {1}}, {{o}, {q}, {q.inverse()}}, o}), O = mkT(Lay{{{1}, {1}, {1}, {1}}, {{o}, {q}, {o}, {q.inverse()}}, o});
	dmrg_default_logger w;
	double norm = A.d.v[0] * A.d.v[0];
	sym_assume_real(norm >= 1);
	bool t;
	if (a0)
	{
		bMPS s(std::vector<btensor>{A.b});
		bMPO h(std::vector<btensor>{O.b});
		t = throws([&] { dmrg(h, s, search_options(a1, 0, 2), w); });
		is(s[0], A, "R03/kept"), is(h[0], O, "R03/kept");
	}
	else
	{
		MPS s(std::vector<torch::Tensor>{to_torch(A.d)});
		MPO h(std::vector<torch::Tensor>{to_torch(O.d)});
		t = throws([&] { dmrg(h, s, search_options(a1, 0, 2), w); });
		same(from_torch(s[0]), A.d, "R03/kept"), same(from_torch(h[0]), O.d, "R03/kept");
	}
	sym_check(t, "R03/single site");
}
