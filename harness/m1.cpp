// L01 truncation of dense decompositions, L03 truncation of block decompositions
#include "b.h"
#include "LinearAlgebra.h"
#include "blockTensor/LinearAlgebra.h"
#include <algorithm>
static double power(double x, int p) { return p == 1 ? x : x * x; }
// n values in decreasing order
static std::vector<double> spectrum(int n, const char *name)
{
	std::vector<double> d;
	for (int i = 0; i < n; ++i)
	{
		d.push_back(sym_real(name));
		if (i) sym_assume(d[i] <= d[i - 1]);
	}
	if (n) sym_assume(d[n - 1] >= 0);
	return d;
}
struct Bound
{
	double tol;
	int p, lo, hi; // hi < 0: no maximum
	size_t max() const { return hi < 0 ? size_t(-1) : size_t(hi); }
};
static Bound bound(int n, int p, bool nomin = true)
{
	Bound b;
	b.p = p;
	b.tol = sym_real("tolerance");
	sym_assume(b.tol >= 0);
	b.lo = sym_int("minimum", nomin ? 0 : 1, n + 1);
	b.hi = sym_int("maximum", -1, n + 1);
	sym_assume(b.hi < 0 || b.hi >= b.lo);
	return b;
}
// the number of values to keep out of the decreasing rows
static int wanted(const std::vector<std::vector<double>> &rows, const Bound &b)
{
	int n = rows[0].size(), k = std::min(b.lo, n), top = b.hi < 0 || b.hi > n ? n : b.hi;
	for (; k < top; ++k)
	{
		bool over = false;
		for (auto &d : rows)
		{
			double w = 0;
			for (int i = k; i < n; ++i) w = w + power(d[i], b.p);
			if (w > power(b.tol, b.p)) over = true;
		}
		if (!over) return k;
	}
	return k;
}
static torch::Tensor rows_tensor(const std::vector<std::vector<double>> &rows, bool batch, bool ascending)
{
	int64_t n = rows[0].size();
	D d(batch ? IL{(int64_t)rows.size(), n} : IL{n});
	for (size_t r = 0; r < rows.size(); ++r)
		for (int64_t i = 0; i < n; ++i) d.v[r * n + i] = rows[r][ascending ? n - 1 - i : i];
	return to_torch(d);
}
// a0: values, a1: power, a2: rows (0: no batch dimension)
ENTRY(l01_index)
{
	UNUSED_ARGS;
	std::vector<std::vector<double>> rows;
	for (int r = 0; r < std::max(a2, 1); ++r) rows.push_back(spectrum(a0, "value"));
	Bound b = bound(a0, a1);
	int k = wanted(rows, b);
	bool up = sym_choose("ascending", 2);
	torch::Tensor d = rows_tensor(rows, a2 > 0, up);
	D before = from_torch(d);
	if (up)
	{
		int64_t i = compute_first_index_ascending(d, b.tol, b.p, b.lo, b.max());
		sym_observe("first", i);
		sym_check(i == a0 - k, "L01/first");
	}
	else
	{
		int64_t i = compute_last_index(d, b.tol, b.p, b.lo, b.max());
		sym_observe("last", i);
		sym_check(i == k - 1, "L01/last");
	}
	same(from_torch(d), before, "L01/input-kept");
}
static D columns(const D &x, int k)
{
	IL n = x.n;
	n.back() = k;
	D o(n);
	each(n, [&](const IL &i) { o.at(i) = x.at(i); });
	return o;
}
// a0: values, a1: power
ENTRY(l01_truncate)
{
	UNUSED_ARGS;
	std::vector<std::vector<double>> rows{spectrum(a0, "value")};
	Bound b = bound(a0, a1);
	int k = wanted(rows, b);
	torch::Tensor d = rows_tensor(rows, false, false);
	D u0 = sym_dense({2, 1, a0}, "u"), v0 = sym_dense({2, a0}, "v"), d0 = from_torch(d);
	torch::Tensor u = to_torch(u0, true), v = to_torch(v0);
	int form = sym_choose("form", 4);
	if (form < 2)
	{
		std::tuple<torch::Tensor, torch::Tensor, torch::Tensor> t(u, d, v), r;
		if (form == 0)
			r = truncate(u, d, v, b.tol, b.lo, b.max(), b.p);
		else
			r = truncate(t, b.tol, b.lo, b.max(), b.p);
		same(from_torch(std::get<0>(r)), columns(u0, k), "L01/u");
		same(from_torch(std::get<1>(r)), columns(d0, k), "L01/d");
		same(from_torch(std::get<2>(r)), columns(v0, k), "L01/v");
	}
	else
	{
		std::tuple<torch::Tensor, torch::Tensor> t(u, d), r;
		if (form == 2)
			r = truncate(u, d, b.tol, b.lo, b.max(), b.p);
		else
			r = truncate(t, b.tol, b.lo, b.max(), b.p);
		same(from_torch(std::get<0>(r)), columns(u0, k), "L01/u2");
		same(from_torch(std::get<1>(r)), columns(d0, k), "L01/d2");
	}
	same(from_torch(u), u0, "L01/kept");
	same(from_torch(d), d0, "L01/kept");
	same(from_torch(v), v0, "L01/kept");
}
// a0: size of the matrix, a1: power; the kernel gives arbitrary ascending eigenvalues and vectors
ENTRY(l01_eigh)
{
	UNUSED_ARGS;
	minitorch::svd_mode = minitorch::decomposition::contract;
	minitorch::contract_product = false;
	minitorch::sorted_spectrum = true;
	Bound b = bound(a0, a1, false);
	torch::Tensor A = to_torch(sym_dense({a0, 1, a0}, "a"));
	auto [e, u] = quantit::eigh(A, size_t(1), b.tol, b.lo, b.max(), b.p);
	D ev = from_torch(std::get<1>(minitorch::svd_log.back())), uv = from_torch(std::get<0>(minitorch::svd_log.back()));
	std::vector<double> m;
	for (double x : ev.v) m.push_back(x < 0 ? -x : x);
	std::sort(m.begin(), m.end(), [](double x, double y) { return x > y; });
	int k = wanted({m}, b);
	sym_check(tsizes(e) == IL{k} && tsizes(u) == IL{a0, k}, "L01/eigh-size");
	if (tsizes(e) != IL{k} || tsizes(u) != IL{a0, k}) return;
	std::vector<bool> used(a0);
	for (int i = 0; i < k; ++i)
	{
		double x = el(e, {i});
		sym_same(x < 0 ? -x : x, m[i], "L01/eigh-largest");
		bool found = false;
		for (int j = 0; j < a0 && !found; ++j)
		{
			if (used[j] || !(ev.v[j] == x)) continue;
			bool all = true;
			for (int r = 0; r < a0; ++r) all = all && uv.at({r, j}) == el(u, {r, i});
			if (all) used[j] = found = true;
		}
		sym_check(found, "L01/eigh-vector");
	}
}

// ---------------------------------------------------------------- L03
static D head(const D &x, int k) { return columns(x, k); }
// the decomposition of a block matrix (or tensor): values d on the sections of the bond, and the factors
struct Dec
{
	IL bond;                      // sizes of the sections of the bond
	std::vector<T> f;             // factors, bond last
	btensor d;
	std::vector<std::vector<double>> v; // values of each section
	std::vector<std::pair<double, int>> all;
	std::vector<int> k;           // to keep in each section
	int null = 0;                 // zeros to keep besides
};
// plain: the labels of the second factor are neutral
static Dec mkdec(int grp, const IL &bond, std::vector<std::vector<IL>> left, bool signs, bool plain = false)
{
	Dec o;
	torch::set_default_dtype(torch::scalarTypeToTypeMeta(torch::kFloat64));
	o.bond = bond;
	for (auto &l : left)
	{
		l.push_back(bond);
		Lay m = mklay(grp, l);
		if (plain && !o.f.empty())
		{
			for (auto &q : m.q)
				for (auto &x : q) sym_assume(x == x.neutral());
			sym_assume(m.sel == m.sel.neutral());
		}
		o.f.push_back(mkT(m, ALL, false, "u"));
	}
	any_quantity n = o.f[0].l.sel.neutral();
	btensor::vec_list_t spec(1);
	for (auto s : bond) spec[0].emplace_back(s, n);
	o.d = btensor(spec, n);
	auto m = [&](double x) { return signs && x < 0 ? -x : x; };
	for (size_t s = 0; s < bond.size(); ++s)
	{
		std::vector<double> v;
		for (int i = 0; i < bond[s]; ++i)
		{
			v.push_back(sym_real("value"));
			if (!signs) sym_assume(v[i] >= 0);
			if (i && !signs) sym_assume(v[i] <= v[i - 1]);
			for (int j = 0; signs && j < i; ++j) sym_assume(m(v[i]) != m(v[j]));
			sym_assume(m(v[i]) <= 1e300);
			o.all.emplace_back(m(v[i]), s);
		}
		o.v.push_back(v);
		D b(IL{bond[s]});
		b.v = v;
		o.d.block({(int64_t)s}) = to_torch(b);
	}
	std::stable_sort(o.all.begin(), o.all.end(), [](auto &a, auto &b) { return a.first > b.first; });
	// values are equal or tell apart at working precision
	for (size_t i = 1; i < o.all.size(); ++i) sym_assume(o.all[i].first == o.all[i - 1].first || o.all[i].first <= 0.999 * o.all[i - 1].first);
	return o;
}
// how many values of each section are to be kept
static void keep(Dec &o, const Bound &b)
{
	std::vector<double> row;
	for (auto &x : o.all) row.push_back(x.first);
	size_t k = row.empty() ? 0 : wanted({row}, b);
	while (k > 0 && k < row.size() && row[k] == row[k - 1] && row[k] > 0) ++k; // multiplets are kept whole
	o.k.assign(o.bond.size(), 0);
	o.null = 0;
	for (size_t i = 0; i < k; ++i)
		if (row[i] > 0)
			++o.k[o.all[i].second];
		else
			++o.null;
}
static auto find_block(const btensor &x, const IL &b)
{
	auto it = x.begin();
	while (it != x.end() && it->first != b) ++it;
	return it;
}
static void bond_is(const btensor &x, const Lay &l, const Dec &o, const char *id)
{
	Lay m = l;
	for (size_t s = 0; s < o.bond.size(); ++s)
		if (o.k[s]) m.sz.back()[s] = o.k[s];
	bool ok = x.section_numbers() == m.secs();
	sym_check(ok, id);
	if (!ok) return;
	sym_check(any_quantity(x.selection_rule) == l.sel, id);
	int64_t off = 0;
	for (size_t d = 0; d < m.rank(); ++d)
	{
		auto [first, last] = x.section_sizes(d);
		for (size_t s = 0; s < m.sz[d].size(); ++s)
		{
			if (d + 1 < m.rank() || o.k[s]) sym_check(first[s] == m.sz[d][s], id); // the size of a section left empty does not matter
			sym_check(any_quantity(x.get_cvals()[off + s]) == l.q[d][s], id);
		}
		off += m.sz[d].size();
	}
}
static void truncated(Dec &o, const btensor &d, const std::vector<btensor> &f)
{
	valid(d, "L03/valid-values");
	bool one = d.dim() == 1 && d.section_numbers() == IL{(int64_t)o.bond.size()};
	sym_check(one, "L03/values-shape");
	if (!one) return;
	// it does not matter where the zeros kept are
	for (size_t s = 0; s < o.bond.size(); ++s)
	{
		auto it = find_block(d, {(int64_t)s});
		int n = it == d.end() ? 0 : it->second.sizes()[0];
		while (o.null > 0 && o.k[s] < n && o.k[s] < o.bond[s]) ++o.k[s], --o.null;
	}
	sym_check(o.null == 0, "L03/values-kept");
	for (size_t s = 0; s < o.bond.size(); ++s)
	{
		auto it = find_block(d, {(int64_t)s});
		sym_check((it != d.end()) == (o.k[s] > 0), "L03/values-kept");
		if (it == d.end() || !o.k[s]) continue;
		D e(IL{o.k[s]});
		std::copy(o.v[s].begin(), o.v[s].begin() + o.k[s], e.v.begin());
		same(from_torch(it->second), e, "L03/values");
	}
	for (size_t j = 0; j < f.size(); ++j)
	{
		const btensor &x = f[j];
		const T &t = o.f[j];
		valid(x, "L03/valid-factor");
		bond_is(x, t.l, o, "L03/factor-shape");
		size_t n = 0;
		each(t.l.secs(), [&](const IL &b) {
			bool want = t.l.allowed(b) && o.k[b.back()] > 0;
			auto it = find_block(x, b);
			sym_check((it != x.end()) == want, "L03/factor-blocks");
			if (it == x.end() || !want) return;
			++n;
			D e(t.l.bsize(b));
			each(e.n, [&](const IL &i) {
				IL g;
				for (size_t k = 0; k < i.size(); ++k) g.push_back(t.l.start(k, b[k]) + i[k]);
				e.at(i) = t.d.at(g);
			});
			same(from_torch(it->second), head(e, o.k[b.back()]), "L03/factor-columns");
		});
		sym_check(n == (size_t)std::distance(x.begin(), x.end()), "L03/factor-extra");
	}
}
static IL bonds(int k)
{
	switch (k)
	{
	case 0: return {1, 1};
	case 1: return {2, 1};
	case 2: return {1, 1, 1};
	case 3: return {3};
	case 4: return {};
	case 5: return {1, 2};
	case 6: return {2, 2};
	}
	return {1};
}
// a0: bond, a1: group, a2: power, a3: geometry of the factors
ENTRY(l03_svd)
{
	UNUSED_ARGS;
	std::vector<IL> l = a3 == 1 ? std::vector<IL>{{1, 1}, {1}} : a3 == 2 ? std::vector<IL>{{1}} : std::vector<IL>{{1, 1}};
	Dec o = mkdec(a1, bonds(a0), {l, {{2}}}, false, a3 == 2);
	Bound b = bound(o.all.size(), a2);
	keep(o, b);
	btensor u = o.f[0].b, v = o.f[1].b, d = o.d;
	auto [tu, td, tv] = truncate(std::move(u), std::move(d), std::move(v), b.max(), b.lo, b.tol, b.p);
	truncated(o, td, {tu, tv});
	is(o.f[0].b, o.f[0], "L03/kept");
}
ENTRY(l03_eigh)
{
	UNUSED_ARGS;
	Dec o = mkdec(a1, bonds(a0), {a3 == 2 ? std::vector<IL>{{1}} : std::vector<IL>{{1, 1}}}, true);
	Bound b = bound(o.all.size(), a2);
	keep(o, b);
	btensor u = o.f[0].b, d = o.d;
	// the largest ones first
	for (size_t s = 0, off = 0; s < o.bond.size(); off += o.bond[s++])
	{
		std::vector<int> p(o.bond[s]);
		for (int i = 0; i < o.bond[s]; ++i) p[i] = i;
		std::sort(p.begin(), p.end(), [&](int x, int y) { return std::abs(o.v[s][x]) > std::abs(o.v[s][y]); });
		auto v = o.v[s];
		D c = o.f[0].d;
		for (int i = 0; i < o.bond[s]; ++i)
		{
			o.v[s][i] = v[p[i]];
			each(c.n, [&](IL x) {
				if (x.back() != int64_t(off) + i) return;
				IL y = x;
				y.back() = off + p[i];
				o.f[0].d.at(x) = c.at(y);
			});
		}
	}
	auto [td, tu] = truncate(std::move(d), std::move(u), b.max(), b.lo, b.tol, b.p);
	truncated(o, td, {tu});
}
// a0: geometry, a1: group, a2: power, a3: 1 eigenvalues. The whole decomposition followed by the truncation; the kernel gives arbitrary values and factors
ENTRY(l03_full)
{
	UNUSED_ARGS;
	torch::set_default_dtype(torch::scalarTypeToTypeMeta(torch::kFloat64));
	minitorch::svd_mode = minitorch::decomposition::contract;
	minitorch::contract_product = false;
	minitorch::contract_ortho = false;
	minitorch::sorted_spectrum = true;
	T a = mkT(mklay(a1, a0 == 0 ? std::vector<IL>{{1, 1}, {1, 1}} : a0 == 1 ? std::vector<IL>{{2}, {2}} : std::vector<IL>{{2, 1}, {2, 1}}), ALL, false, "a");
	if (a3)
		for (size_t s = 0; s < a.l.q[0].size(); ++s) sym_assume(a.l.q[1][s] == a.l.q[0][s].inverse());
	if (a3) sym_assume(a.l.sel == a.l.sel.neutral());
	if (a3)
		for (size_t s = 1; s < a.l.q[0].size(); ++s) sym_assume(a.l.q[0][s] != a.l.q[0][0]);
	Bound b = bound(3, a2);
	sym_assume(a.b.begin() != a.b.end());
	btensor u, d, v;
	if (a3)
		std::tie(d, u) = eigh(a.b, size_t(1), b.tol, b.lo, b.max(), b.p);
	else
		std::tie(u, d, v) = svd(a.b, size_t(1), b.tol, b.lo, b.max(), b.p);
	std::vector<double> all;
	for (auto &x : minitorch::svd_log)
		for (double y : from_torch(std::get<1>(x)).v) all.push_back(y < 0 ? -y : y);
	for (size_t i = 0; i < all.size(); ++i)
	{
		sym_assume(all[i] <= 1e300);
		for (size_t j = 0; j < i; ++j) sym_assume(all[i] <= 0.999 * all[j] || all[j] <= 0.999 * all[i]);
	}
	std::sort(all.begin(), all.end(), [](double x, double y) { return x > y; });
	size_t k = all.empty() ? 0 : wanted({all}, b);
	valid(d, "L03/full-valid");
	valid(u, "L03/full-valid");
	std::vector<double> got;
	for (auto &x : d)
		for (double y : from_torch(x.second).v) got.push_back(y < 0 ? -y : y);
	std::sort(got.begin(), got.end(), [](double x, double y) { return x > y; });
	sym_check(got.size() == k, "L03/full-number");
	for (size_t i = 0; i < k && i < got.size(); ++i) sym_same(got[i], all[i], "L03/full-largest");
	for (auto &f : {u, v})
		for (auto &x : f)
		{
			auto it = find_block(d, {x.first.back()});
			sym_check(it != d.end() && it->second.sizes()[0] == x.second.sizes()[1], "L03/full-factor");
		}
}
