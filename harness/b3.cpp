// B06 element-wise arithmetic, B11 batched products, B13 reductions and comparisons, B08 operands are kept
#include "b.h"
#include <algorithm>
// the same tensor built anew: nothing shared with the first
static T fresh(const T &t)
{
	T o{t.l, t.l.shape(), t.d};
	for (auto &kv : t.b)
	{
		IL b(kv.first.begin(), kv.first.end());
		D blk(t.l.bsize(b));
		each(blk.n, [&](const IL &i) {
			IL g;
			for (size_t k = 0; k < i.size(); ++k) g.push_back(t.l.start(k, b[k]) + i[k]);
			blk.at(i) = t.d.at(g);
		});
		o.b.block(b) = to_torch(blk);
	}
	return o;
}
static double nonzero(const char *name, bool positive = false)
{
	double v = sym_real(name);
	if (positive)
		sym_assume(v > 0);
	else
		sym_assume(v != 0);
	return v;
}
template <class F>
static D zip(const D &x, const D &y, F f)
{
	D o = x;
	for (size_t k = 0; k < o.v.size(); ++k) o.v[k] = f(x.v[k], y.v[k]);
	return o;
}
template <class F>
static D map(const D &x, F f)
{
	D o = x;
	for (auto &v : o.v) v = f(v);
	return o;
}
static IL reversed(size_t r)
{
	IL p;
	while (r--) p.push_back(r);
	return p;
}
// ---------------------------------------------------------------- B06
// a0: layout, a1: group, a2: fill
ENTRY(b06_add)
{
	UNUSED_ARGS;
	Lay l = mklay(a1, geo(a0));
	T x = mkT(l, a2, false, "x"), y = mkT(l, a2, false, "y");
	double al = sym_real("factor");
	IL rev = reversed(l.rank());
	btensor xs = x.b, z = y.b.permute(rev), o; // z: another tensor seen through the same elements
	auto sum = [&](double f) { return zip(x.d, y.d, [f](double a, double b) { return a + f * b; }); };
	T w = fresh(x);
	D e;
	int form = sym_choose("form", 14);
	switch (form)
	{
	case 0: o = x.b.add(y.b, al), e = sum(al); break;
	case 1: o = x.b.add(z.permute(rev), al), e = sum(al); break;
	case 2: o = x.b.sub(y.b, al), e = sum(-al); break;
	case 3: o = x.b.sub(z.permute(rev), al), e = sum(-al); break;
	case 4: o = x.b + y.b, e = sum(1); break;
	case 5: o = x.b - y.b, e = sum(-1); break;
	case 6: o = w.b.add_(y.b, al), e = sum(al); break;
	case 7: o = w.b.add_(z.permute(rev), al), e = sum(al); break;
	case 8: o = w.b.sub_(y.b, al), e = sum(-al); break;
	case 9: o = w.b.sub_(z.permute(rev), al), e = sum(-al); break;
	case 10: w.b += y.b, o = w.b, e = sum(1); break;
	case 11: w.b -= y.b, o = w.b, e = sum(-1); break;
	case 12: w.b -= z.permute(rev), o = w.b, e = sum(-1); break;
	case 13: o = x.b.add(fresh(y).b, al), e = sum(al); break; // a temporary nobody else holds
	}
	is(o, l, e, "B06/sum");
	if (form >= 6 && form <= 12) is(w.b, l, e, "B06/in place sum");
	is(x.b, x, "B06/left operand kept");
	is(xs, x, "B06/left operand kept");
	is(y.b, y, "B06/right operand kept");
	D zd(l.rank() ? IL(y.d.n.rbegin(), y.d.n.rend()) : IL{});
	each(y.d.n, [&](const IL &i) { zd.at(IL(i.rbegin(), i.rend())) = y.d.at(i); });
	same(dense(z), zd, "B06/right operand kept");
}
ENTRY(b06_add_scalar)
{
	UNUSED_ARGS;
	T x = mkT(mklay(a1, geo(a0)), SOME);
	double c = sym_real("added"), f = 1;
	btensor o;
	int form = sym_choose("form", 6);
	switch (form)
	{
	case 0: o = x.b.add(c); break;
	case 1: o = x.b.add(c, f = 3); break;
	case 2: o = x.b.sub(c), f = -1; break;
	case 3:
	{
		T w = fresh(x);
		w.b.add_(c);
		o = w.b;
		break;
	}
	case 4:
	{
		T w = fresh(x);
		w.b -= c;
		o = w.b, f = -1;
		break;
	}
	case 5:
	{
		T w = fresh(x);
		w.b += c;
		o = w.b;
		break;
	}
	}
	D e = x.d;
	each(x.l.secs(), [&](const IL &b) {
		if (!x.l.allowed(b)) return;
		each(x.l.bsize(b), [&](const IL &i) {
			IL g;
			for (size_t k = 0; k < i.size(); ++k) g.push_back(x.l.start(k, b[k]) + i[k]);
			e.at(g) = x.d.at(g) + f * c;
		});
	});
	is(o, x.l, e, "B06/number added to every allowed element");
	is(x.b, x, "B06/left operand kept");
}
// sums of tensors of different layouts are rejected
ENTRY(b06_add_reject)
{
	UNUSED_ARGS;
	Lay l = mklay(a1, geo(a0)), m = l;
	switch (sym_choose("difference", 4))
	{
	case 0: m.q[0][0] = mkq(a1, "other"); break;
	case 1: m.sel = mkq(a1, "other"); break;
	case 2: m.sz[0][0] += 1; break;
	case 3: // the same list of sections, split differently over the dimensions
		if (l.rank() < 2) return;
		m.sz[0].push_back(m.sz[1][0]), m.q[0].push_back(m.q[1][0]);
		m.sz[1].erase(m.sz[1].begin()), m.q[1].erase(m.q[1].begin());
		break;
	}
	bool ok = l.sz == m.sz && l.sel == m.sel && l.q[0][0] == m.q[0][0];
	T x = mkT(l, ALL, false, "x"), y = mkT(m, ALL, false, "y");
	btensor o;
	bool done = !throws([&] {
		switch (sym_choose("form", 4))
		{
		case 0: o = x.b.add(y.b); break;
		case 1: o = x.b.sub(fresh(y).b); break;
		case 2: o = fresh(x).b.add_(y.b); break;
		case 3: o = fresh(x).b.add_(fresh(y).b); break;
		}
	});
	sym_check(done == ok, "B06/sum of different layouts rejected");
	is(x.b, x, "B06/left operand kept");
	is(y.b, y, "B06/right operand kept");
}
// pairs of layouts of products
static std::vector<IL> pair_geo(int k, bool right)
{
	static const std::vector<IL> p[][2] = {
	    {{{2, 1}}, {{2, 1}}},                                 // 0
	    {{{1, 2}, {1}}, {{1, 2}, {2, 1}}},                    // 1
	    {{{1, 2}, {1}}, {{1}, {2, 1}}},                       // 2
	    {{{1, 2}, {2, 1}}, {{2, 1}}},                         // 3
	    {{{2, 1}}, {{1, 2}, {2, 1}}},                         // 4
	    {{{3}, {1}}, {{1}, {2}}},                             // 5 one section against a dimension of size one
	    {{}, {{1, 2}}},                                       // 6
	    {{{1, 2}}, {}},                                       // 7
	    {{{1, 2}}, {{2, 1}}},                                 // 8 rejected
	    {{{1, 2}}, {{1, 2, 1}}},                              // 9 rejected
	    {{{1}, {1, 2}}, {{1}, {1, 2}}},                       // 10
	    {{{3}}, {{2}}},                                       // 11 rejected
	    {{{1, 2}}, {{1}, {1}}},                               // 12
	    {{{1, 1}, {1}}, {{1}, {2, 1}, {1, 1}, {2}}},          // 13 rejected
	    {{{1}}, {{1, 1}, {3}}},                               // 14
	    {{{2}, {1, 1}}, {{1}, {1, 1}}},                       // 15
	    {{{1, 1}, {2}, {1, 1}}, {{1, 1}, {1}, {1}}},          // 16
	    {{{1, 1}, {1, 1}}, {{1, 1}, {1, 1}}},                 // 17
	};
	return p[k][right];
}
static Lay product_layout(const Lay &x, const Lay &y, bool &ok)
{
	Lay o;
	o.sel = x.sel * y.sel;
	size_t r = std::max(x.rank(), y.rank());
	o.sz.resize(r), o.q.resize(r);
	ok = true;
	for (size_t n = 1; n <= r; ++n)
	{
		const Lay *a = n <= x.rank() ? &x : nullptr, *b = n <= y.rank() ? &y : nullptr;
		if (!a || !b)
		{
			const Lay &k = a ? *a : *b;
			o.sz[r - n] = k.sz[k.rank() - n], o.q[r - n] = k.q[k.rank() - n];
			continue;
		}
		const IL &sa = a->sz[a->rank() - n], &sb = b->sz[b->rank() - n];
		auto &qa = a->q[a->rank() - n], &qb = b->q[b->rank() - n];
		bool one_a = sa == IL{1}, one_b = sb == IL{1};
		if (!one_a && !one_b && sa != sb) ok = false;
		o.sz[r - n] = one_a ? sb : sa;
		for (size_t s = 0; s < o.sz[r - n].size() && (one_a || s < qa.size()) && (one_b || s < qb.size()); ++s)
			o.q[r - n].push_back(qa[one_a ? 0 : s] * qb[one_b ? 0 : s]);
	}
	return o;
}
// element of a broadcast operand
static double spread(const D &x, const IL &i)
{
	IL j(i.end() - x.n.size(), i.end());
	for (size_t d = 0; d < j.size(); ++d)
		if (x.n[d] == 1) j[d] = 0;
	return x.at(j);
}
// whether the element lies in a block that is present
static D present(const T &t)
{
	D o(t.l.sizes());
	for (auto &kv : t.b)
		each(t.l.bsize(IL(kv.first.begin(), kv.first.end())), [&](const IL &i) {
			IL g;
			for (size_t k = 0; k < i.size(); ++k) g.push_back(t.l.start(k, kv.first[k]) + i[k]);
			o.at(g) = 1;
		});
	return o;
}
// a0: pair of layouts, a1: group, a2: fill, a3: 0 product 1 quotient 2 power
ENTRY(b06_broadcast)
{
	UNUSED_ARGS;
	Lay lx = mklay(a1, pair_geo(a0, false)), ly = mklay(a1, pair_geo(a0, true));
	bool ok;
	Lay e = product_layout(lx, ly, ok);
	T x = mkT(lx, a2, false, "x"), y = mkT(ly, a2, true, "y");
	D px = present(x), py = present(y);
	if (a3 == 1)
		for (auto &kv : y.b) each(tsizes(kv.second), [&](const IL &i) { sym_assume(el(kv.second, i) >= 1); });
	if (a3 == 2)
		for (auto &kv : y.b)
			each(tsizes(kv.second), [&](const IL &i) { el(kv.second, i) = 2; }); // whole exponents only
	if (a3 == 2) y.d = dense(y.b);
	T w = fresh(x);
	btensor o;
	bool in_place = sym_choose("in place", 2);
	bool done = !throws([&] {
		switch (a3)
		{
		case 0:
			if (in_place)
				w.b.mul_(y.b);
			else
				o = x.b * y.b;
			break;
		case 1:
			if (in_place)
				w.b.div_(y.b);
			else
				o = x.b / y.b;
			break;
		case 2:
			if (in_place)
				w.b.pow_(y.b);
			else
				o = x.b.pow(y.b);
			break;
		}
	});
	is(x.b, x, "B06/left operand kept");
	is(y.b, y, "B06/right operand kept");
	if (in_place && lx.rank() < ly.rank()) ok = false; // documented: the result must not have a higher rank
	sym_check(done == ok, "B06/element-wise operation rejected exactly when the sizes do not match");
	if (!done && in_place) is(w.b, x, "B06/rejected operation changes nothing");
	if (!done || !ok) return;
	if (in_place) o = w.b;
	D r(e.sizes());
	each(r.n, [&](const IL &i) {
		if (spread(px, i) == 0. || spread(py, i) == 0.) return; // zero
		double a = spread(x.d, i), b = spread(y.d, i);
		r.at(i) = a3 == 0 ? a * b : a3 == 1 ? a / b : a * a;
	});
	is(o, e, r, a3 == 0 ? "B06/element-wise product" : a3 == 1 ? "B06/element-wise quotient" : "B06/element-wise power");
}
// products of tensors of the same rank whose labels depend on nothing but the sizes: see b06_broadcast
ENTRY(b06_scalar)
{
	UNUSED_ARGS;
	T x = mkT(mklay(a1, geo(a0)), SOME);
	T w = fresh(x);
	btensor o, xs = x.b;
	D e;
	double c = sym_real("factor"), n = nonzero("divisor");
	int form = sym_choose("form", 12);
	bool in_place = false;
	switch (form)
	{
	case 0: o = x.b.mul(c), e = map(x.d, [&](double v) { return v * c; }); break;
	case 1: o = x.b * btensor::Scalar(c), e = map(x.d, [&](double v) { return v * c; }); break;
	case 2: o = btensor::Scalar(c) * x.b, e = map(x.d, [&](double v) { return v * c; }); break;
	case 3: o = -x.b, e = map(x.d, [&](double v) { return -v; }); break;
	case 4: o = x.b.div(n), e = map(x.d, [&](double v) { return v / n; }); break;
	case 5: o = x.b / btensor::Scalar(n), e = map(x.d, [&](double v) { return v / n; }); break;
	case 6: w.b.mul_(c), in_place = true, e = map(x.d, [&](double v) { return v * c; }); break;
	case 7: w.b.div_(n), in_place = true, e = map(x.d, [&](double v) { return v / n; }); break;
	case 8: w.b *= btensor::Scalar(c), in_place = true, e = map(x.d, [&](double v) { return v * c; }); break;
	case 9: w.b /= btensor::Scalar(n), in_place = true, e = map(x.d, [&](double v) { return v / n; }); break;
	case 10: o = -static_cast<const btensor &>(x.b), e = map(x.d, [&](double v) { return -v; }); break;
	case 11: // reciprocal where there is a block
	{
		for (auto &kv : x.b) each(tsizes(kv.second), [&](const IL &i) { sym_assume(el(kv.second, i) >= 1); });
		o = btensor::Scalar(c) / x.b;
		D p = present(x);
		e = zip(x.d, p, [&](double v, double q) { return q == 0. ? 0. : c / v; });
		break;
	}
	}
	is(in_place ? w.b : o, x.l, e, "B06/operation with a number");
	is(x.b, x, "B06/left operand kept");
	is(xs, x, "B06/left operand kept");
}
// ---------------------------------------------------------------- B11
// a0: batch layout, a1: group, a2: fill + 10 * small, a3: 0 matching 1 arbitrary
static std::vector<IL> batch_geo(int k)
{
	switch (k)
	{
	case 1: return {{1, 2}};
	case 2: return {{1}, {2, 1}};
	case 3: return {{1}};
	case 4: return {{1, 1}, {1, 1}};
	case 5: return {{2}};
	}
	return {};
}
ENTRY(b11_bmm)
{
	UNUSED_ARGS;
	auto bg = batch_geo(a0);
	size_t nb = bg.size();
	auto gx = bg, gy = bg;
	int small = a2 / 10; // which matrix dimensions have a single section: bit 0 rows, bit 1 summed, bit 2 columns
	a2 %= 10;
	IL inner = small & 2 ? IL{2} : IL{2, 1};
	gx.push_back(small & 1 ? IL{2} : IL{1, 2}), gx.push_back(inner);
	gy.push_back(inner), gy.push_back(small & 4 ? IL{1} : IL{1, 1});
	Lay lx = mklay(a1, gx), ly = mklay(a1, gy);
	bool ok = true;
	if (a3)
	{
		int how = sym_choose("misfit", 5);
		for (size_t s = 0; s < inner.size(); ++s) ly.q[nb][s] = lx.q[nb + 1][s].inverse();
		switch (how)
		{
		case 0:
		{
			int s = sym_choose("section", inner.size());
			ly.q[nb][s] = mkq(a1, "other label");
			ok = lx.q[nb + 1][s] * ly.q[nb][s] == lx.sel.neutral();
			break;
		}
		case 1: ly.sz[nb][sym_choose("section", inner.size())] += 1, ok = false; break;
		case 2: ly.sz[nb].push_back(1), ly.q[nb].push_back(mkq(a1, "more")), ok = false; break;
		case 3:
		{
			if (nb == 0) return;
			int d = sym_choose("dim", nb), s = sym_choose("section", ly.sz[d].size());
			ly.sz[d][s] += 1, ok = false;
			break;
		}
		case 4:
			if (nb == 0) return;
			ly.sz[0].push_back(1), ly.q[0].push_back(mkq(a1, "more")), ok = false;
			break;
		}
	}
	else
		for (size_t s = 0; s < inner.size(); ++s) ly.q[nb][s] = lx.q[nb + 1][s].inverse();
	T x = mkT(lx, a2, false, "x"), y = mkT(ly, a2, true, "y");
	btensor o;
	bool done = !throws([&] { o = x.b.bmm(y.b); });
	sym_check(done == ok, "B11/product rejected exactly when the shapes do not match");
	is(x.b, x, "B11/left operand kept");
	is(y.b, y, "B11/right operand kept");
	if (!done || !ok) return;
	Lay e;
	e.sel = lx.sel * ly.sel;
	for (size_t d = 0; d < nb; ++d)
	{
		e.sz.push_back(lx.sz[d]);
		e.q.emplace_back();
		for (size_t s = 0; s < lx.q[d].size(); ++s) e.q.back().push_back(lx.q[d][s] * ly.q[d][s]);
	}
	e.sz.push_back(lx.sz[nb]), e.q.push_back(lx.q[nb]);
	e.sz.push_back(ly.sz[nb + 1]), e.q.push_back(ly.q[nb + 1]);
	D r(e.sizes());
	each(r.n, [&](const IL &i) {
		IL p(i.begin(), i.end() - 1), q(i.begin(), i.end() - 1);
		p.push_back(0), q.back() = 0, q.push_back(i.back());
		double s = 0;
		for (int64_t k = 0; k < x.d.n.back(); ++k)
		{
			p.back() = k, q[q.size() - 2] = k;
			s = s + x.d.at(p) * y.d.at(q);
		}
		r.at(i) = s;
	});
	is(o, e, r, "B11/batched product");
}
// different ranks and ranks below two
ENTRY(b11_rank)
{
	UNUSED_ARGS;
	Lay lx = mklay(a1, {{1}, {1, 1}, {1, 1}}), ly = lx;
	ly.q[1] = {lx.q[2][0].inverse(), lx.q[2][1].inverse()};
	T x = mkT(lx), y = mkT(ly);
	Lay m = lx, v = lx;
	m.sz.erase(m.sz.begin()), m.q.erase(m.q.begin());
	v.sz.resize(1), v.q.resize(1);
	T mt = mkT(m), vt = mkT(v);
	sym_check(throws([&] { (void)x.b.bmm(mt.b); }), "B11/different ranks rejected");
	sym_check(throws([&] { (void)mt.b.bmm(x.b); }), "B11/different ranks rejected");
	sym_check(throws([&] { (void)vt.b.bmm(vt.b); }), "B11/ranks below two rejected");
	sym_check(!throws([&] { (void)x.b.bmm(y.b); }), "B11/matching shapes accepted");
}
// ---------------------------------------------------------------- B13
ENTRY(b13_sum)
{
	UNUSED_ARGS;
	T x = mkT(mklay(a1, geo(a0)), SOME, true);
	btensor o = x.b.sum();
	double s = 0;
	for (auto v : x.d.v) s = s + v;
	sym_check(o.dim() == 0, "B13/sum has rank 0");
	valid(o, "B13/sum");
	sym_same(o.item().toDouble(), s, "B13/sum");
	is(x.b, x, "B13/operand kept");
}
ENTRY(b13_compare)
{
	UNUSED_ARGS;
	Lay l = mklay(a1, geo(a0));
	T x = mkT(l, SOME, false, "x");
	double c = sym_real("bound");
	btensor o;
	D p = present(x), e;
	auto res = [&](auto f) { return zip(x.d, p, [&](double v, double q) { return q == 0. ? 0. : f(v) ? 1. : 0.; }); };
	switch (sym_choose("comparison", 8))
	{
	case 0: o = x.b.le(c), e = res([&](double v) { return v <= c; }); break;
	case 1: o = x.b.ge(c), e = res([&](double v) { return v >= c; }); break;
	case 2: o = x.b.less(c), e = res([&](double v) { return v < c; }); break;
	case 3: o = x.b.greater(c), e = res([&](double v) { return v > c; }); break;
	case 4: o = x.b.eq(c), e = res([&](double v) { return v == c; }); break;
	case 5: o = x.b.not_equal(c), e = res([&](double v) { return v != c; }); break;
	case 6: o = ge(c, x.b), e = res([&](double v) { return c >= v; }); break;
	case 7: o = less(c, x.b), e = res([&](double v) { return c < v; }); break;
	}
	is(o, x.l, e, "B13/comparison with a number");
	is(x.b, x, "B13/operand kept");
	bool some = false;
	for (auto v : e.v) some = some || v != 0.;
	torch::Tensor a = o.any();
	sym_check(a.defined(), "B13/any true element");
	if (a.defined()) sym_check(a.item().to<bool>() == some, "B13/any true element");
	is(o, x.l, e, "B13/operand kept");
	sym_check(!x.b.anynan(), "B13/no undefined element");
	is(x.b.isnan(), x.l, D(x.d.n), "B13/no undefined element");
}
ENTRY(b13_compare2)
{
	UNUSED_ARGS;
	Lay l = mklay(a1, geo(a0));
	for (auto &d : l.q)
		for (auto &q : d) q = l.sel.neutral();
	l.sel = l.sel.neutral();
	T x = mkT(l, SOME, false, "x"), y = mkT(l, SOME, false, "y");
	D p = zip(present(x), present(y), [](double a, double b) { return a * b; }), e(x.d.n);
	auto res = [&](auto f) {
		for (size_t k = 0; k < e.v.size(); ++k) e.v[k] = p.v[k] == 0. ? 0. : f(x.d.v[k], y.d.v[k]) ? 1. : 0.;
	};
	btensor o;
	switch (sym_choose("comparison", 6))
	{
	case 0: o = x.b.le(y.b), res([](double a, double b) { return a <= b; }); break;
	case 1: o = x.b.ge(y.b), res([](double a, double b) { return a >= b; }); break;
	case 2: o = x.b.less(y.b), res([](double a, double b) { return a < b; }); break;
	case 3: o = x.b.greater(y.b), res([](double a, double b) { return a > b; }); break;
	case 4: o = x.b.eq(y.b), res([](double a, double b) { return a == b; }); break;
	case 5: o = x.b.not_equal(y.b), res([](double a, double b) { return a != b; }); break;
	}
	is(o, l, e, "B13/comparison of two tensors");
	is(x.b, x, "B13/operand kept");
	is(y.b, y, "B13/operand kept");
}
static double mod(double v) { return v < 0 ? -v : v; }
ENTRY(b13_allclose)
{
	UNUSED_ARGS;
	Lay l = mklay(a1, geo(a0));
	T x = mkT(l, SOME, false, "x"), y = mkT(l, SOME, true, "y");
	double rtol = sym_choose("relative", 2) ? 0.25 : 0, atol = 0.5;
	bool close = true;
	for (size_t k = 0; k < x.d.v.size(); ++k)
		if (!(mod(x.d.v[k] - y.d.v[k]) <= atol + rtol * mod(y.d.v[k]))) close = false;
	// where only the second has a block the bound of the first, zero, may be used: the two differ by the relative term
	if (rtol == 0)
		sym_check(allclose(x.b, y.b, rtol, atol) == close, "B13/closeness");
	else
	{
		bool strict = true, loose = true;
		for (size_t k = 0; k < x.d.v.size(); ++k)
		{
			double m = mod(x.d.v[k] - y.d.v[k]), a = mod(x.d.v[k]), b = mod(y.d.v[k]);
			if (!(m <= atol + rtol * (a < b ? a : b))) strict = false;
			if (!(m <= atol + rtol * (a < b ? b : a))) loose = false;
		}
		bool r = allclose(x.b, y.b, rtol, atol);
		sym_check((!strict || r) && (!r || loose), "B13/closeness");
	}
	is(x.b, x, "B13/operand kept");
	is(y.b, y, "B13/operand kept");
	Lay m = l;
	if (m.rank())
	{
		m.q[0][0] = mkq(a1, "other");
		if (!(m.q[0][0] == l.q[0][0]))
			sym_check(!allclose(x.b, mkT(m, NONE).b, 0., 1e6), "B13/tensors of different layout are not close");
	}
}
static std::vector<IL> squeeze_geo(int k)
{
	switch (k)
	{
	case 0: return {{1}, {1, 2}};
	case 1: return {{2, 1}, {1}};
	case 2: return {{1}, {1}};
	case 3: return {{1, 1}, {1}, {1, 1}};
	case 4: return {{1}, {2, 1}, {1}};
	case 5: return {{2}, {1, 1}};
	case 6: return {{1}};
	}
	return {};
}
ENTRY(b13_squeeze)
{
	UNUSED_ARGS;
	T x = mkT(mklay(a1, squeeze_geo(a0)), SOME, a2 == 1);
	T w = fresh(x);
	btensor o;
	bool one = sym_choose("one dimension", 2);
	size_t r = x.l.rank(), dim = one ? sym_choose("dim", r) : 0;
	Lay e;
	e.sel = x.l.sel;
	for (size_t d = 0; d < r; ++d)
		if (x.l.sz[d] == IL{1} && (!one || d == dim))
			e.sel *= x.l.q[d][0].inverse();
		else
			e.sz.push_back(x.l.sz[d]), e.q.push_back(x.l.q[d]);
	D s = x.d;
	s.n = e.sizes();
	switch (sym_choose("form", 2))
	{
	case 0: o = one ? x.b.squeeze(dim) : x.b.squeeze(); break;
	case 1:
		if (one)
			w.b.squeeze_(dim);
		else
			w.b.squeeze_();
		o = w.b;
		break;
	}
	is(o, e, s, "B13/size one dimensions removed");
	is(x.b, x, "B13/operand kept");
}
ENTRY(b13_power)
{
	UNUSED_ARGS;
	T x = mkT(mklay(a1, geo(a0)), SOME, a2 == 1);
	T w = fresh(x);
	btensor o;
	D e;
	switch (sym_choose("form", 8))
	{
	case 0: o = x.b.pow(2), e = map(x.d, [](double v) { return v * v; }); break;
	case 1: o = x.b.pow(3), e = map(x.d, [](double v) { return v * v * v; }); break;
	case 2: o = w.b.pow_(2), e = map(x.d, [](double v) { return v * v; }); break;
	case 3: o = x.b.abs(), e = map(x.d, mod); break;
	case 4: o = w.b.abs_(), e = map(x.d, mod); break;
	case 5: o = pow(x.b, 1), e = x.d; break;
	case 6:
	case 7:
	{
		for (auto v : x.d.v) sym_assume(v >= 0);
		o = sym_choose("in place", 2) ? w.b.sqrt_() : x.b.sqrt();
		D r = dense(o);
		for (auto &v : r.v) sym_check(v >= 0, "B13/square root");
		same(map(r, [](double v) { return v * v; }), x.d, "B13/square root");
		is(o, x.l, r, "B13/square root");
		is(x.b, x, "B13/operand kept");
		return;
	}
	}
	is(o, x.l, e, "B13/power");
	is(x.b, x, "B13/operand kept");
}
// ---------------------------------------------------------------- B08
static void equal(const btensor &a, const btensor &b, const char *id)
{
	valid(a, id);
	bool ok = a.section_numbers() == b.section_numbers() && a.sizes() == b.sizes() && a.get_cvals().size() == b.get_cvals().size();
	sym_check(ok, id);
	if (!ok) return;
	sym_check(any_quantity(a.selection_rule) == any_quantity(b.selection_rule), id);
	for (size_t k = 0; k < a.get_cvals().size(); ++k) sym_check(any_quantity(a.get_cvals()[k]) == any_quantity(b.get_cvals()[k]), id);
	for (int64_t d = 0; d < a.dim(); ++d)
	{
		auto [f, l] = a.section_sizes(d);
		auto [g, m] = b.section_sizes(d);
		sym_check(IL(f, l) == IL(g, m), id);
	}
	same(dense(a), dense(b), id);
}
// a0: layout, a1: group, a2: fill
ENTRY(b08_operations)
{
	UNUSED_ARGS;
	Lay l = mklay(a1, geo(a0));
	size_t r = l.rank();
	T x = mkT(l, a2, false, "x"), y = mkT(l, a2, true, "y");
	btensor shared = x.b; // holds the same memory
	T w = fresh(x);       // for the in place operation
	double c = sym_real("factor"), n = nonzero("divisor");
	any_quantity s = mkq(a1, "shift");
	int op = sym_choose("operation", 17);
	int64_t dim = r ? sym_choose("dim", r) : 0;
	IL rot;
	for (size_t k = 0; k < r; ++k) rot.push_back((k + 1) % r);
	btensor o;
	bool view = false; // result allowed to look at the memory of the operand
	switch (op)
	{
	case 0: o = x.b.mul(c), w.b.mul_(c); break;
	case 1: o = x.b.div(n), w.b.div_(n); break;
	case 2: o = x.b.add(y.b, c), w.b.add_(y.b, c); break;
	case 3: o = x.b.sub(y.b, c), w.b.sub_(y.b, c); break;
	case 4: o = x.b.mul(y.b), w.b.mul_(y.b); break;
	case 5: o = x.b.pow(2), w.b.pow_(2); break;
	case 6: o = x.b.abs(), w.b.abs_(); break;
	case 7: o = x.b.add(c), w.b.add_(c); break;
	case 8: o = x.b.multiply(c), w.b.multiply_(c); break;
	case 9: o = x.b.subtract(y.b), w.b.subtract_(y.b); break;
	case 10: o = x.b.permute(rot), w.b.permute_(rot), view = true; break;
	case 11:
		if (!r) return;
		o = x.b.transpose(0, dim), w.b.transpose_(0, dim), view = true;
		break;
	case 12: o = x.b.inverse_cvals(), w.b.inverse_cvals_(), view = true; break;
	case 13:
		if (!r) return;
		o = x.b.cval_shift(s, dim), w.b.cval_shift_(s, dim), view = true;
		break;
	case 14: o = x.b.squeeze(), w.b.squeeze_(), view = true; break;
	case 15:
		if (!r) return;
		o = x.b.squeeze(dim), w.b.squeeze_(dim), view = true;
		break;
	case 16: o = x.b.conj(), w.b.inverse_cvals_(), view = true; break;
	}
	is(x.b, x, "B08/operand kept");
	is(shared, x, "B08/operand kept");
	is(y.b, y, "B08/other operand kept");
	equal(w.b, o, "B08/in place operation gives the result of the other");
	if (!view)
	{
		o.mul_(3.);
		is(x.b, x, "B08/result does not share memory with the operand");
		is(y.b, y, "B08/result does not share memory with the other operand");
		w.b.mul_(3.);
		is(y.b, y, "B08/a tensor changed in place does not share memory with the other operand");
	}
	// label changes of a result never reach the operand, nor those of a copy
	if (r)
	{
		o.inverse_cvals_();
		shared.cval_shift_(s, dim);
		is(x.b, x, "B08/labels of a copy are its own");
	}
}
// operations with a result of another kind
ENTRY(b08_observers)
{
	UNUSED_ARGS;
	Lay l = mklay(a1, geo(a0));
	size_t r = l.rank();
	T x = mkT(l, a2, false, "x");
	btensor shared = x.b;
	int op = sym_choose("operation", 10);
	IL view(r, -1);
	if (r) view[0] = 0;
	switch (op)
	{
	case 0: (void)x.b.to_dense(); break;
	case 1: (void)x.b.sum(); break;
	case 2: (void)x.b.reshape(r > 1 ? IL{1} : IL{}); break;
	case 3: (void)x.b.basic_create_view(view); break;
	case 4: (void)x.b.shape_from(view); break;
	case 5: (void)x.b.inverse_cvals(); break;
	case 6: (void)btensor::check_tensor(x.b); break;
	case 7: (void)x.b.tensordot(x.b.inverse_cvals(), r ? IL{0} : IL{}, r ? IL{0} : IL{}); break;
	case 8: (void)x.b.tensor_product_shape(x.b); break;
	case 9:
	{
		torch::Tensor d = x.b.to_dense();
		D before = from_torch(d);
		btensor b = from_basic_tensor_like(l.shape(), d, 0., {});
		same(from_torch(d), before, "B08/dense operand kept");
		break;
	}
	}
	is(x.b, x, "B08/operand kept");
	is(shared, x, "B08/operand kept");
}
