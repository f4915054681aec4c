// B04 reordering, B05 contraction, B07 regrouping, B09 slicing, B12 accumulating contraction
#include "b.h"
#include "tensorgdot.h"
#include <algorithm>
// layout with dimensions reordered
static Lay reorder(const Lay &l, const IL &p)
{
	Lay o;
	o.sel = l.sel;
	for (auto d : p) o.sz.push_back(l.sz[d]), o.q.push_back(l.q[d]);
	return o;
}
static D reorder(const D &d, const IL &p)
{
	IL n;
	for (auto k : p) n.push_back(d.n[k]);
	D o(n);
	each(d.n, [&](const IL &i) {
		IL j;
		for (auto k : p) j.push_back(i[k]);
		o.at(j) = d.at(i);
	});
	return o;
}
static IL pick_perm(size_t r)
{
	IL p, left;
	for (size_t k = 0; k < r; ++k) left.push_back(k);
	while (left.size())
	{
		size_t k = sym_choose("permutation", left.size());
		p.push_back(left[k]);
		left.erase(left.begin() + k);
	}
	return p;
}
// ---------------------------------------------------------------- B04
ENTRY(b04_permute)
{
	UNUSED_ARGS;
	T t = mkT(mklay(a1, geo(a0)), SOME, a2 == 1);
	size_t r = t.l.rank();
	IL p = pick_perm(r), in = p, inv(r);
	for (size_t k = 0; k < r; ++k) inv[p[k]] = k;
	if (a2)
		for (auto &x : in) x -= sym_choose("negative", 2) ? r : 0;
	btensor o;
	if (a3)
		(o = t.b).permute_(in);
	else
		o = t.b.permute(in);
	Lay l = reorder(t.l, p);
	D d = reorder(t.d, p);
	is(o, l, d, "B04/reordered tensor");
	is(t.b, t, "B04/source kept");
	is(o.permute(inv), t, "B04/inverse reordering restores");
	each(l.secs(), [&](const IL &b) {
		IL s(r);
		for (size_t k = 0; k < r; ++k) s[p[k]] = b[k];
		sym_check(o.blocks().contains(b) == t.b.blocks().contains(s), "B04/same blocks present");
	});
}
ENTRY(b04_transpose)
{
	UNUSED_ARGS;
	T t = mkT(mklay(a1, geo(a0)), SOME, a2 == 1);
	size_t r = t.l.rank();
	IL p;
	for (size_t k = 0; k < r; ++k) p.push_back(k);
	int64_t x = sym_choose("dim", 2 * r) - r, y = sym_choose("dim", 2 * r) - r;
	std::swap(p[x < 0 ? x + r : x], p[y < 0 ? y + r : y]);
	btensor o;
	if (sym_choose("in place", 2))
		(o = t.b).transpose_(x, y);
	else
		o = t.b.transpose(x, y);
	is(o, reorder(t.l, p), reorder(t.d, p), "B04/transposed tensor");
	is(t.b, t, "B04/source kept");
	is(o.transpose(y, x), t, "B04/transposing twice restores");
	if (r == 2)
	{
		IL q{1, 0};
		is(t.b.t(), reorder(t.l, q), reorder(t.d, q), "B04/matrix transpose");
		btensor z = t.b;
		z.t_();
		is(z, reorder(t.l, q), reorder(t.d, q), "B04/matrix transpose");
		is(t.b, t, "B04/source kept");
	}
}
// ---------------------------------------------------------------- B05
static IL pick_dims(size_t r, size_t k)
{
	IL o, left;
	for (size_t d = 0; d < r; ++d) left.push_back(d);
	while (o.size() < k)
	{
		size_t x = sym_choose("contracted", left.size());
		o.push_back(left[x]);
		left.erase(left.begin() + x);
	}
	return o;
}
static bool has(const IL &v, int64_t x) { return std::find(v.begin(), v.end(), x) != v.end(); }
static IL others(size_t r, const IL &c)
{
	IL o;
	for (size_t d = 0; d < r; ++d)
		if (!has(c, d)) o.push_back(d);
	return o;
}
static D contract_dense(const D &x, const D &y, const IL &cx, const IL &cy)
{
	IL ox = others(x.n.size(), cx), oy = others(y.n.size(), cy), n, m;
	for (auto d : ox) n.push_back(x.n[d]);
	for (auto d : oy) n.push_back(y.n[d]);
	for (auto d : cx) m.push_back(x.n[d]);
	D o(n);
	each(n, [&](const IL &i) {
		double s = 0;
		each(m, [&](const IL &j) {
			IL ix(x.n.size()), iy(y.n.size());
			for (size_t k = 0; k < ox.size(); ++k) ix[ox[k]] = i[k];
			for (size_t k = 0; k < oy.size(); ++k) iy[oy[k]] = i[ox.size() + k];
			for (size_t k = 0; k < cx.size(); ++k) ix[cx[k]] = iy[cy[k]] = j[k];
			s = s + x.at(ix) * y.at(iy);
		});
		o.at(i) = s;
	});
	return o;
}
// a0: left layout, a1: rank of the right one, a2: number of contracted dimensions + 10*fill, a3: group
ENTRY(b05_tensordot)
{
	UNUSED_ARGS;
	int k = a2 % 10, fill = a2 / 10;
	Lay x = mklay(a3, geo(a0)), y;
	IL cx = pick_dims(x.rank(), k), cy = pick_dims(a1, k);
	y.sel = mkq(a3, "rule2");
	for (int d = 0; d < a1; ++d)
	{
		auto it = std::find(cy.begin(), cy.end(), d);
		y.q.emplace_back();
		if (it != cy.end())
		{
			int64_t s = cx[it - cy.begin()];
			y.sz.push_back(x.sz[s]);
			for (auto &q : x.q[s]) y.q.back().push_back(q.inverse());
		}
		else
		{
			y.sz.push_back(IL{1, 2});
			y.q.back().push_back(mkq(a3, "label2"));
			y.q.back().push_back(mkq(a3, "label2"));
		}
	}
	T l = mkT(x, fill, false, "x"), r = mkT(y, fill, true, "y");
	btensor o = sym_choose("form", 2) ? tensordot(l.b, r.b, cx, cy) : l.b.tensordot(r.b, cx, cy);
	Lay e;
	e.sel = x.sel * y.sel;
	for (auto d : others(x.rank(), cx)) e.sz.push_back(x.sz[d]), e.q.push_back(x.q[d]);
	for (auto d : others(y.rank(), cy)) e.sz.push_back(y.sz[d]), e.q.push_back(y.q[d]);
	is(o, e, contract_dense(l.d, r.d, cx, cy), "B05/contraction");
	is(l.b, l, "B05/left operand kept");
	is(r.b, r, "B05/right operand kept");
	if (e.rank() == 0) sym_same(o.item().toDouble(), contract_dense(l.d, r.d, cx, cy).v[0], "B05/full contraction as a number");
}
// arbitrary pairs: accepted exactly when the contracted dimensions match
ENTRY(b05_compat)
{
	UNUSED_ARGS;
	Lay x = mklay(a2, geo(a0)), y = mklay(a2, geo(a1));
	int64_t dx = sym_choose("dim", x.rank()), dy = sym_choose("dim", y.rank());
	int how = sym_choose("make similar", 3);
	if (how >= 1) // same number of sections and sizes, labels differ in one place at most
	{
		y.sz[dy] = x.sz[dx];
		y.q[dy].clear();
		for (auto &q : x.q[dx]) y.q[dy].push_back(q.inverse());
		int64_t s = sym_choose("section", y.q[dy].size());
		if (how == 1)
			y.q[dy][s] = mkq(a2, "changed");
		else
			y.sz[dy][s] += sym_choose("larger", 2);
	}
	bool ok = x.sz[dx] == y.sz[dy];
	for (size_t s = 0; ok && s < x.q[dx].size(); ++s) ok = x.q[dx][s] * y.q[dy][s] == x.sel.neutral();
	T l = mkT(x, a3 ? ALL : NONE), r = mkT(y, a3 ? ALL : NONE);
	bool done = !throws([&] { (void)l.b.tensordot(r.b, {dx}, {dy}); });
	sym_check(done == ok, "B05/contraction accepted exactly when the dimensions match");
	sym_check(throws([&] { (void)l.b.tensordot(r.b, {dx}, {}); }), "B05/unequal numbers of dimensions rejected");
	is(l.b, l, "B05/left operand kept");
	is(r.b, r, "B05/right operand kept");
}
// ---------------------------------------------------------------- B07
// groups of neighbouring dimensions given by the first dimension of each group but the first
static Lay grouped(const Lay &l, const IL &g)
{
	Lay o;
	o.sel = l.sel;
	IL b{0};
	b.insert(b.end(), g.begin(), g.end());
	b.push_back(l.rank());
	for (size_t k = 0; k + 1 < b.size(); ++k)
	{
		IL n;
		for (int64_t d = b[k]; d < b[k + 1]; ++d) n.push_back(l.sz[d].size());
		o.sz.emplace_back();
		o.q.emplace_back();
		each(n, [&](const IL &s) {
			int64_t z = 1;
			any_quantity q = l.sel.neutral();
			for (size_t d = 0; d < s.size(); ++d) z *= l.sz[b[k] + d][s[d]], q *= l.q[b[k] + d][s[d]];
			o.sz.back().push_back(z);
			o.q.back().push_back(q);
		});
	}
	return o;
}
// dense content of the grouped layout: position from section and offset of each dimension, row major in each group
static D grouped(const Lay &l, const Lay &o, const D &d, const IL &g)
{
	D r(o.sizes());
	IL b{0};
	b.insert(b.end(), g.begin(), g.end());
	b.push_back(l.rank());
	each(l.secs(), [&](const IL &s) {
		each(l.bsize(s), [&](const IL &i) {
			IL src, dst;
			for (size_t k = 0; k < i.size(); ++k) src.push_back(l.start(k, s[k]) + i[k]);
			for (size_t k = 0; k + 1 < b.size(); ++k)
			{
				int64_t sec = 0, off = 0;
				for (int64_t e = b[k]; e < b[k + 1]; ++e) sec = sec * l.sz[e].size() + s[e], off = off * l.sz[e][s[e]] + i[e];
				dst.push_back(o.start(k, sec) + off);
			}
			r.at(dst) = d.at(src);
		});
	});
	return r;
}
static IL pick_groups(size_t r)
{
	IL g;
	for (size_t d = 1; d < r; ++d)
		if (sym_choose("split", 2)) g.push_back(d);
	return g;
}
ENTRY(b07_join)
{
	UNUSED_ARGS;
	T t = mkT(mklay(a1, geo(a0)), SOME, a2 == 1);
	IL g = pick_groups(t.l.rank());
	btensor o = t.b.reshape(g);
	Lay l = grouped(t.l, g);
	D d = grouped(t.l, l, t.d, g);
	is(o, l, d, "B07/joined tensor");
	is(t.b, t, "B07/source kept");
	sym_check(o.blocks().size() == t.b.blocks().size(), "B07/same number of blocks");
	// back
	btensor back = o.reshape_as(t.l.shape());
	is(back, t, "B07/splitting restores");
	is(o, l, d, "B07/source kept");
	is(o.reshape_as<reshape_mode::overwrite_c_vals>(t.l.shape()), t, "B07/splitting restores");
	// joining through a template
	is(t.b.reshape_as(l.shape()), l, d, "B07/joined onto a template");
	is(t.b, t, "B07/source kept");
}
// from one grouping to another of a common refinement
ENTRY(b07_regroup)
{
	UNUSED_ARGS;
	T t = mkT(mklay(a1, geo(a0)), SOME);
	IL g = pick_groups(t.l.rank()), h = pick_groups(t.l.rank());
	Lay lg = grouped(t.l, g), lh = grouped(t.l, h);
	btensor x = t.b.reshape(g);
	is(x.reshape_as(lh.shape()), lh, grouped(t.l, lh, t.d, h), "B07/regrouped");
}
// templates with other labels: accepted exactly when the law can be kept
ENTRY(b07_template)
{
	UNUSED_ARGS;
	T t = mkT(mklay(a1, geo(a0)), SOME);
	Lay o = mklay(a1, geo(a0));
	if (a3) o.sz[0][0] += sym_choose("larger", 2);
	bool sizes = o.sz == t.l.sz, flux = true, law = true;
	each(o.secs(), [&](const IL &b) {
		any_quantity x = o.sel.neutral(), y = x;
		for (size_t d = 0; d < b.size(); ++d) x *= o.q[d][b[d]], y *= t.l.q[d][b[d]];
		flux = flux && x == y;
		if (t.b.blocks().contains(b) && !(x == o.sel)) law = false;
	});
	btensor r;
	if (a2 == 0)
	{
		bool ok = !throws([&] { r = t.b.reshape_as(o.shape()); });
		sym_check(ok == (sizes && flux), "B07/template with other labels accepted exactly when every block keeps its label product");
		if (ok && sizes && flux)
		{
			Lay e = o;
			e.sel = t.l.sel;
			is(r, e, t.d, "B07/labels taken from the template");
		}
	}
	else
	{
		bool ok = !throws([&] { r = t.b.reshape_as<reshape_mode::overwrite_c_vals>(o.shape()); });
		sym_check(ok == (sizes && law), "B07/overwriting template accepted exactly when the blocks obey it");
		if (ok && sizes && law) is(r, o, t.d, "B07/labels and rule taken from the template");
	}
	is(t.b, t, "B07/source kept");
}
// an arbitrary value that is not negligible
static double big(const char *name)
{
	double v = sym_real(name);
	sym_assume(v >= 1);
	return v;
}
// ---------------------------------------------------------------- B09
// a2: 0 view, 1 view keeping the rank, 2 assign a block tensor, 3 assign a dense tensor
ENTRY(b09_slice)
{
	UNUSED_ARGS;
	T t = mkT(mklay(a1, geo(a0)), SOME, a3 == 1);
	IL n = t.l.sizes(), dims;
	bool ok = true;
	for (size_t d = 0; d < t.l.rank(); ++d)
	{
		int64_t lo = a2 == 3 || a3 ? 1 : 2;
		dims.push_back(sym_choose("pos", n[d] + 1 + lo) - lo); // one or two below to one past the range
		ok = ok && dims[d] < n[d] && dims[d] >= -1;
	}
	Lay e, keep;
	e.sel = keep.sel = t.l.sel;
	IL secs;
	if (ok)
		for (size_t d = 0; d < t.l.rank(); ++d)
		{
			if (dims[d] < 0)
			{
				e.sz.push_back(t.l.sz[d]), e.q.push_back(t.l.q[d]);
				keep.sz.push_back(t.l.sz[d]), keep.q.push_back(t.l.q[d]);
				secs.push_back(-1);
				continue;
			}
			size_t s = 0;
			int64_t p = dims[d];
			while (p >= t.l.sz[d][s]) p -= t.l.sz[d][s++];
			e.sel *= t.l.q[d][s].inverse();
			keep.sz.push_back({1}), keep.q.push_back({t.l.q[d][s]});
			secs.push_back(s);
		}
	// full position of a position in the slice
	auto full = [&](const IL &i) {
		IL f = dims;
		size_t k = 0;
		for (auto &x : f)
			if (x < 0) x = i[k++];
		return f;
	};
	if (a2 <= 1)
	{
		btensor r;
		bool done = !throws([&] { r = t.b.basic_create_view(dims, a2 == 1); });
		sym_check(done == ok, "B09/view rejected exactly when out of range");
		is(t.b, t, "B09/source kept by a view");
		if (!done || !ok) return;
		D s(e.sizes());
		each(s.n, [&](const IL &i) { s.at(i) = t.d.at(full(i)); });
		if (a2 == 0)
			is(r, e, s, "B09/view");
		else
		{
			s.n = keep.sizes();
			is(r, keep, s, "B09/view keeping the rank");
		}
		return;
	}
	if (!ok)
	{
		if (a2 == 2)
			sym_check(throws([&] { t.b.basic_index_put_(dims, t.b); }), "B09/assignment out of range rejected");
		else
			sym_check(throws([&] { t.b.basic_index_put_(dims, torch::zeros(IL{})); }), "B09/assignment out of range rejected");
		is(t.b, t, "B09/rejected assignment leaves the tensor as it was");
		return;
	}
	if (a2 == 2)
	{
		T v = mkT(e, SOME, false, "v");
		t.b.basic_index_put_(dims, v.b);
		each(v.d.n, [&](const IL &i) { t.d.at(full(i)) = v.d.at(i); });
		is(t.b, t, "B09/tensor after assigning a slice");
		is(v.b, v, "B09/assigned value kept");
	}
	else
	{
		D v(e.sizes());
		for (auto &x : v.v) x = sym_choose("zero", 2) ? 0. : big("v");
		torch::Tensor s = to_torch(v);
		// elements not allowed by the law are dropped
		t.b.basic_index_put_(dims, s);
		each(v.n, [&](const IL &i) {
			IL f = full(i), b(f.size());
			for (size_t d = 0; d < f.size(); ++d)
				while (f[d] >= t.l.start(d, b[d] + 1)) ++b[d];
			if (t.l.allowed(b)) t.d.at(f) = v.at(i);
		});
		is(t.b, t, "B09/tensor after assigning a dense slice");
		same(from_torch(s), v, "B09/assigned value kept");
	}
}
// values whose layout or rule does not fit are rejected
ENTRY(b09_reject)
{
	UNUSED_ARGS;
	T t = mkT(mklay(a1, geo(a0)), SOME);
	IL dims;
	Lay e;
	e.sel = t.l.sel;
	for (size_t d = 0; d < t.l.rank(); ++d)
		if (d == 0)
		{
			dims.push_back(0);
			size_t s = 0;
			while (t.l.sz[0][s] == 0) ++s;
			e.sel *= t.l.q[0][s].inverse();
		}
		else
		{
			dims.push_back(-1);
			e.sz.push_back(t.l.sz[d]), e.q.push_back(t.l.q[d]);
		}
	switch (sym_choose("misfit", e.rank() ? 5 : 1))
	{
	case 0:
		e.sel = mkq(a1, "other rule");
		if (e.sel == any_quantity(t.b.shape_from(dims).selection_rule)) return;
		break;
	case 1:
	{
		any_quantity q = mkq(a1, "other label");
		if (q == e.q[0][0]) return;
		e.q[0][0] = q;
		break;
	}
	case 2: e.sz[0][0] += 1; break;
	case 3: // one more dimension of rank
		e.sz.push_back({1}), e.q.push_back({e.sel.neutral()});
		break;
	case 4: // same sections split differently between dimensions
		if (e.rank() < 2) return;
		e.sz[0].push_back(e.sz[1][0]), e.q[0].push_back(e.q[1][0]);
		e.sz[1].erase(e.sz[1].begin()), e.q[1].erase(e.q[1].begin());
		break;
	}
	T v = mkT(e, ALL, false, "v");
	sym_check(throws([&] { t.b.basic_index_put_(dims, v.b); }), "B09/value of another shape rejected");
	is(t.b, t, "B09/rejected assignment leaves the tensor as it was");
}
// ---------------------------------------------------------------- T01
// x with its dimensions of size one repeated to the size of the matching dimensions of y
static D widened(const D &x, const IL &cx, const D &y, const IL &cy)
{
	IL n = x.n;
	for (size_t k = 0; k < cx.size(); ++k)
		if (n[cx[k]] == 1) n[cx[k]] = y.n[cy[k]];
	D o(n);
	each(n, [&](const IL &i) {
		IL j = i;
		for (size_t d = 0; d < j.size(); ++d)
			if (x.n[d] == 1) j[d] = 0;
		o.at(i) = x.at(j);
	});
	return o;
}
// a0: rank of the left tensor, a1: rank of the right, a2: contracted, a3: 0 contiguous 1 transposed operands
ENTRY(t01_accumulate)
{
	UNUSED_ARGS;
	static const int64_t left_size[] = {2, 3, 2, 1}, right_size[] = {3, 2, 1, 2};
	IL nx(left_size, left_size + a0), ny(right_size, right_size + a1);
	IL cx = pick_dims(a0, a2), cy = pick_dims(a1, a2);
	bool broadcast = false;
	for (int k = 0; k < a2; ++k)
	{
		ny[cy[k]] = nx[cx[k]];
		int one = sym_choose("size one on a side", 3); // summed with every element of the other side
		if (one == 1) nx[cx[k]] = 1;
		if (one == 2) ny[cy[k]] = 1;
		broadcast = broadcast || nx[cx[k]] != ny[cy[k]];
	}
	D x = sym_dense(nx, "x"), y = sym_dense(ny, "y");
	D p = contract_dense(widened(x, cx, y, cy), widened(y, cy, x, cx), cx, cy), c = sym_dense(p.n, "c");
	torch::Tensor tx = to_torch(x, a3), ty = to_torch(y, a3), tc = to_torch(c, a3);
	double beta = sym_real("beta"), alpha = sym_real("alpha");
	D e = c;
	for (size_t k = 0; k < e.v.size(); ++k) e.v[k] = beta * c.v[k] + alpha * p.v[k];
	int form = sym_choose("form", 5);
	switch (form)
	{
	case 0:
		same(from_torch(tensorgdot(tc, tx, ty, cx, cy, beta, alpha)), e, "T01/accumulating contraction");
		same(from_torch(tc), c, "T01/added tensor kept");
		break;
	case 1:
	{
		torch::Tensor &r = tensorgdot_(tc, tx, ty, cx, cy, beta, alpha);
		same(from_torch(tc), e, "T01/in place accumulating contraction");
		sym_check(&r == &tc, "T01/in place form returns its argument");
		break;
	}
	case 2:
	{
		torch::Tensor out = to_torch(sym_dense(p.n, "old"), a3);
		tensorgdot_out(out, tc, tx, ty, cx, cy, beta, alpha);
		same(from_torch(out), e, "T01/accumulating contraction into another tensor");
		same(from_torch(tc), c, "T01/added tensor kept");
		break;
	}
	case 3:
		for (size_t k = 0; k < e.v.size(); ++k) e.v[k] = c.v[k] + p.v[k];
		same(from_torch(tensorgdot(tc, tx, ty, cx, cy)), e, "T01/unit factors by default");
		break;
	case 4: // neighbouring dimensions
	{
		for (int k = 0; k < a2; ++k)
			if (cx[k] != a0 - a2 + k || cy[k] != k) return;
		if (broadcast) return;
		tensorgdot_(tc, tx, ty, a2, beta, alpha);
		same(from_torch(tc), e, "T01/accumulating contraction of neighbouring dimensions");
		break;
	}
	}
	same(from_torch(tx), x, "T01/left operand kept");
	same(from_torch(ty), y, "T01/right operand kept");
}
// size mismatches are rejected
ENTRY(t01_reject)
{
	UNUSED_ARGS;
	IL n{(int64_t)sym_choose("size", 3) + 2, 2}, m{(int64_t)sym_choose("size", 3) + 2, 3}, c{(int64_t)sym_choose("size", 3) + 1, 3};
	torch::Tensor x = to_torch(sym_dense(n, "x")), y = to_torch(sym_dense(m, "y"));
	D dc = sym_dense(c, "c");
	torch::Tensor t = to_torch(dc), t2 = t.clone(), t3 = to_torch(sym_dense({2, 3}, "o"));
	bool ok = n[0] == m[0] && c[0] == 2;
	sym_check(throws([&] { (void)tensorgdot(t, x, y, {0}, {0}); }) == !ok, "T01/mismatch rejected");
	sym_check(throws([&] { (void)tensorgdot_out(t3, t, x, y, {0}, {0}); }) == !ok, "T01/mismatch rejected");
	sym_check(throws([&] { (void)tensorgdot_(t2, x, y, IL{0}, IL{0}); }) == !ok, "T01/mismatch rejected");
	if (!ok) same(from_torch(t2), dc, "T01/rejected operation changes nothing");
	torch::Tensor xt = x.permute({1, 0}), t4 = t.clone();
	sym_check(throws([&] { (void)tensorgdot_(t4, xt, y, 1); }) == !ok, "T01/mismatch rejected");
	if (!ok) same(from_torch(t4), dc, "T01/rejected operation changes nothing");
	sym_check(throws([&] { (void)tensorgdot(t, x, y, {0}, {}); }), "T01/unequal numbers of dimensions rejected");
}
