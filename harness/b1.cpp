// B01 conservation of blocks, B02 coordinates, B03 dense conversion, B10 shape algebra, B14 constructors
#include "b.h"
static IL pick_index(const IL &secs, bool out_of_range)
{
	IL b;
	for (auto s : secs) b.push_back(out_of_range ? sym_choose("index", s + 2) - 1 : sym_choose("index", s));
	return b;
}
static bool in_range(const IL &b, const IL &secs)
{
	if (b.size() != secs.size()) return false;
	for (size_t d = 0; d < b.size(); ++d)
		if (b[d] < 0 || b[d] >= secs[d]) return false;
	return true;
}
static bool has_block(const btensor &b, const IL &k) { return b.blocks().contains(k); }
// ---------------------------------------------------------------- B01
ENTRY(b01_block)
{
	UNUSED_ARGS;
	T t = mkT(mklay(a1, geo(a0)), SOME);
	valid(t.b, "B01/built tensor valid");
	IL k = pick_index(t.l.secs(), true);
	int w = sym_choose("rank change", 3);
	if (w == 1) k.push_back(0);
	if (w == 2)
	{
		if (k.empty()) return;
		k.pop_back();
	}
	bool expect = in_range(k, t.l.secs()) && t.l.allowed(k);
	size_t n = t.b.blocks().size();
	bool present = expect && has_block(t.b, k);
	bool at_ok = !throws([&] { (void)t.b.block_at(k); });
	sym_check(at_ok == present, "B01/access to an absent block rejected, to a present one accepted");
	bool ok = !throws([&] { (void)t.b.block(k); });
	sym_check(ok == expect, "B01/block accepted exactly when the law allows it");
	if (!ok)
	{
		sym_check(t.b.blocks().size() == n, "B01/rejected access leaves the tensor unchanged");
		is(t.b, t, "B01/rejected access leaves the tensor unchanged");
		return;
	}
	if (!expect) return;
	sym_check(t.b.blocks().size() == n + !present, "B01/block created once");
	if (present)
		is(t.b, t, "B01/access leaves the tensor unchanged");
	else
	{
		D blk = sym_dense(t.l.bsize(k), "new");
		t.b.block(k) = to_torch(blk);
		each(blk.n, [&](const IL &i) {
			IL g;
			for (size_t d = 0; d < i.size(); ++d) g.push_back(t.l.start(d, k[d]) + i[d]);
			t.d.at(g) = blk.at(i);
		});
		is(t.b, t, "B01/created block holds what is stored");
		same(from_torch(t.b.block_at(k)), blk, "B01/created block holds what is stored");
	}
}
ENTRY(b01_rule)
{
	UNUSED_ARGS;
	Lay l = mklay(a1, geo(a0));
	btensor s = l.shape();
	size_t n = 0;
	each(l.secs(), [&](const IL &k) {
		bool e = l.allowed(k);
		n += e;
		sym_check(s.block_conservation_rule_test(k) == e, "B01/conservation test of a block");
	});
	sym_check(btensor::btensor_compute_max_size(s) == n, "B01/number of allowed blocks");
}
// raw construction: accepted exactly when the block is valid
ENTRY(b01_check)
{
	UNUSED_ARGS;
	Lay l = mklay(a1, geo(a0));
	btensor s = l.shape();
	// an arbitrary index, in range or not, and at most one other defect
	IL k = pick_index(l.secs(), true), n;
	for (size_t d = 0; d < l.rank(); ++d) n.push_back(k[d] >= 0 && k[d] < (int64_t)l.sz[d].size() ? l.sz[d][k[d]] : 1);
	int w = sym_choose("defect", 4);
	int d = l.rank() ? sym_choose("dim", l.rank()) : 0;
	if (w == 1) k.push_back(0);
	if (w == 2) n.push_back(1);
	if (w == 3 && l.rank()) n[d] += sym_choose("larger", 2) ? 1 : -1;
	bool expect = in_range(k, l.secs()) && n.size() == l.rank() && n == l.bsize(k) && l.allowed(k);
	btensor::block_list_t blocks;
	blocks.insert({k, torch::zeros(n)});
	any_quantity_vector cv = s.get_cvals();
	IL ss;
	for (auto &x : l.sz)
		for (auto y : x) ss.push_back(y);
	bool ok = !throws([&] { btensor b(l.rank(), blocks, l.secs(), ss, cv, l.sel); });
	sym_check(ok == expect, "B01/raw construction accepted exactly for valid tensors");
}
// ---------------------------------------------------------------- B02
// a0 selects the section counts; every section size and element position is a solver variable
ENTRY(b02_coordinates)
{
	UNUSED_ARGS;
	std::vector<IL> g = geo(a0);
	for (auto &s : g)
		for (auto &x : s) x = sym_int("size", 0, 1000);
	Lay l = mklay(a1, g);
	btensor b = l.shape();
	labels(b, l, "B02/sizes and labels are those given");
	IL n = b.sizes();
	IL e, e2;
	for (size_t d = 0; d < l.rank(); ++d)
	{
		e.push_back(sym_int("pos", 0, 3000));
		if (a2) e2.push_back(sym_int("pos", 0, 3000));
		if (e[d] >= n[d] || (a2 && e2[d] >= n[d])) return;
	}
	auto [blk, off] = b.element_index_decompose(e);
	sym_check(blk.size() == l.rank() && off.size() == l.rank(), "B02/rank of the decomposition");
	for (size_t d = 0; d < l.rank(); ++d)
	{
		bool in = blk[d] >= 0 && blk[d] < (int64_t)l.sz[d].size();
		sym_check(in, "B02/section in range");
		if (!in) return;
		blk[d] = sym_concretize(blk[d]);
		sym_check(off[d] >= 0 && off[d] < l.sz[d][blk[d]], "B02/offset in range");
		sym_check(l.start(d, blk[d]) + off[d] == e[d], "B02/position recomposes");
		sym_check(any_quantity(b.element_conserved_qtt(d, e[d])) == l.q[d][blk[d]], "B02/label of an element");
		sym_check((int64_t)b.section_size(d, blk[d]) == l.sz[d][blk[d]], "B02/size of a section");
		sym_check(any_quantity(b.section_conserved_qtt(d, blk[d])) == l.q[d][blk[d]], "B02/label of a section");
		auto [ss, sq] = b.section_size_cqtt(d, blk[d]);
		sym_check((int64_t)ss == l.sz[d][blk[d]] && any_quantity(sq) == l.q[d][blk[d]], "B02/size and label of a section");
		sym_check(b.section_number(d) == l.sz[d].size(), "B02/number of sections");
	}
	// injective
	if (a2)
	{
	auto [blk2, off2] = b.element_index_decompose(e2);
	sym_check((blk2 == blk && off2 == off) == (e == e2), "B02/decomposition is one to one");
	return;
	}
	size_t d = 0;
	for (const auto &x : b.block_sizes(blk)) sym_check(d < l.rank() && x == l.sz[d][blk[d]], "B02/block sizes"), ++d;
	sym_check(d == l.rank(), "B02/block sizes cover the rank");
	d = 0;
	for (const auto &x : b.block_quantities(blk)) sym_check(d < l.rank() && any_quantity(x) == l.q[d][blk[d]], "B02/block labels"), ++d;
	sym_check(d == l.rank(), "B02/block labels cover the rank");
}
ENTRY(b02_ranges)
{
	UNUSED_ARGS;
	Lay l = mklay(a1, geo(a0));
	btensor b = l.shape();
	IL n = l.sizes();
	for (size_t d = 0; d < l.rank(); ++d)
	{
		auto [s0, s1] = b.section_sizes(d);
		sym_check(IL(s0, s1) == l.sz[d], "B02/section sizes of a dimension");
		auto [q0, q1] = std::as_const(b).section_conserved_qtt_range(d);
		auto [c0, c1] = b.section_cqtts(d);
		auto [e0, e1, e2, e3] = b.section_sizes_cqtts(d);
		sym_check(IL(e0, e1) == l.sz[d], "B02/section sizes of a dimension");
		sym_check(q1 - q0 == (int64_t)l.q[d].size() && c1 - c0 == q1 - q0 && e3 - e2 == q1 - q0, "B02/number of labels of a dimension");
		for (size_t k = 0; k < l.q[d].size(); ++k, ++q0, ++c0, ++e2)
			sym_check(any_quantity(*q0) == l.q[d][k] && any_quantity(*c0) == l.q[d][k] && any_quantity(*e2) == l.q[d][k], "B02/labels of a dimension");
		int64_t past = n[d] + sym_int("past", 0, 100000);
		sym_check(throws([&] { (void)b.element_conserved_qtt(d, past); }), "B02/element out of range rejected");
		size_t k = l.sz[d].size() + sym_choose("past", 2);
		sym_check(throws([&] { (void)b.section_size(d, k); }), "B02/section out of range rejected");
		sym_check(throws([&] { (void)b.section_conserved_qtt(d, k); }), "B02/section out of range rejected");
		sym_check(throws([&] { (void)b.section_size_cqtt(d, k); }), "B02/section out of range rejected");
	}
	sym_check(throws([&] { (void)std::as_const(b).section_conserved_qtt_range(l.rank()); }), "B02/dimension out of range rejected");
	sym_check(throws([&] { (void)b.section_size(l.rank(), 0); }), "B02/dimension out of range rejected");
	sym_check(throws([&] { (void)b.section_conserved_qtt(l.rank() + 1, 0); }), "B02/dimension out of range rejected");
	// the block increment visits each block once, starting over at the end
	IL k(l.rank(), 0), z = k;
	std::vector<IL> seen;
	int64_t tot = 1;
	for (auto s : l.secs()) tot *= s;
	for (int64_t i = 0; i < tot; ++i)
	{
		sym_check(in_range(k, l.secs()), "B02/block increment in range");
		bool fresh = true;
		for (auto &x : seen) fresh = fresh && x != k;
		sym_check(fresh, "B02/block increment visits each block once");
		seen.push_back(k);
		b.block_increment(k);
	}
	sym_check(k == z, "B02/block increment starts over");
	// increments of element positions, both orders
	for (int left = 0; left < 2; ++left)
	{
		if (empty_range(n)) break;
		IL i(l.rank(), 0);
		each(n, [&](const IL &e) {
			IL x = i;
			if (left) std::reverse(x.begin(), x.end());
			if (!left) sym_check(x == e, "B02/position increment order");
			IL nn = n;
			(void)nn;
			if (left)
				increment_index_left(i, n, l.rank());
			else
				increment_index_right(i, n, l.rank());
		});
		sym_check(i == IL(l.rank(), 0), "B02/position increment starts over");
	}
}
// ---------------------------------------------------------------- B03
ENTRY(b03_to_dense)
{
	UNUSED_ARGS;
	T t = mkT(mklay(a1, geo(a0)), SOME, a2 == 1);
	torch::Tensor d = t.b.to_dense();
	same(from_torch(d), t.d, "B03/dense form");
	is(t.b, t, "B03/source unchanged");
	btensor r = a3 ? from_basic_tensor(t.l.spec(), t.l.sel, d) : from_basic_tensor_like(t.l.shape(), d);
	valid(r, "B03/block form valid");
	labels(r, t.l, "B03/block form labels");
	// blocks at or below the cutoff may be dropped: compare where kept
	each(t.l.secs(), [&](const IL &k) {
		if (!t.l.allowed(k))
		{
			sym_check(!has_block(r, k), "B03/only allowed blocks");
			return;
		}
		D blk(t.l.bsize(k));
		bool small = true;
		each(blk.n, [&](const IL &i) {
			IL g;
			for (size_t q = 0; q < i.size(); ++q) g.push_back(t.l.start(q, k[q]) + i[q]);
			blk.at(i) = t.d.at(g);
		});
		if (has_block(r, k))
			same(from_torch(r.block_at(k)), blk, "B03/round trip");
		else
			for (double x : blk.v) sym_check(x <= 1e-15 && x >= -1e-15, "B03/only negligible blocks dropped");
		(void)small;
	});
	// independent of the dense tensor it was built from?  the values stay when the source is untouched
	same(from_torch(d), t.d, "B03/dense source unchanged");
}
// an arbitrary dense tensor: forbidden elements are dropped, allowed ones kept
ENTRY(b03_from_dense)
{
	UNUSED_ARGS;
	Lay l = mklay(a1, geo(a0));
	D d = sym_dense(l.sizes(), "x");
	torch::Tensor s = to_torch(d, a2 == 1);
	btensor r = from_basic_tensor_like(l.shape(), s, a3 ? torch::Scalar(-1.) : torch::Scalar(1e-16));
	valid(r, "B03/block form valid");
	labels(r, l, "B03/block form labels");
	each(l.secs(), [&](const IL &k) {
		bool has = has_block(r, k);
		if (!l.allowed(k))
		{
			sym_check(!has, "B03/only allowed blocks");
			return;
		}
		if (a3) sym_check(has, "B03/every allowed block kept with a negative cutoff");
		D blk(l.bsize(k));
		each(blk.n, [&](const IL &i) {
			IL g;
			for (size_t q = 0; q < i.size(); ++q) g.push_back(l.start(q, k[q]) + i[q]);
			blk.at(i) = d.at(g);
		});
		if (has)
			same(from_torch(r.block_at(k)), blk, "B03/allowed elements kept");
		else
			for (double x : blk.v) sym_check(x <= 1e-15 && x >= -1e-15, "B03/only negligible blocks dropped");
	});
	sym_check(throws([&] {
		          IL n = l.sizes();
		          n.push_back(1);
		          (void)from_basic_tensor_like(l.shape(), torch::zeros(n));
	          }),
	          "B03/rank mismatch rejected");
}
// selection rule of a matrix
ENTRY(b03_rule)
{
	UNUSED_ARGS;
	Lay l = mklay(a1, geo(a0));
	D d(l.sizes());
	for (auto &x : d.v) x = sym_choose("nonzero", 2) ? 1. + sym_choose("v", 1) : 0.;
	torch::Tensor s = to_torch(d);
	bool any = false, clash = false;
	any_quantity rule = l.sel.neutral();
	each(l.secs(), [&](const IL &k) {
		D blk(l.bsize(k));
		bool nz = false;
		each(blk.n, [&](const IL &i) {
			IL g{l.start(0, k[0]) + i[0], l.start(1, k[1]) + i[1]};
			nz = nz || d.at(g) != 0;
		});
		if (!nz) return;
		any_quantity q = l.q[0][k[0]] * l.q[1][k[1]];
		if (any && q != rule) clash = true;
		if (!any) rule = q;
		any = true;
	});
	bool ok = true;
	any_quantity r = l.sel.neutral();
	ok = !throws([&] { r = find_selection_rule(s, l.shape()); });
	sym_check(ok == !clash, "B03/selection rule found exactly when there is one");
	if (ok && !clash) sym_check(r == rule, "B03/selection rule of a matrix");
}
// ---------------------------------------------------------------- B14
ENTRY(b14_filled)
{
	UNUSED_ARGS;
	Lay l = mklay(a1, geo(a0));
	T like = mkT(l, SOME);
	int how = sym_choose("constructor", 13);
	double v = sym_real("fill");
	minitorch::symbolic_random = true;
	btensor b;
	double want = 0;
	bool exact = true;
	switch (how)
	{
	case 0: b = zeros(l.spec(), l.sel); break;
	case 1: b = zeros_like(like.b); break;
	case 2: b = ones(l.spec(), l.sel), want = 1; break;
	case 3: b = ones_like(like.b), want = 1; break;
	case 4: b = full(l.spec(), l.sel, v), want = v; break;
	case 5: b = full_like(like.b, v), want = v; break;
	case 6: b = empty(l.spec(), l.sel), exact = false; break;
	case 7: b = empty_like(like.b), exact = false; break;
	case 8: b = rand(l.spec(), l.sel), exact = false; break;
	case 9: b = rand_like(like.b), exact = false; break;
	case 10: b = randn(l.spec(), l.sel), exact = false; break;
	case 11: b = randn_like(like.b), exact = false; break;
	case 12: b = sparse_zeros_like(like.b); break;
	}
	valid(b, "B14/valid");
	labels(b, l, "B14/labels");
	is(like.b, like, "B14/model tensor unchanged");
	each(l.secs(), [&](const IL &k) {
		bool has = has_block(b, k);
		sym_check(has == (how != 12 && l.allowed(k)), "B14/exactly the allowed blocks");
		if (!has) return;
		auto &t = b.block_at(k);
		sym_check(tsizes(t) == l.bsize(k), "B14/block sizes");
		each(tsizes(t), [&](const IL &i) {
			if (exact) sym_same(el(t, i), want, "B14/value");
			if (how == 8 || how == 9) sym_check(el(t, i) >= 0 && el(t, i) <= 1, "B14/uniform random values in range");
		});
	});
}
ENTRY(b14_randint)
{
	UNUSED_ARGS;
	Lay l = mklay(a1, geo(a0));
	btensor m = l.shape(), b;
	int lo = -2, hi = 3;
	switch (sym_choose("form", 6))
	{
	case 0: b = randint(lo, hi, l.spec(), l.sel); break;
	case 1: b = randint(l.spec(), l.sel, lo, hi); break;
	case 2: b = randint_like(lo, hi, m); break;
	case 3: b = randint_like(m, lo, hi); break;
	case 4: b = randint_like(hi, m), lo = 0; break;
	case 5: b = randint(hi, l.spec(), l.sel), lo = 0; break;
	}
	valid(b, "B14/valid");
	labels(b, l, "B14/labels");
	each(l.secs(), [&](const IL &k) {
		bool has = has_block(b, k);
		sym_check(has == l.allowed(k), "B14/exactly the allowed blocks");
		if (has) each(l.bsize(k), [&](const IL &i) { sym_check(el(b.block_at(k), i) >= lo && el(b.block_at(k), i) < hi, "B14/random integers in range"); });
	});
}
ENTRY(b14_eye)
{
	UNUSED_ARGS;
	// square section layout, arbitrary labels
	Lay l = mklay(a1, {geo(a0)[0], geo(a0)[0]});
	btensor e;
	if (a2 == 0)
	{
		// more sections on one side
		int longer = sym_choose("longer side", 3);
		if (longer) l.sz[longer - 1].push_back(2), l.q[longer - 1].push_back(mkq(a1, "label"));
		e = eye_like(mkT(l, SOME).b);
	}
	else
	{
		// from the row labels: the columns get the inverse labels and the rule is neutral
		for (size_t k = 0; k < l.q[0].size(); ++k) l.q[1][k] = l.q[0][k].inverse();
		l.sel = l.sel.neutral();
		Lay r;
		r.sz = {l.sz[0]};
		r.q = {l.q[0]};
		r.sel = l.sel;
		e = a2 == 1 ? eye(r.spec()) : eye(l.spec());
	}
	valid(e, "B14/identity valid");
	labels(e, l, "B14/identity labels");
	D d(l.sizes());
	for (int64_t k = 0; k < (int64_t)std::min(l.sz[0].size(), l.sz[1].size()); ++k)
		if (l.allowed({k, k}))
			for (int64_t i = 0; i < l.sz[0][k]; ++i) d.at({l.start(0, k) + i, l.start(0, k) + i}) = 1;
	same(dense(e), d, "B14/identity is one exactly on the allowed diagonal");
}
// ---------------------------------------------------------------- B10
ENTRY(b10_product)
{
	UNUSED_ARGS;
	Lay a = mklay(a2, geo(a0)), b = mklay(a2, geo(a1)), p = a;
	for (size_t d = 0; d < b.rank(); ++d) p.sz.push_back(b.sz[d]), p.q.push_back(b.q[d]);
	p.sel = a.sel * b.sel;
	btensor sa = a.shape(), sb = b.shape();
	btensor r;
	switch (sym_choose("form", 3))
	{
	case 0: r = sa.tensor_product_shape(sb); break;
	case 1: r = shape_from(sa, sb); break;
	case 2: r = shape_from(std::vector<btensor>{sa, sb}); break;
	}
	is(r, p, D(p.sizes()), "B10/product of shapes");
	labels(sa, a, "B10/operands kept");
	labels(sb, b, "B10/operands kept");
}
ENTRY(b10_extract)
{
	UNUSED_ARGS;
	T t = mkT(mklay(a1, geo(a0)), SOME);
	IL n = t.l.sizes(), dims;
	bool ok = true;
	for (size_t d = 0; d < t.l.rank(); ++d)
	{
		dims.push_back(sym_choose("pos", n[d] + 2) - 1);
		ok = ok && dims[d] < n[d];
	}
	Lay e;
	e.sel = t.l.sel;
	if (ok)
		for (size_t d = 0; d < t.l.rank(); ++d)
		{
			if (dims[d] < 0)
			{
				e.sz.push_back(t.l.sz[d]);
				e.q.push_back(t.l.q[d]);
				continue;
			}
			size_t s = 0;
			int64_t p = dims[d];
			while (p >= t.l.sz[d][s]) p -= t.l.sz[d][s++];
			e.sel *= t.l.q[d][s].inverse();
		}
	btensor r;
	bool done = !throws([&] { r = a2 ? shape_from(t.b, dims) : t.b.shape_from(dims); });
	sym_check(done == ok, "B10/sub-shape rejected exactly when out of range");
	if (done && ok) is(r, e, D(e.sizes()), "B10/sub-shape");
	is(t.b, t, "B10/source kept");
	dims.push_back(-1);
	sym_check(throws([&] { (void)t.b.shape_from(dims); }), "B10/sub-shape of wrong rank rejected");
}
ENTRY(b10_labels)
{
	UNUSED_ARGS;
	int op = sym_choose("op", 11);
	bool empty_only = op >= 5 && op <= 9;
	T t = mkT(mklay(a1, geo(a0)), a2 ? SOME : NONE);
	if (t.l.rank() == 0 && (op == 3 || op == 4 || op == 5)) return;
	any_quantity s = mkq(a1, "shift");
	int d = t.l.rank() ? sym_choose("dim", t.l.rank()) : 0;
	Lay e = t.l;
	auto invert = [&](Lay &x) {
		for (auto &v : x.q)
			for (auto &y : v) y.inverse_();
		x.sel.inverse_();
	};
	btensor src = t.b, r;
	auto run = [&] {
		switch (op)
		{
		case 0:
			r = src.conj();
			invert(e);
			break;
		case 1:
			r = src.inverse_cvals();
			invert(e);
			break;
		case 2:
			r = src;
			inverse_cvals_(r);
			invert(e);
			break;
		case 3:
		case 4:
			for (auto &y : e.q[d]) y *= s;
			e.sel *= s;
			if (op == 3)
				r = src.cval_shift(s, d);
			else
				(r = src).cval_shift_(s, d);
			break;
		case 5:
			for (auto &y : e.q[d]) y *= s;
			(r = src).non_conserving_cval_shift_(s, d);
			break;
		case 6:
			e.sel *= s;
			(r = src).shift_selection_rule_(s);
			break;
		case 7:
			e.sel = s;
			(r = src).set_selection_rule_(s);
			break;
		case 8:
			e.sel = e.sel.neutral();
			r = sym_choose("in place", 2) ? btensor(btensor(src).neutral_selection_rule_()) : src.neutral_selection_rule();
			break;
		case 9:
			for (auto &v : e.q)
				for (auto &y : v) y = y.neutral();
			e.sel = e.sel.neutral();
			r = src.neutral_shape();
			break;
		case 10: r = src.conj_only(); break;
		}
	};
	bool ok = !throws(run);
	bool has = t.b.begin() != t.b.end();
	sym_check(ok == !(empty_only && has), "B10/label change of a filled tensor rejected exactly when it could break the law");
	if (!ok)
	{
		is(t.b, t, "B10/rejected change leaves the tensor as it was");
		return;
	}
	if (empty_only && has) return;
	is(r, e, t.d, "B10/labels and content after a label operation");
	is(t.b, t, "B10/source kept");
	// there and back
	btensor back;
	switch (op)
	{
	case 0: back = r.conj(); break;
	case 1:
	case 2: back = r.inverse_cvals(); break;
	case 3:
	case 4: back = r.cval_shift(s.inverse(), d); break;
	case 5: (back = r).non_conserving_cval_shift_(s.inverse(), d); break;
	case 6: (back = r).shift_selection_rule_(s.inverse()); break;
	default: return;
	}
	is(back, t, "B10/there and back");
}
// block_increment and friends, and copies: a copy has its own labels and block list
ENTRY(b10_copy)
{
	UNUSED_ARGS;
	T t = mkT(mklay(a1, geo(a0)), SOME);
	btensor c(t.b), m(std::move(btensor(t.b))), as, sw = zeros_like(t.b);
	as = t.b;
	is(c, t, "B10/copy");
	is(m, t, "B10/move");
	is(as, t, "B10/assignment");
	swap(sw, c);
	is(sw, t, "B10/swap");
	if (t.b.begin() == t.b.end())
	{
		as.neutral_shape_();
		as.shift_selection_rule_(mkq(a1, "s"));
	}
	as.inverse_cvals_();
	m.conj();
	is(t.b, t, "B10/source independent of its copies");
	is(sw, t, "B10/source independent of its copies");
}
