// L02 decompositions, M02 moving the orthogonality centre
#include "n.h"
#include "LinearAlgebra.h"
#include "blockTensor/LinearAlgebra.h"
#include "tensorgdot.h"
#include <climits>
static void kernel(bool product, bool ortho)
{
	torch::set_default_dtype(torch::scalarTypeToTypeMeta(torch::kFloat64));
	minitorch::svd_mode = minitorch::decomposition::contract;
	minitorch::contract_product = product;
	minitorch::contract_ortho = ortho;
	minitorch::sorted_spectrum = true;
}
// the columns (last dimension) are orthonormal
static void orthonormal(const D &u, const char *id)
{
	int64_t k = u.n.back(), m = k ? int64_t(u.v.size()) / k : 0;
	for (int64_t i = 0; i < k; ++i)
		for (int64_t j = i; j < k; ++j)
		{
			double s = 0;
			for (int64_t r = 0; r < m; ++r) s = s + u.v[r * k + i] * u.v[r * k + j];
			sym_same(s, i == j ? 1. : 0., id);
		}
}
// sum over l of u[..,l] d[l] v[..,l]
static D product(const D &u, const D &d, const D &v)
{
	D x = u;
	int64_t k = d.v.size();
	for (size_t i = 0; i < x.v.size(); ++i) x.v[i] = x.v[i] * d.v[i % k];
	return dot(x, v, {int64_t(u.n.size()) - 1}, {int64_t(v.n.size()) - 1});
}
// ---------------------------------------------------------------- L02
static IL sizes(int k)
{
	switch (k)
	{
	case 0: return {1, 2};
	case 1: return {2, 1};
	case 2: return {2, 2};
	case 3: return {1, 2, 2};
	case 4: return {2, 1, 2};
	case 5: return {3, 2};
	case 6: return {1, 1, 2, 1};
	case 7: return {2, 3};
	case 8: return {1, 1};
	}
	return {1};
}
// a0: sizes, a1: split, a2: 1 strided
ENTRY(l02_dense_svd)
{
	UNUSED_ARGS;
	kernel(true, true);
	D a = sym_dense(sizes(a0), "a");
	torch::Tensor t = to_torch(a, a2);
	auto [u, d, v] = svd(t, size_t(a1));
	int64_t m = 1, n = 1;
	for (size_t k = 0; k < a.n.size(); ++k) (k < size_t(a1) ? m : n) *= a.n[k];
	int64_t k = m < n ? m : n;
	IL un(a.n.begin(), a.n.begin() + a1), vn(a.n.begin() + a1, a.n.end());
	un.push_back(k), vn.push_back(k);
	bool ok = tsizes(u) == un && tsizes(v) == vn && tsizes(d) == IL{k};
	sym_check(ok, "L02/shape");
	if (!ok) return;
	same(product(from_torch(u), from_torch(d), from_torch(v)), a, "L02/product");
	orthonormal(from_torch(u), "L02/isometric");
	orthonormal(from_torch(v), "L02/isometric");
	same(from_torch(t), a, "L02/operand kept");
}
// a0: size of the first half, as sizes
ENTRY(l02_dense_eigh)
{
	UNUSED_ARGS;
	kernel(true, true);
	IL h = sizes(a0), n = h;
	n.insert(n.end(), h.begin(), h.end());
	D a = sym_dense(n, "a");
	int64_t m = 1;
	for (auto x : h) m *= x;
	for (int64_t i = 0; i < m; ++i)
		for (int64_t j = 0; j < i; ++j) a.v[i * m + j] = a.v[j * m + i];
	torch::Tensor t = to_torch(a, a2);
	auto [d, u] = eigh(t, h.size());
	IL un = h;
	un.push_back(m);
	bool ok = tsizes(u) == un && tsizes(d) == IL{m};
	sym_check(ok, "L02/shape");
	if (!ok) return;
	D U = from_torch(u);
	same(product(U, from_torch(d), U), a, "L02/product");
	orthonormal(U, "L02/isometric");
	same(from_torch(t), a, "L02/operand kept");
}
static std::vector<IL> block_geo(int k)
{
	switch (k)
	{
	case 0: return {{1, 1}, {1, 1}};
	case 1: return {{2}, {1}};
	case 2: return {{2, 1}, {1, 1}};
	case 3: return {{1, 1}, {1, 1, 1}};
	case 4: return {{1, 1}, {1, 1}, {1, 1}};
	case 5: return {{1, 1}, {1}, {1, 1}};
	case 6: return {{1, 1}, {2, 1}};
	case 7: return {{1}, {1, 1}, {1}, {1, 1}};
	case 8: return {{1, 1, 1}, {1, 1, 1}};
	case 9: return {{1}, {1, 2}, {2}};
	}
	return {};
}
static void rebuilt(const T &a, const btensor &u, const btensor &d, const btensor &v, size_t split, bool same_factor)
{
	valid(u, "L02/valid factor");
	valid(d, "L02/valid values");
	if (!same_factor) valid(v, "L02/valid factor");
	bool ok = u.dim() == int64_t(split) + 1 && d.dim() == 1 && v.dim() == int64_t(a.l.rank() - split) + 1;
	sym_check(ok, "L02/rank");
	if (!ok) return;
	D U = dense(u), V = dense(v);
	ok = U.n.back() == d.sizes()[0] && V.n.back() == d.sizes()[0];
	sym_check(ok, "L02/bond");
	if (!ok) return;
	same(product(U, dense(d), V), a.d, "L02/product");
	orthonormal(U, "L02/isometric");
	if (!same_factor) orthonormal(V, "L02/isometric");
	// the same with the operations on block tensors
	btensor x = tensordot(u.mul(d), v.conj(), {int64_t(split)}, {int64_t(a.l.rank() - split)});
	is(x, a, "L02/product of the block tensors");
	for (auto &f : {u, d, v})
		for (auto &kv : f) sym_check(kv.second.scalar_type() == torch::kFloat64, "L02/type of the elements");
}
// a0: layout, a1: group, a2: split, a3: 1 each allowed block present or not
ENTRY(l02_svd)
{
	UNUSED_ARGS;
	kernel(true, true);
	T a = mkT(mklay(a1, block_geo(a0)), a3, false, "a");
	if (a.b.begin() == a.b.end()) return;
	auto [u, d, v] = svd(a.b, size_t(a2));
	rebuilt(a, u, d, v, a2, false);
	is(a.b, a, "L02/operand kept");
}
static std::vector<IL> half(int k)
{
	switch (k)
	{
	case 0: return {{1, 1}};
	case 1: return {{2}};
	case 2: return {{2, 1}};
	case 3: return {{1, 1, 1}};
	case 4: return {{1, 1}, {1}};
	case 5: return {{1}, {1, 1}};
	case 6: return {{1, 2}};
	case 7: return {{1, 1}, {1, 1}};
	}
	return {{1}};
}
// a symmetric block matrix (or tensor): the labels of the second half are opposite to those of the first
static T symmetric(int grp, const std::vector<IL> &h, bool some)
{
	Lay l = mklay(grp, h);
	l.sel = l.sel.neutral();
	size_t r = h.size();
	for (size_t k = 0; k < r; ++k)
	{
		l.sz.push_back(l.sz[k]);
		l.q.emplace_back();
		for (auto &x : l.q[k]) l.q.back().push_back(x.inverse());
	}
	T t{l, l.shape(), D(l.sizes())};
	IL secs = l.secs();
	each(secs, [&](const IL &b) {
		IL c(b.begin() + r, b.end());
		c.insert(c.end(), b.begin(), b.begin() + r);
		if (c < b || !l.allowed(b)) return;
		if (some && sym_choose("present", 2) == 0) return;
		D x = sym_dense(l.bsize(b), "a");
		D y = x;
		if (c == b) // symmetric
		{
			each(x.n, [&](const IL &i) {
				IL j(i.begin() + r, i.end());
				j.insert(j.end(), i.begin(), i.begin() + r);
				if (j < i) y.at(i) = x.at(j);
			});
		}
		auto put = [&](const IL &b, bool tr) {
			D z(l.bsize(b));
			each(z.n, [&](const IL &i) {
				IL j = i, g;
				if (tr) j.assign(i.begin() + r, i.end()), j.insert(j.end(), i.begin(), i.begin() + r);
				z.at(i) = y.at(j);
				for (size_t k = 0; k < i.size(); ++k) g.push_back(l.start(k, b[k]) + i[k]);
				t.d.at(g) = z.at(i);
			});
			t.b.block(b) = to_torch(z);
		};
		put(b, false);
		if (c != b) put(c, true);
	});
	return t;
}
// a0: first half, a1: group, a2: 1 each pair of blocks present or not
ENTRY(l02_eigh)
{
	UNUSED_ARGS;
	kernel(true, true);
	T a = symmetric(a1, half(a0), a2);
	if (a.b.begin() == a.b.end()) return;
	size_t s = a.l.rank() / 2;
	auto [d, u] = eigh(a.b, s);
	rebuilt(a, u, d, u, s, true);
	is(a.b, a, "L02/operand kept");
}
static std::vector<IL> batch_geo(int k)
{
	switch (k)
	{
	case 0: return {{1}, {1, 1}, {1, 1}};
	case 1: return {{1, 1}, {1, 1}, {1, 1}};
	case 2: return {{2}, {1, 1}, {1}};
	case 3: return {{1, 2}, {1}, {2}};
	}
	return {{1, 1}, {2}, {1, 1}};
}
// the batched form: a matrix for each element of the first dimension. a3: 1 each allowed block present or not
ENTRY(l02_batch)
{
	UNUSED_ARGS;
	kernel(true, true);
	T a = mkT(mklay(a1, a2 ? block_geo(a0) : batch_geo(a0)), a3, false, "a");
	if (a.b.begin() == a.b.end()) return;
	auto [u, d, v] = svd(a.b);
	valid(u, "L02/valid factor"), valid(d, "L02/valid values"), valid(v, "L02/valid factor");
	size_t r = a.l.rank();
	D U = dense(u), V = dense(v), S = dense(d);
	bool ok = U.n.size() == r && V.n.size() == r && S.n.size() == r - 1 && U.n.back() == V.n.back() && V.n.back() == S.n.back() && U.n[r - 2] == a.d.n[r - 2] && V.n[r - 2] == a.d.n[r - 1];
	for (size_t k = 0; ok && k + 2 < r; ++k) ok = U.n[k] == a.d.n[k] && V.n[k] == a.d.n[k] && S.n[k] == a.d.n[k];
	sym_check(ok, "L02/batch shape");
	if (!ok) return;
	IL bn(a.d.n.begin(), a.d.n.end() - 2);
	auto at = [](const D &x, IL b, IL i) {
		b.insert(b.end(), i.begin(), i.end());
		return x.at(b);
	};
	auto one = [&](const IL &b) {
		int64_t m = a.d.n[r - 2], n = a.d.n[r - 1], k = S.n.back();
		for (int64_t i = 0; i < m; ++i)
			for (int64_t j = 0; j < n; ++j)
			{
				double s = 0;
				for (int64_t l = 0; l < k; ++l) s = s + at(U, b, {i, l}) * at(S, b, {l}) * at(V, b, {j, l});
				sym_same(s, at(a.d, b, {i, j}), "L02/batch product");
			}
	};
	if (bn.empty()) one({});
	else each(bn, one);
	is(a.b, a, "L02/operand kept");
}
// the elements keep their type whatever the default one is
ENTRY(l02_type)
{
	UNUSED_ARGS;
	kernel(false, false);
	T a = mkT(mklay(a1, {{1, 1}, {1, 1}}), ALL, false, "a"), h = symmetric(a1, {{1, 1}}, false);
	torch::set_default_dtype(torch::scalarTypeToTypeMeta(torch::kFloat32));
	if (a.b.begin() == a.b.end()) return;
	auto [u, d, v] = svd(a.b, size_t(1));
	auto [e, w] = eigh(h.b, size_t(1));
	for (auto &f : {u, d, v, e, w})
		for (auto &kv : f) sym_check(kv.second.scalar_type() == torch::kFloat64, "L02/type of the elements");
}
// a tensor without any block
ENTRY(l02_null)
{
	UNUSED_ARGS;
	kernel(true, true);
	T a = mkT(mklay(a1, block_geo(a0)), NONE);
	auto [u, d, v] = svd(a.b, size_t(a2));
	rebuilt(a, u, d, v, a2, false);
	T h = symmetric(a1, half(a0), true);
	if (h.b.begin() != h.b.end()) return;
	size_t s = h.l.rank() / 2;
	auto [e, w] = eigh(h.b, s);
	rebuilt(h, w, e, w, s, true);
}
// ---------------------------------------------------------------- M02
struct Chain
{
	std::vector<IL> bond;
	std::vector<IL> p;
};
static Chain chains(int k)
{
	switch (k)
	{
	case 0: return {{{1}, {1}}, {{1, 1}}};
	case 1: return {{{1}, {2}, {1}}, {{2}, {1, 1}}};
	case 2: return {{{1}, {1, 1}, {1}}, {{1, 1}, {1, 1}}};
	case 3: return {{{1}, {1, 1}, {1}}, {{1, 1}, {1}}};
	case 4: return {{{1, 1}, {1, 1}, {1}}, {{1}, {1, 1}}};
	case 5: return {{{1}, {1, 1}, {1, 1}, {1}}, {{1, 1}, {1}, {1, 1}}};
	case 6: return {{{1}, {1}, {1}, {1}}, {{1, 1}, {1, 1}, {1}}};
	case 7: return {{{1}, {1, 1}, {1, 1}}, {{1}, {1, 1}}};
	case 8: return {{{1}, {1}, {1}, {1}, {1}}, {{1, 1}, {1}, {1, 1}, {1}}};
	}
	return {{{2}, {1, 1}, {2}}, {{1}, {2}}};
}
// the state is the same, every site passed is isometric towards the centre
static void canonical(const std::vector<D> &s, const D &state, size_t from, size_t to)
{
	for (size_t k = from; k < to; ++k) orthonormal(s[k], "M02/isometric");
	for (size_t k = from; k > to; --k) orthonormal(permuted(s[k], {1, 2, 0}), "M02/isometric");
	same(joined(s), state, "M02/state");
}
template <class S>
static bool refused(S &s, int to)
{
	try
	{
		s.move_oc(to);
	}
	catch (std::invalid_argument &)
	{
		return true;
	}
	return false;
}
// a0: chain (sizes only), a1: from, a2: to
ENTRY(m02_dense)
{
	UNUSED_ARGS;
	Chain c = chains(a0);
	size_t n = c.p.size();
	auto size = [](const IL &x) { return std::accumulate(x.begin(), x.end(), int64_t(0)); };
	std::vector<D> d;
	std::vector<torch::Tensor> t;
	for (size_t i = 0; i < n; ++i)
	{
		d.push_back(sym_dense({size(c.bond[i]), size(c.p[i]), size(c.bond[i + 1])}, "a"));
		t.push_back(to_torch(d[i], (i + a3) % 2));
	}
	kernel(true, true);
	MPS s(t, a1);
	MPS copy = s;
	s.move_oc(a2);
	sym_check(s.orthogonality_center == size_t(a2), "M02/centre");
	sym_check(s.size() == n, "M02/length");
	std::vector<D> r;
	for (auto &x : s) r.push_back(from_torch(x));
	sym_check(s.check_ranks(), "M02/well formed");
	for (size_t i = 0; i < n; ++i)
		if ((i < size_t(a1) && i < size_t(a2)) || (i > size_t(a1) && i > size_t(a2))) same(r[i], d[i], "M02/others kept");
	canonical(r, joined(d), a1, a2);
	for (size_t i = 0; i < n; ++i) same(from_torch(copy[i]), d[i], "M02/copy kept");
	sym_check(copy.orthogonality_center == size_t(a1), "M02/copy kept");
}
static T with(int grp, const IL &left, const IL &p, const IL &right, const T *prev, bool some)
{
	Lay l = mklay(grp, {left, p, right});
	if (prev)
		for (size_t k = 0; k < left.size(); ++k) l.q[0][k] = prev->l.q[2][k].inverse();
	return mkT(l, some ? SOME : ALL, false, "a");
}
static bool labelled(const btensor &b, size_t dim, const std::vector<any_quantity> &q)
{
	if (b.section_number(dim) != int64_t(q.size())) return false;
	bool ok = true;
	for (size_t k = 0; k < q.size(); ++k) ok = ok & bool(any_quantity(b.section_conserved_qtt(dim, k)) == q[k]);
	return ok;
}
// a0: chain, a1: 10*from+to, a2: group, a3: 1 each allowed block present or not
ENTRY(m02_block)
{
	UNUSED_ARGS;
	Chain c = chains(a0);
	size_t n = c.p.size(), from = a1 / 10, to = a1 % 10;
	std::vector<T> d;
	std::vector<btensor> t;
	for (size_t i = 0; i < n; ++i)
	{
		d.push_back(with(a2, c.bond[i], c.p[i], c.bond[i + 1], i ? &d[i - 1] : nullptr, a3));
		t.push_back(d[i].b);
	}
	kernel(true, true);
	bMPS s(t, from);
	bMPS copy = s;
	s.move_oc(int(to));
	sym_check(s.orthogonality_center == to, "M02/centre");
	sym_check(s.size() == n, "M02/length");
	std::vector<D> r;
	for (auto &x : s) valid(x, "M02/valid"), r.push_back(dense(x));
	sym_check(s.check_ranks(), "M02/well formed");
	for (size_t i = 0; i < n; ++i)
		if ((i < from && i < to) || (i > from && i > to)) is(s[i], d[i], "M02/others kept");
	sym_check(labelled(s[0], 0, d[0].l.q[0]) && labelled(s[n - 1], 2, d[n - 1].l.q[2]), "M02/edges kept");
	for (size_t i = 0; i < n; ++i) sym_check(labelled(s[i], 1, d[i].l.q[1]), "M02/physical labels kept");
	any_quantity a = d[0].l.sel.neutral(), b = a;
	for (size_t i = 0; i < n; ++i) a *= any_quantity(d[i].l.sel), b *= any_quantity(s[i].selection_rule);
	sym_check(a == b, "M02/total charge kept");
	canonical(r, joined(denses(d)), from, to);
	for (size_t i = 0; i < n; ++i) is(copy[i], d[i], "M02/copy kept");
	sym_check(copy.orthogonality_center == from, "M02/copy kept");
}
// a0: block, a1: length, a2: centre
ENTRY(m02_refuse)
{
	UNUSED_ARGS;
	kernel(false, false);
	int to = sym_int("to", INT_MIN, INT_MAX);
	sym_assume(to < 0 || to >= a1);
	if (a0)
	{
		std::vector<btensor> t;
		std::vector<T> d;
		for (int i = 0; i < a1; ++i) d.push_back(with(0, {1}, {1}, {1}, i ? &d[i - 1] : nullptr, false)), t.push_back(d[i].b);
		bMPS s(t, a2);
		sym_check(refused(s, to), "M02/outside refused");
		sym_check(s.orthogonality_center == size_t(a2), "M02/refused: centre kept");
		for (int i = 0; i < a1; ++i) is(s[i], d[i], "M02/refused: tensors kept");
	}
	else
	{
		std::vector<torch::Tensor> t;
		std::vector<D> d;
		for (int i = 0; i < a1; ++i) d.push_back(sym_dense({1, 1, 1}, "a")), t.push_back(to_torch(d[i]));
		MPS s(t, a2);
		sym_check(refused(s, to), "M02/outside refused");
		sym_check(s.orthogonality_center == size_t(a2), "M02/refused: centre kept");
		for (int i = 0; i < a1; ++i) same(from_torch(s[i]), d[i], "M02/refused: tensors kept");
	}
}
