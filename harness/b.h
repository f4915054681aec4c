// Block tensor harness helpers: a symbolic layout, the block tensor built on it and an independent dense reference.
#pragma once
#include "h.h"
#include "blockTensor/btensor.h"
#include "Conserved/Composite/cquantity.h"
#include "Conserved/quantity.h"
#include <vector>
using namespace quantit;
using quantit::conserved::C;
using quantit::conserved::Z;
using IL = std::vector<int64_t>;
using Q1 = quantity<Z>;
using Q2 = quantity<C<2>, Z>;
using Q3 = quantity<C<5>>;
// an arbitrary label of the group
inline any_quantity mkq(int grp, const char *name)
{
	switch (grp)
	{
	case 1:
	{
		C<2> p((int16_t)sym_int("parity", 0, 1));
		return Q2(p, Z(sym_i16(name)));
	}
	case 2: return Q3(C<5>((int16_t)sym_int(name, 0, 4)));
	default: return Q1(Z(sym_i16(name)));
	}
}
// row-major dense tensor of exact values
struct D
{
	IL n;
	std::vector<double> v;
	D() : v(1, 0.) {}
	explicit D(IL sizes) : n(std::move(sizes))
	{
		int64_t k = 1;
		for (auto x : n) k *= x;
		v.assign(k, 0.);
	}
	int64_t pos(const IL &i) const
	{
		int64_t p = 0;
		for (size_t d = 0; d < n.size(); ++d) p = p * n[d] + i[d];
		return p;
	}
	double &at(const IL &i) { return v[pos(i)]; }
	double at(const IL &i) const { return v[pos(i)]; }
};
// next multi-index below n, last index fastest; false at the end
inline bool next(IL &i, const IL &n)
{
	for (size_t d = n.size(); d-- > 0;)
	{
		if (++i[d] < n[d]) return true;
		i[d] = 0;
	}
	return false;
}
inline bool empty_range(const IL &n)
{
	for (auto x : n)
		if (x == 0) return true;
	return false;
}
template <class F>
void each(const IL &n, F f)
{
	if (empty_range(n)) return;
	IL i(n.size(), 0);
	do f(i);
	while (next(i, n));
}
// direct access to an element of a (strided) dense tensor
inline double &el(const torch::Tensor &t, const IL &i)
{
	int64_t p = t.impl->off;
	for (size_t d = 0; d < i.size(); ++d) p += i[d] * t.impl->strides[d];
	return t.impl->st->d[p];
}
inline IL tsizes(const torch::Tensor &t) { return IL(t.sizes().begin(), t.sizes().end()); }
inline torch::Tensor to_torch(const D &d, bool strided = false)
{
	torch::Tensor t;
	if (strided && d.n.size() > 1)
	{
		IL rn(d.n.rbegin(), d.n.rend()), perm;
		for (size_t k = d.n.size(); k-- > 0;) perm.push_back(k);
		t = torch::empty(rn).permute(perm);
	}
	else
		t = torch::empty(d.n);
	each(d.n, [&](const IL &i) { el(t, i) = d.at(i); });
	return t;
}
inline D from_torch(const torch::Tensor &t)
{
	D d(tsizes(t));
	each(d.n, [&](const IL &i) { d.at(i) = el(t, i); });
	return d;
}
inline D sym_dense(IL n, const char *name)
{
	D d(std::move(n));
	for (auto &x : d.v) x = sym_real(name);
	return d;
}
inline void same(const D &a, const D &b, const char *id)
{
	sym_check(a.n == b.n, id);
	if (a.n != b.n) return;
	for (size_t k = 0; k < a.v.size(); ++k) sym_same(a.v[k], b.v[k], id);
}
struct Lay
{
	std::vector<IL> sz;                        // section sizes of each dimension
	std::vector<std::vector<any_quantity>> q;  // label of each section
	any_quantity sel;
	size_t rank() const { return sz.size(); }
	IL secs() const
	{
		IL o;
		for (auto &s : sz) o.push_back(s.size());
		return o;
	}
	IL sizes() const
	{
		IL o;
		for (auto &s : sz)
		{
			int64_t k = 0;
			for (auto x : s) k += x;
			o.push_back(k);
		}
		return o;
	}
	IL bsize(const IL &b) const
	{
		IL o;
		for (size_t d = 0; d < b.size(); ++d) o.push_back(sz[d][b[d]]);
		return o;
	}
	int64_t start(size_t d, int64_t s) const
	{
		int64_t k = 0;
		for (int64_t j = 0; j < s; ++j) k += sz[d][j];
		return k;
	}
	bool allowed(const IL &b) const
	{
		any_quantity x = sel.neutral();
		for (size_t d = 0; d < b.size(); ++d) x *= q[d][b[d]];
		return x == sel;
	}
	btensor::vec_list_t spec() const
	{
		btensor::vec_list_t o;
		for (size_t d = 0; d < rank(); ++d)
		{
			o.emplace_back();
			for (size_t s = 0; s < sz[d].size(); ++s) o.back().emplace_back(sz[d][s], q[d][s]);
		}
		return o;
	}
	btensor shape() const { return btensor(spec(), sel); }
};
// layout with the given section sizes and arbitrary labels and selection rule
inline Lay mklay(int grp, std::vector<IL> sz)
{
	Lay l;
	l.sz = std::move(sz);
	for (auto &s : l.sz)
	{
		l.q.emplace_back();
		for (size_t k = 0; k < s.size(); ++k) l.q.back().push_back(mkq(grp, "label"));
	}
	l.sel = mkq(grp, "rule");
	return l;
}
struct T
{
	Lay l;
	btensor b;
	D d;
};
// how the blocks are filled: all allowed ones, each allowed one or not (forks), none
enum fill_t { ALL = 0, SOME = 1, NONE = 2 };
inline T mkT(Lay l, int fill = ALL, bool strided = false, const char *name = "x")
{
	T t{l, l.shape(), D(l.sizes())};
	each(l.secs(), [&](const IL &b) {
		if (!l.allowed(b)) return;
		if (fill == NONE || (fill == SOME && sym_choose("present", 2) == 0)) return;
		D blk = sym_dense(l.bsize(b), name);
		each(blk.n, [&](const IL &i) {
			IL g;
			for (size_t k = 0; k < i.size(); ++k) g.push_back(l.start(k, b[k]) + i[k]);
			t.d.at(g) = blk.at(i);
		});
		t.b.block(b) = to_torch(blk, strided);
	});
	return t;
}
// the block tensor obeys its own conservation law and sizes (independent of check_tensor)
inline void valid(const btensor &b, const char *id)
{
	const IL &secs = b.section_numbers();
	bool ok = (size_t)b.dim() == secs.size();
	int64_t tot = 0;
	for (auto s : secs) tot += s;
	ok = ok && (int64_t)b.get_cvals().size() == tot;
	sym_check(ok, id);
	if (!ok) return;
	const IL *prev = nullptr;
	for (auto &kv : b)
	{
		const IL &key = kv.first;
		bool in = key.size() == secs.size() && kv.second.defined() && kv.second.dim() == (int64_t)key.size();
		for (size_t d = 0; in && d < key.size(); ++d) in = key[d] >= 0 && key[d] < secs[d];
		sym_check(in, id);
		if (!in) continue;
		any_quantity x = b.selection_rule->neutral();
		int64_t off = 0;
		for (size_t d = 0; d < key.size(); ++d)
		{
			x *= b.get_cvals()[off + key[d]];
			auto [first, last] = b.section_sizes(d);
			sym_check(last - first == secs[d] && first[key[d]] == kv.second.sizes()[d], id);
			off += secs[d];
		}
		sym_check(x == any_quantity(b.selection_rule), id);
		if (prev) sym_check(*prev < key, id);
		prev = &key;
	}
}
inline void labels(const btensor &b, const Lay &l, const char *id)
{
	bool ok = b.section_numbers() == l.secs() && b.dim() == (int64_t)l.rank();
	sym_check(ok, id);
	if (!ok) return;
	sym_check(b.sizes() == l.sizes(), id);
	sym_check(any_quantity(b.selection_rule) == l.sel, id);
	int64_t off = 0;
	for (size_t d = 0; d < l.rank(); ++d)
	{
		auto [first, last] = b.section_sizes(d);
		sym_check(IL(first, last) == l.sz[d], id);
		for (size_t s = 0; s < l.q[d].size(); ++s) sym_check(any_quantity(b.get_cvals()[off + s]) == l.q[d][s], id);
		off += l.q[d].size();
	}
}
// dense form of a block tensor (independent of to_dense)
inline D dense(const btensor &b)
{
	IL n;
	std::vector<IL> starts;
	for (int64_t d = 0; d < b.dim(); ++d)
	{
		auto [first, last] = b.section_sizes(d);
		IL st;
		int64_t k = 0;
		for (auto it = first; it != last; ++it)
		{
			st.push_back(k);
			k += *it;
		}
		n.push_back(k);
		starts.push_back(st);
	}
	D o(n);
	for (auto &kv : b)
	{
		IL bs = tsizes(kv.second);
		each(bs, [&](const IL &i) {
			IL g;
			bool in = true;
			for (size_t k = 0; k < i.size(); ++k)
			{
				g.push_back(starts[k][kv.first[k]] + i[k]);
				in = in && g.back() < n[k];
			}
			if (in) o.at(g) = el(kv.second, i);
		});
	}
	return o;
}
// validity, labels and content at once
inline void is(const btensor &b, const Lay &l, const D &d, const char *id)
{
	valid(b, id);
	labels(b, l, id);
	same(dense(b), d, id);
}
inline void is(const btensor &b, const T &t, const char *id) { is(b, t.l, t.d, id); }
// some fixed layouts
inline std::vector<IL> geo(int k)
{
	switch (k)
	{
	case 0: return {};                             // rank 0
	case 1: return {{2, 1}};                       // rank 1
	case 2: return {{1, 2}, {2, 1}};               // rank 2
	case 3: return {{1, 1}, {2}, {1, 1}};          // rank 3
	case 4: return {{1, 2, 1}, {1, 1}};            // three sections
	case 5: return {{1, 1}, {1, 1}, {1, 1}};       // rank 3
	case 6: return {{1, 1}, {1}, {1, 1}, {1}};     // rank 4
	case 7: return {{1, 1}, {1, 1}, {1, 1}, {1, 1}};
	case 8: return {{2}, {3}};                     // a single section
	case 9: return {{1}, {1, 2}};                  // size one dimension
	case 10: return {{0, 1}, {1, 1}};              // an empty section
	case 11: return {{1, 2}, {1, 2}};
	}
	return {};
}
static const int n_geo = 12;
