// Tensor network harness helpers
#pragma once
#include "b.h"
#include "MPT.h"
#include "dmrg.h"
inline bool among(const IL &l, int64_t x)
{
	for (auto y : l)
		if (x == y) return true;
	return false;
}
// sum over the dimensions cx of x and cy of y
inline D dot(const D &x, const D &y, const IL &cx, const IL &cy)
{
	IL ox, oy, n, m;
	for (size_t d = 0; d < x.n.size(); ++d)
		if (!among(cx, d)) ox.push_back(d), n.push_back(x.n[d]);
	for (size_t d = 0; d < y.n.size(); ++d)
		if (!among(cy, d)) oy.push_back(d), n.push_back(y.n[d]);
	for (auto d : cx) m.push_back(x.n[d]);
	D o(n);
	each(n, [&](const IL &i) {
		double s = 0;
		each(m, [&](const IL &j) {
			IL ix(x.n.size()), iy(y.n.size());
			for (size_t k = 0; k < ox.size(); ++k) ix[ox[k]] = i[k];
			for (size_t k = 0; k < oy.size(); ++k) iy[oy[k]] = i[ox.size() + k];
			for (size_t k = 0; k < cx.size(); ++k) ix[cx[k]] = iy[cy[k]] = j[k];
			s = s + x.at(ix) * y.at(iy);
		});
		o.at(i) = s;
	});
	return o;
}
inline D permuted(const D &x, const IL &p)
{
	IL n;
	for (auto d : p) n.push_back(x.n[d]);
	D o(n);
	each(n, [&](const IL &i) {
		IL j(i.size());
		for (size_t k = 0; k < p.size(); ++k) j[p[k]] = i[k];
		o.at(i) = x.at(j);
	});
	return o;
}
// the whole state (or operator): sites joined over neighbouring bonds; (left, physical.., right), operators (left, out, in, out, in, .., right)
inline D joined(const std::vector<D> &s)
{
	auto prep = [](const D &x) { return x.n.size() == 4 ? permuted(x, {0, 1, 3, 2}) : x; };
	D o = prep(s[0]);
	for (size_t k = 1; k < s.size(); ++k) o = dot(o, prep(s[k]), {int64_t(o.n.size()) - 1}, {0});
	return o;
}
// a chain of block tensors: the left labels of a site are opposite to the right labels of its neighbour
inline std::vector<T> chain(int grp, const std::vector<IL> &bond, const std::vector<std::vector<any_quantity>> &phys, const std::vector<IL> &psize, bool op, const char *name)
{
	std::vector<T> s;
	for (size_t i = 0; i < phys.size(); ++i)
	{
		Lay l = mklay(grp, {bond[i], IL(), bond[i + 1]});
		l.sz[1] = psize[i];
		l.q[1] = phys[i];
		if (op)
		{
			l.sz.push_back(psize[i]);
			l.q.emplace_back();
			for (auto &x : phys[i]) l.q[3].push_back(x.inverse());
		}
		if (i)
			for (size_t k = 0; k < bond[i].size(); ++k) l.q[0][k] = s.back().l.q[2][k].inverse();
		s.push_back(mkT(l, ALL, false, name));
	}
	return s;
}
inline std::vector<D> denses(const std::vector<T> &s)
{
	std::vector<D> o;
	for (auto &t : s) o.push_back(t.d);
	return o;
}
struct Net
{
	std::vector<IL> a, b, o, p;
};
inline Net nets(int k)
{
	switch (k)
	{
	case 0: return {{{1}, {1}}, {{1}, {1}}, {{1}, {1}}, {{1, 1}}};
	case 1: return {{{1}, {1}, {1}}, {{1}, {1}, {1}}, {{1}, {1}, {1}}, {{1, 1}, {1}}};
	case 2: return {{{1}, {1, 1}, {1}}, {{1}, {2}, {1}}, {{1}, {1}, {1}}, {{2}, {1}}};
	case 3: return {{{1}, {1, 2}}, {{1}, {1, 2}}, {{1}, {1}}, {{1}}};
	case 4: return {{{1}, {1}}, {{1}, {1}}, {{1}, {2}}, {{2}}};
	case 5: return {{{1}, {1}, {1}, {1}}, {{1}, {1}, {1}, {1}}, {{1}, {1}, {1}, {1}}, {{1}, {2}, {1}}};
	case 6: return {{{1}, {1, 1}, {1}}, {{1}, {1, 1}, {1}}, {{1}, {1, 1}, {1}}, {{1}, {1}}};
	}
	return {};
}
