// F01, F02: the sorted block list (flat_map).  D01: dimension list helpers.
#include "h.h"
#include "blockTensor/flat_map.h"
#include "dimension_manip.h"
using namespace quantit;
using M = flat_map<int, double>;
struct Ref
{
	std::vector<std::pair<int, double>> v;
	double *find(int k)
	{
		for (auto &x : v)
			if (x.first == k) return &x.second;
		return nullptr;
	}
	bool insert(int k, double x)
	{
		if (find(k)) return false;
		v.push_back({k, x});
		return true;
	}
	bool erase(int k)
	{
		for (size_t i = 0; i < v.size(); ++i)
			if (v[i].first == k)
			{
				v.erase(v.begin() + i);
				return true;
			}
		return false;
	}
};
static void agree(const M &m, Ref &r, const char *sz, const char *order, const char *val)
{
	sym_check(m.size() == r.v.size() && m.empty() == r.v.empty() && m.end() - m.begin() == (int64_t)r.v.size(), sz);
	for (auto it = m.begin(); it != m.end(); ++it)
	{
		if (it + 1 != m.end()) sym_check(it->first < (it + 1)->first, order);
		double *p = r.find(it->first);
		sym_check(p != nullptr, val);
		if (p) sym_same(*p, it->second, val);
	}
}
static void agree1(const M &m, Ref &r) { agree(m, r, "F01/size", "F01/keys strictly increasing", "F01/value"); }
static void agree2(const M &m, Ref &r) { agree(m, r, "F02/size", "F02/keys strictly increasing", "F02/value"); }
// number of reference keys below k
static size_t rank(Ref &r, int k)
{
	size_t n = 0;
	for (auto &x : r.v) n += x.first < k;
	return n;
}
ENTRY(f01_construct)
{
	int n = a0, how = a1;
	M::content_t c;
	Ref r;
	for (int i = 0; i < n; ++i)
	{
		int k = sym_i16("k");
		double v = sym_real("v");
		c.emplace_back(k, v);
		r.insert(k, v);
	}
	switch (how)
	{
	case 0: { M m(c.begin(), c.end()); agree1(m, r); break; }
	case 1: { M m(c); agree1(m, r); break; }
	case 2: { M m(std::move(c)); agree1(m, r); break; }
	case 3:
	{
		if (n == 0) { M m({}); agree1(m, r); }
		if (n == 1) { M m({c[0]}); agree1(m, r); }
		if (n == 2) { M m({c[0], c[1]}); agree1(m, r); }
		if (n == 3) { M m({c[0], c[1], c[2]}); agree1(m, r); }
		if (n == 4) { M m({c[0], c[1], c[2], c[3]}); agree1(m, r); }
		break;
	}
	case 4: { M m(5); m.reserve(10); for (auto &x : c) m.insert(x); agree1(m, r); break; }
	}
}
// many elements, one of them with a symbolic key equal to none, or any, of the
// others: the entry that came first keeps its value.
ENTRY(f01_large)
{
	int n = a0, how = a1;
	std::vector<std::pair<int, double>> c;
	Ref r;
	for (int i = 0; i < n; ++i)
	{
		int k = (i * 7) % n;
		double v = sym_real("v");
		c.emplace_back(k, v);
		r.insert(k, v);
	}
	int k = sym_int("k", -1, n);
	double v = sym_real("w");
	if (how == 0)
	{
		c.emplace_back(k, v);
		r.insert(k, v);
		M m(c.begin(), c.end());
		agree1(m, r);
	}
	else
	{
		M m(c.begin(), c.end());
		std::vector<std::pair<int, double>> d{{k, v}, {n + 5, v}};
		m.insert(d.begin(), d.end(), [](auto &a, auto &b) { a.second = a.second + 2 * b.second; });
		if (auto p = r.find(k)) *p = *p + 2 * v;
		else r.insert(k, v);
		r.insert(n + 5, v);
		agree2(m, r);
	}
}
ENTRY(f01_sequence)
{
	int n = a0, steps = a1;
	M m;
	Ref r;
	for (int i = 0; i < n; ++i)
	{
		int k = sym_i16("k");
		double v = sym_real("v");
		m[k] = v;
		if (auto p = r.find(k)) *p = v;
		else r.insert(k, v);
	}
	agree1(m, r);
	for (int s = 0; s < steps; ++s)
	{
		int op = a2 ? a2 - 1 : sym_choose("op", 15);
		int k = sym_i16("k");
		double v = sym_real("v");
		const M &cm = m;
		double *p = r.find(k);
		bool had = p != nullptr;
		double old = had ? *p : 0;
		size_t rk = rank(r, k);
		switch (op)
		{
		case 0:
		{
			const M::value_type x(k, v);
			auto [it, ok] = m.insert(x);
			sym_check(ok == !had && it - m.begin() == (int64_t)rk && it->first == k, "F01/insert result");
			r.insert(k, v);
			break;
		}
		case 1:
		{
			auto [it, ok] = m.insert(M::value_type(k, v));
			sym_check(ok == !had && it - m.begin() == (int64_t)rk && it->first == k, "F01/insert result");
			r.insert(k, v);
			break;
		}
		case 2:
		{
			int h = sym_choose("hint", (int)m.size() + 1);
			const M::value_type x(k, v);
			auto it = m.insert(m.cbegin() + h, x);
			sym_check(it - m.begin() == (int64_t)rk && it->first == k, "F01/hinted insert result");
			r.insert(k, v);
			break;
		}
		case 3:
		{
			int h = sym_choose("hint", (int)m.size() + 1);
			auto it = m.insert(m.cbegin() + h, M::value_type(k, v));
			sym_check(it - m.begin() == (int64_t)rk && it->first == k, "F01/hinted insert result");
			r.insert(k, v);
			break;
		}
		case 4:
		{
			auto [it, ok] = m.emplace(k, v);
			sym_check(ok == !had && it - m.begin() == (int64_t)rk, "F01/emplace result");
			r.insert(k, v);
			break;
		}
		case 5:
		{
			int h = sym_choose("hint", (int)m.size() + 1);
			auto [it, ok] = m.emplace(m.cbegin() + h, k, v);
			sym_check(ok == !had && it - m.begin() == (int64_t)rk, "F01/hinted emplace result");
			r.insert(k, v);
			break;
		}
		case 6:
		{
			double x = m[k];
			sym_same(x, old, "F01/operator[] reads the value or inserts zero");
			m[k] = v;
			if (had) *p = v;
			else r.insert(k, v);
			break;
		}
		case 7:
		{
			bool out = false;
			double x = 0;
			try
			{
				x = cm.at(k);
				m.at(k) = v;
			}
			catch (std::out_of_range &)
			{
				out = true;
			}
			sym_check(out == !had, "F01/at rejects exactly the absent keys");
			if (had && !out)
			{
				sym_same(x, old, "F01/at reads");
				*p = v;
			}
			break;
		}
		case 8:
		{
			sym_check(m.contains(k) == had && (m.count(k) == 1) == had && cm.count(k) <= 1, "F01/contains, count");
			auto it = m.find(k);
			auto cit = cm.find(k);
			sym_check((it != m.end()) == had && (cit != cm.end()) == had, "F01/find");
			if (had && it != m.end())
			{
				sym_check(it->first == k && it - m.begin() == (int64_t)rk, "F01/find");
				sym_same(it->second, old, "F01/found value");
				sym_same(cit->second, old, "F01/found value");
				it->second = v;
				*p = v;
			}
			break;
		}
		case 9:
		{
			auto cnt = m.erase(k);
			sym_check(cnt == (size_t)had, "F01/erase count");
			r.erase(k);
			break;
		}
		case 10:
		{
			if (m.empty()) break;
			int h = sym_choose("pos", (int)m.size());
			int key = (m.begin() + h)->first;
			auto it = s % 2 ? m.erase(m.begin() + h) : m.erase(m.cbegin() + h);
			sym_check(it - m.begin() == h, "F01/erase position");
			r.erase(key);
			break;
		}
		case 11:
		{
			int b = sym_choose("pos", (int)m.size() + 1), e = b + sym_choose("len", (int)m.size() + 1 - b);
			std::vector<int> keys;
			for (int i = b; i < e; ++i) keys.push_back((m.begin() + i)->first);
			auto it = m.erase(m.cbegin() + b, m.cbegin() + e);
			sym_check(it - m.begin() == b, "F01/erase range");
			for (int q : keys) r.erase(q);
			break;
		}
		case 12:
		{
			sym_check(m.lower_bound(k) - m.begin() == (int64_t)rk && cm.lower_bound(k) - cm.begin() == (int64_t)rk, "F01/lower_bound");
			sym_check(m.upper_bound(k) - m.begin() == (int64_t)(rk + had) && cm.upper_bound(k) - cm.begin() == (int64_t)(rk + had), "F01/upper_bound");
			auto [f, l] = m.equal_range(k);
			auto [cf, cl] = cm.equal_range(k);
			sym_check(l - f == had && cl - cf == had, "F01/equal_range");
			if (had) sym_check(f->first == k && cf->first == k, "F01/equal_range");
			break;
		}
		case 13:
		{
			M c(m), d, e, f;
			f[k] = v;
			d = m;
			agree1(c, r);
			agree1(d, r);
			M g(std::move(c));
			agree1(g, r);
			e = std::move(d);
			agree1(e, r);
			e.swap(f);
			agree1(f, r);
			sym_check(e.size() == 1 && f == m, "F01/swap, equality");
			e[k + 1] = v;
			sym_check(!(e == f) || (r.v.size() == 2), "F01/inequality");
			g[k] = v + 1;
			break;
		}
		case 14:
		{
			// reverse iteration and ordering of the comparators
			int n = 0;
			for (auto it = cm.rbegin(); it != cm.rend(); ++it) ++n;
			sym_check(n == (int)m.size(), "F01/reverse iteration");
			if (k % 2 == 0)
			{
				m.clear();
				r.v.clear();
			}
			break;
		}
		}
		agree1(m, r);
	}
}
// F02 --------------------------------------------------------------------
// how: 0 insert(range, both rules), 1 merge(const&, both), 2 insert(range,
// collision), 3 merge(const&, collision), 4 merge(const &), 5 insert(range),
// 6 unsorted range, 7 merge(&&, both) spare capacity, 8 without,
// 9 merge(itself)
ENTRY(f02_merge)
{
	int n = a0, m = a1, how = a2;
	M a, b;
	Ref ra, rb, r;
	std::vector<std::pair<int, double>> add;
	for (int i = 0; i < n; ++i)
	{
		int k = sym_i16("ka");
		double v = sym_real("va");
		sym_assume(ra.find(k) == nullptr);
		// sorted: the order of construction is the subject of F01
		if (i) sym_assume(ra.v.back().first < k);
		a.insert(a.end(), M::value_type(k, v));
		ra.insert(k, v);
	}
	for (int i = 0; i < m; ++i)
	{
		int k = sym_i16("kb");
		double v = sym_real("vb");
		if (how != 6)
		{
			if (i) sym_assume(rb.v.back().first < k);
			b.insert(b.end(), M::value_type(k, v));
			rb.insert(k, v);
		}
		else
			add.emplace_back(k, v);
	}
	sym_check(a.size() == (size_t)n && b.size() == (size_t)(how == 6 ? 0 : m), "F02/construction");
	auto coll = [](auto &x, const auto &y) { x = 2 * x + 3 * y; };
	auto nocoll = [](auto &x) { x = 5 * x; };
	bool has_coll = true, has_no = true;
	const M b0 = b;
	switch (how)
	{
	case 0: a.insert(b.begin(), b.end(), coll, nocoll); break;
	case 1: a.merge(b, coll, nocoll); break;
	case 2: a.insert(b.begin(), b.end(), coll); has_no = false; break;
	case 3: a.merge(b, coll); has_no = false; break;
	case 4: a.merge(b); has_no = has_coll = false; break;
	case 5: a.insert(b.begin(), b.end()); has_no = has_coll = false; break;
	case 6: a.insert(add.begin(), add.end(), [&](auto &x, auto &y) { coll(x.second, y.second); }); has_no = false; break;
	case 7: b.reserve(32); a.merge(std::move(b), coll, nocoll); break;
	case 8: b.shrink_to_fit(); a.merge(std::move(b), coll, nocoll); break;
	case 9: a.merge(a, coll, nocoll); rb = ra; break;
	}
	for (auto &x : ra.v) r.insert(x.first, x.second);
	if (how == 6)
		for (auto &x : add)
		{
			if (auto p = r.find(x.first)) coll(*p, x.second);
			else r.insert(x.first, x.second);
		}
	else
		for (auto &x : rb.v)
		{
			double v = x.second;
			if (auto p = r.find(x.first))
			{
				if (has_coll) coll(*p, v);
			}
			else
			{
				if (has_no) nocoll(v);
				r.insert(x.first, v);
			}
		}
	agree2(a, r);
	if (how < 6)
		{
			Ref q = rb;
			agree(b, q, "F02/added list kept", "F02/added list kept", "F02/added list kept");
		}
}
// D01 --------------------------------------------------------------------
static std::vector<int64_t> symvec(const char *name, int n)
{
	std::vector<int64_t> v;
	for (int i = 0; i < n; ++i) v.push_back(sym_i64(name));
	return v;
}
static bool eqv(torch::IntArrayRef a, const std::vector<int64_t> &b)
{
	if (a.size() != b.size()) return false;
	bool e = true;
	for (size_t i = 0; i < b.size(); ++i) e &= a[i] == b[i];
	return e;
}
ENTRY(d01_concat)
{
	auto a = symvec("a", a0), b = symvec("b", a1), c = symvec("c", a2);
	std::vector<int64_t> e(a);
	for (auto x : b) e.push_back(x);
	sym_check(eqv(concat(a, b), e), "D01/concat of two");
	sym_check(eqv(concat({torch::IntArrayRef(a), torch::IntArrayRef(b)}), e), "D01/concat of two");
	for (auto x : c) e.push_back(x);
	sym_check(eqv(concat(a, b, c), e), "D01/concat of three");
	sym_check(eqv(concat({torch::IntArrayRef(a)}), a), "D01/concat of one");
	sym_check(concat(std::initializer_list<torch::IntArrayRef>{}).empty(), "D01/concat of none");
}
ENTRY(d01_lists)
{
	int n = a0;
	auto a = symvec("a", n);
	std::vector<int64_t> rev;
	for (int i = n; i-- > 0;) rev.push_back(a[i]);
	auto r = reverse(a);
	sym_check(eqv(r, rev), "D01/reverse");
	sym_check(eqv(reverse(r), a), "D01/reverse twice");
	int64_t p = 1;
	for (auto x : a) p = (int64_t)((uint64_t)p * (uint64_t)x);
	sym_assume(true);
	for (int s = 0; s <= n; ++s)
		for (int l = 0; s + l <= n; ++l)
		{
			std::vector<int64_t> e(a.begin() + s, a.begin() + s + l);
			sym_check(eqv(slice(a, s, l), e), "D01/slice of a vector");
		}
	sym_observe("n", n);
}
ENTRY(d01_prod)
{
	int n = a0;
	std::vector<int64_t> a;
	for (int i = 0; i < n; ++i) a.push_back(sym_int("a", 0, 20));
	int64_t p = 1;
	for (auto x : a) p *= x;
	sym_check(prod(a) == p, "D01/product");
	for (int s = 0; s <= n; ++s)
		for (int l = 0; s + l <= n; ++l)
		{
			int64_t q = 1;
			for (int i = s; i < s + l; ++i) q *= a[i];
			sym_check(prod(a, s, l) == q, "D01/product of a slice");
		}
}
