// Q01-Q05: conserved quantities, type erased quantities and collections
#include "Conserved/Composite/cquantity.h"
#include "Conserved/Composite/quantity_vector.h"
#include "Conserved/quantity.h"
#include "h.h"
using namespace quantit;
using namespace quantit::conserved;
// ---------------------------------------------------------------- Q01
template <uint16_t N>
static void cyclic_group()
{
	int16_t a = sym_i16("a"), b = sym_i16("b"), c = sym_i16("c");
	const C<N> x(a), y(b), z(c), e(0), e2;
	sym_check(x.get_val() < N, "Q01/canonical");
	sym_check(e.get_val() == 0 && e2.get_val() == 0 && e == e2, "Q01/neutral value");
	C<N> s = x + y;
	sym_check(s.get_val() < N, "Q01/closed");
	sym_check(s.get_val() == ((unsigned)x.get_val() + (unsigned)y.get_val()) % N, "Q01/composition is addition modulo N");
	sym_check(s == x * y && s == y + x && s == conserved::op(x, y), "Q01/commutative, + and * agree");
	C<N> t = x;
	t += y;
	sym_check(t == s, "Q01/+=");
	t = x;
	t *= y;
	sym_check(t == s, "Q01/*=");
	t = x;
	t.op(y);
	sym_check(t == s, "Q01/op");
	t = x;
	t.op(y, true);
	sym_check(t == s, "Q01/conditional op");
	t = x;
	t.op(y, false);
	sym_check(t == x, "Q01/conditional op disabled");
	sym_check(x + e == x && e + x == x, "Q01/identity");
	C<N> i = x.inverse();
	sym_check(i.get_val() < N, "Q01/inverse closed");
	sym_check(x + i == e, "Q01/inverse");
	t = x;
	t.inverse_();
	sym_check(t == i && t.inverse() == x, "Q01/inverse in place, involution");
	if (N == 32767) sym_assume(c >= 0 && c < 40); // full range out of the solver's reach
	sym_check((x + y) + z == x + (y + z), "Q01/associative");
	sym_check((uint16_t)x == x.get_val(), "Q01/conversion");
	C<N> p = x, q = y;
	swap(p, q);
	sym_check(p == y && q == x, "Q01/swap");
}
template <uint16_t N>
static void cyclic_residue()
{
	int16_t a = sym_i16("a"), b = sym_i16("b");
	const C<N> x(a), y(b);
	int r = (int)a % (int)N;
	if (r < 0) r += N;
	sym_check(x.get_val() == r, "Q01/value is the residue");
	int s = (int)b % (int)N;
	if (s < 0) s += N;
	sym_check((r == s) == (x == y), "Q01/congruent integers are equal");
	sym_check((x == y) == !(x != y), "Q01/equality and difference");
	sym_check((x < y) + (y < x) + (x == y) == 1, "Q01/trichotomy");
	sym_check((x > y) == (y < x), "Q01/> mirrors <");
	sym_check((x == y) == (x.inverse() == y.inverse()), "Q01/inverse is injective");
}
template <class G>
static void order_laws(G x, G y, G z)
{
	sym_check(x == x && !(x < x) && !(x > x), "Q01/reflexive, irreflexive");
	sym_check(!(x == y) || y == x, "Q01/symmetric");
	sym_check(!(x == y && y == z) || x == z, "Q01/transitive equality");
	sym_check(!(x < y && y < z) || x < z, "Q01/transitive order");
	sym_check((x < y) + (y < x) + (x == y) == 1, "Q01/trichotomy");
	sym_check((x > y) == (y < x) && (x != y) == !(x == y), "Q01/derived comparisons");
	int64_t d = x.distance2(y);
	sym_check(d == y.distance2(x) && d >= 0 && (d == 0) == (x == y), "Q01/squared distance");
}
#define MODULI(X) X(1) X(2) X(3) X(4) X(5) X(6) X(7) X(10) X(12) X(100) X(255) X(256) X(257) X(1000) X(16384) X(32767) X(32768) X(32769) X(40000) X(49152) X(65533) X(65534)
static const int n_moduli = 0
#define CNT(n) +1
    MODULI(CNT);
ENTRY(q01_cyclic)
{
	int k = 0;
	(void)n_moduli;
#define CASE(n) \
	if (a0 == k++) return cyclic_group<n>();
	MODULI(CASE)
}
ENTRY(q01_residue)
{
	int k = 0;
#define CASE2(n) \
	if (a0 == k++) return cyclic_residue<n>();
	MODULI(CASE2)
}
ENTRY(q01_order)
{
	int16_t a = sym_i16("a"), b = sym_i16("b"), c = sym_i16("c");
	if (a0 == 0) order_laws(Z(a), Z(b), Z(c));
	if (a0 == 1) order_laws(C<5>(a), C<5>(b), C<5>(c));
	if (a0 == 2) order_laws(C<65534>(a), C<65534>(b), C<65534>(c));
	if (a0 == 3) order_laws(C<2>(a), C<2>(b), C<2>(c));
}
ENTRY(q01_integers)
{
	int16_t a = sym_i16("a"), b = sym_i16("b"), c = sym_i16("c");
	const Z x(a), y(b), z(c), e(0), e2;
	sym_check(x.get_val() == a && e == e2, "Q01/Z value");
	Z s = x + y;
	// the documented domain is [-32767,32767]; inside it composition is the sum
	int m = (int)a + (int)b;
	if (m >= -32768 && m <= 32767) sym_check(s.get_val() == m, "Q01/Z composition is addition");
	sym_check(s == x * y && s == y + x && s == conserved::op(x, y), "Q01/Z commutative");
	Z t = x;
	t += y;
	sym_check(t == s, "Q01/Z +=");
	t = x;
	t *= y;
	sym_check(t == s, "Q01/Z *=");
	t = x;
	t.op(y, true);
	sym_check(t == s, "Q01/Z conditional op");
	t = x;
	t.op(y, false);
	sym_check(t == x, "Q01/Z conditional op disabled");
	sym_check(x + e == x && e + x == x, "Q01/Z identity");
	sym_check(x + x.inverse() == e, "Q01/Z inverse");
	sym_check((x + y) + z == x + (y + z), "Q01/Z associative");
	sym_check((x == y) == (a == b) && (x != y) == (a != b) && (x < y) == (a < b) && (x > y) == (a > b), "Q01/Z comparisons");
}
// ---------------------------------------------------------------- Q02
template <class T>
static T mk(const char *n)
{
	return T(sym_i16(n));
}
template <class A, class B, class D>
static void composite()
{
	using Q = quantity<A, B, D>;
	A xa = mk<A>("xa"), ya = mk<A>("ya");
	B xb = mk<B>("xb"), yb = mk<B>("yb");
	D xc = mk<D>("xc"), yc = mk<D>("yc");
	const Q x(xa, xb, xc), y(ya, yb, yc), e;
	const Q sum(xa + ya, xb + yb, xc + yc), inv(xa.inverse(), xb.inverse(), xc.inverse()), zero(A(0), B(0), D(0));
	bool same = xa == ya && xb == yb && xc == yc;
	sym_check((x == y) == same && (x != y) == !same, "Q02/componentwise equality");
	sym_check(e == zero, "Q02/default is neutral");
	Q t(x);
	t.op(y);
	sym_check(t == sum, "Q02/op componentwise");
	t = x;
	t.op(y, true);
	sym_check(t == sum, "Q02/conditional op");
	t = x;
	t.op(y, false);
	sym_check(t == x, "Q02/conditional op disabled");
	t = y;
	x.op_to(t);
	sym_check(t == sum, "Q02/op_to");
	t = x;
	sym_check(t * y == sum && t == x, "Q02/operator*");
	sym_check(t + y == sum && t == x, "Q02/operator+");
	sym_check(t * Q(y) == sum && t == x, "Q02/operator* rvalue");
	sym_check(t + Q(y) == sum && t == x, "Q02/operator+ rvalue");
	t *= y;
	sym_check(t == sum, "Q02/*=");
	t = x;
	t += y;
	sym_check(t == sum, "Q02/+=");
	t = x;
	t.inverse_();
	sym_check(t == inv, "Q02/inverse componentwise");
	t = x;
	Q u = y;
	t.swap(u);
	sym_check(t == y && u == x, "Q02/swap");
}
template <class A, class B, class D>
static void erased()
{
	using Q = quantity<A, B, D>;
	A xa = mk<A>("xa"), ya = mk<A>("ya");
	B xb = mk<B>("xb"), yb = mk<B>("yb");
	D xc = mk<D>("xc"), yc = mk<D>("yc");
	Q x(xa, xb, xc), y(ya, yb, yc), zero;
	Q sum(x), inv(x);
	sum.op(y);
	inv.inverse_();
	const any_quantity ax(x), ay(ya, yb, yc), asum(sum), ainv(inv);
	any_quantity_cref rx = ax, ry = ay;
	sym_check((ax == ay) == (x == y) && (ax != ay) == (x != y), "Q02/erased equality");
	sym_check((ax < ay) == (x < y) && (ax > ay) == (x > y), "Q02/erased order");
	sym_check(rx.same_type(ry), "Q02/erased type");
	sym_check(ax * ay == asum, "Q02/erased *");
	sym_check(ax + ay == asum, "Q02/erased +");
	sym_check(rx * ry == asum && rx + ry == asum, "Q02/reference product");
	sym_check(any_quantity(ax) * ay == asum && any_quantity(ax) + ry == asum, "Q02/erased rvalue lhs");
	sym_check(ax * any_quantity(ay) == asum && rx + any_quantity(ay) == asum, "Q02/erased rvalue rhs");
	sym_check(any_quantity(ax) * any_quantity(ay) == asum && any_quantity(ax) + any_quantity(ay) == asum, "Q02/erased rvalues");
	any_quantity t(ax);
	t *= ay;
	sym_check(t == asum, "Q02/erased *=");
	t = ax;
	t += ay;
	sym_check(t == asum, "Q02/erased +=");
	t = ax;
	t.op(ay, false);
	sym_check(t == ax, "Q02/erased conditional op disabled");
	t.op(ay, true);
	sym_check(t == asum, "Q02/erased conditional op");
	t = ay;
	rx.op_to(t);
	sym_check(t == asum, "Q02/erased op_to");
	sym_check(ax.inverse() == ainv && rx.inverse() == ainv && rx.inv() == ainv && any_quantity(ax).inverse() == ainv, "Q02/erased inverse");
	t = ax;
	t.inverse_();
	sym_check(t == ainv, "Q02/erased inverse in place");
	sym_check(ax.neutral() == any_quantity(zero) && rx.neutral() == any_quantity(zero), "Q02/erased neutral");
	sym_check(ax * ax.inverse() == ax.neutral(), "Q02/erased inverse law");
	sym_check(ax == any_quantity(x) && ay == any_quantity(y), "Q02/operands kept");
}
template <class A, class B, class D>
static void composite_order()
{
	using Q = quantity<A, B, D>;
	Q x(mk<A>("xa"), mk<B>("xb"), mk<D>("xc")), y(mk<A>("ya"), mk<B>("yb"), mk<D>("yc")), z(mk<A>("za"), mk<B>("zb"), mk<D>("zc"));
	bool xy = x < y, yx = y < x, eq = x == y;
	sym_check(xy + yx + eq == 1, "Q02/trichotomy");
	sym_check((x > y) == yx && (x != y) == !eq, "Q02/derived comparisons");
	sym_check(!(xy && y < z) || x < z, "Q02/transitive");
	sym_check(x == x && !(x < x), "Q02/irreflexive");
}
// which: 0 only the first component may differ (+-100), 1 only the second,
// 2 both differ within +-12, 3 all 16 bit values (not the zero-iff-equal part)
template <class A, class B>
static void composite_distance(int which)
{
	using Q = quantity<A, B>;
	int16_t xa, xb, ya, yb;
	if (which == 3)
	{
		xa = sym_i16("xa"), xb = sym_i16("xb");
		ya = sym_i16("ya"), yb = sym_i16("yb");
	}
	else
	{
		int R = which == 2 ? 12 : 100;
		xa = (int16_t)sym_int("xa", -R, R), xb = (int16_t)sym_int("xb", -R, R);
		ya = which != 1 ? (int16_t)sym_int("ya", -R, R) : xa, yb = which != 0 ? (int16_t)sym_int("yb", -R, R) : xb;
	}
	const A xA(xa), yA(ya);
	const B xB(xb), yB(yb);
	Q x(xA, xB), y(yA, yB);
	int64_t d = x.distance2(y);
	sym_check(d == y.distance2(x), "Q02/distance symmetric");
	sym_check(d >= 0, "Q02/distance non negative");
	if (which != 3) sym_check((d == 0) == (x == y), "Q02/distance zero iff equal");
	int64_t da = (int64_t)xA.get_val() - yA.get_val(), db = (int64_t)xB.get_val() - yB.get_val();
	sym_check(d == da * da + db * db, "Q02/distance is the sum of the squared differences");
	any_quantity ax(x), ay(y);
	sym_check(distance2(ax, ay) == d, "Q02/erased distance");
}
ENTRY(q02_composite)
{
	if (a0 == 0) composite<C<2>, Z, C<6>>();
	if (a0 == 1) composite<Z, Z, C<3>>();
}
ENTRY(q02_erased)
{
	if (a0 == 0) erased<C<2>, Z, C<6>>();
	if (a0 == 1) erased<Z, Z, C<3>>();
}
ENTRY(q02_order)
{
	if (a0 == 0) composite_order<C<2>, Z, C<6>>();
	if (a0 == 1) composite_order<Z, Z, C<3>>();
}
ENTRY(q02_distance)
{
	if (a0 == 0) composite_distance<Z, Z>(a1);
	if (a0 == 1) composite_distance<C<5>, Z>(a1);
}
// ---------------------------------------------------------------- Q03
using QA = quantity<C<2>, Z>;
using QB = quantity<Z, C<2>>;
static bool isA(any_quantity_cref q, const QA &a) { return throws([&] { (void)(q == a); }) ? false : q == a; }
template <class QX, class QY>
static void mixing(const QX &x, const QY &y)
{
	any_quantity ax(x), ay(y);
	int op = sym_choose("op", 16);
	bool raised = true, different = false;
	try
	{
		switch (op)
		{
		case 0: different = !(ax == ay); break;
		case 1: different = ax != ay; break;
		case 2: (void)(ax < ay); break;
		case 3: (void)(ax > ay); break;
		case 4: (void)(ax * ay); break;
		case 5: (void)(ax + ay); break;
		case 6: ax *= ay; break;
		case 7: ax += ay; break;
		case 8: ax.op(ay, true); break;
		case 9: ax.get().op(ay); break;
		case 10: ax.get().op_to(ay); break;
		case 11: (void)distance2(ax, ay); break;
		case 12: ax.swap(ay.get()); break;
		case 13: (void)(any_quantity(ax) * ay); break;
		case 14: (void)(ax * any_quantity(ay)); break;
		case 15: (void)(any_quantity(ax) * any_quantity(ay)); break;
		}
		raised = false;
	}
	catch (std::bad_cast &)
	{
	}
	sym_check(raised || different, "Q03/mixing rejected");
	sym_check(ax.get().same_type(x) && ax == any_quantity(x), "Q03/left operand kept");
	sym_check(ay.get().same_type(y) && ay == any_quantity(y), "Q03/right operand kept");
	sym_check(!ax.get().same_type(ay), "Q03/types differ");
}
template <class QX, class QY>
static void assigning(const QX &x, const QY &y)
{
	const any_quantity src(y);
	any_quantity q(x);
	int op = sym_choose("form", 5);
	switch (op)
	{
	case 0: q = src; break;
	case 1: q = any_quantity(y); break;
	case 2: q = src.get(); break;
	case 3:
	{
		any_quantity m(y);
		q = m.get();
		break;
	}
	case 4:
	{
		any_quantity m(y);
		q.swap(m);
		sym_check(m.get().same_type(x) && m == any_quantity(x), "Q03/swap exchanges");
		break;
	}
	}
	sym_check(q.get().same_type(y), "Q03/assignment replaces the type");
	sym_check(q == src, "Q03/assignment replaces the value");
}
ENTRY(q03_mixing)
{
	int16_t a = sym_i16("a"), b = sym_i16("b"), c = sym_i16("c"), d = sym_i16("d");
	if (a0 == 0) mixing(QA(a, b), QB(c, d));
	if (a0 == 1) mixing(quantity<Z>(Z(a)), quantity<C<3>>(C<3>(b)));
	if (a0 == 2) mixing(quantity<Z, Z>(a, b), quantity<Z>(Z(c)));
	if (a0 == 3) mixing(quantity<C<2>>(C<2>(a)), quantity<C<4>>(C<4>(b)));
}
ENTRY(q03_assign)
{
	int16_t a = sym_i16("a"), b = sym_i16("b"), c = sym_i16("c"), d = sym_i16("d");
	if (a0 == 0) assigning(QA(a, b), QB(c, d));
	if (a0 == 1) assigning(quantity<Z>(Z(a)), quantity<C<3>>(C<3>(b)));
	if (a0 == 2) assigning(quantity<C<1>>(C<1>(0)), quantity<Z, Z>(c, d));
}
ENTRY(q03_vectors)
{
	int16_t a = sym_i16("a"), b = sym_i16("b"), c = sym_i16("c"), d = sym_i16("d");
	any_quantity va(QA(a, b)), vb(QB(c, d));
	any_quantity_vector x(2, va), y(2, vb);
	int op = sym_choose("op", 9);
	bool raised = true, different = false;
	try
	{
		switch (op)
		{
		case 0: x.push_back(vb); break;
		case 1: x.insert(x.begin(), vb); break;
		case 2: x.insert(x.begin() + 1, 2, vb); break;
		case 3: x.insert(x.begin(), y.begin(), y.end()); break;
		case 4: x.resize(4, vb); break;
		case 5: different = !(x == y); break;
		case 6: different = x != y; break;
		case 7: x[0] = y[1]; break;
		case 8: x.insert(x.begin(), y.rbegin(), y.rend()); break;
		}
		raised = false;
	}
	catch (std::bad_cast &)
	{
	}
	sym_check(raised || different, "Q03/collection mixing rejected");
	sym_check(x.size() == 2 && x[0] == va && x[1] == va, "Q03/left collection kept");
	sym_check(y.size() == 2 && y[0] == vb && y[1] == vb, "Q03/right collection kept");
	if (a0 == 1)
	{
		x = y;
		sym_check(x.size() == 2 && x[0] == vb && x[1] == vb && x == y, "Q03/collection assignment replaces");
	}
}
// ---------------------------------------------------------------- Q04
template <class Q>
static void value_semantics(const Q &x, const Q &y)
{
	int op = sym_choose("op", 8);
	any_quantity a(x), ref(x);
	any_quantity delta(y);
	switch (op)
	{
	case 0:
	{
		any_quantity b(a);
		sym_check(b == ref, "Q04/copy");
		a *= delta;
		sym_check(b == ref && a == ref * delta, "Q04/copy independent");
		b.inverse_();
		sym_check(a == ref * delta, "Q04/source independent");
		break;
	}
	case 1:
	{
		any_quantity b(std::move(a));
		sym_check(b == ref, "Q04/move");
		break;
	}
	case 2:
	{
		any_quantity b(y);
		b = a;
		a *= delta;
		sym_check(b == ref && a == ref * delta, "Q04/assign");
		break;
	}
	case 3:
	{
		any_quantity b(y);
		b = std::move(a);
		sym_check(b == ref, "Q04/move assign");
		break;
	}
	case 4:
	{
		any_quantity b(y);
		swap(a, b);
		sym_check(b == ref && a == delta, "Q04/swap");
		swap(a.get(), b.get());
		sym_check(a == ref && b == delta, "Q04/reference swap");
		break;
	}
	case 5:
	{
		a = a.get();
		sym_check(a == ref, "Q04/self assignment through a reference");
		const any_quantity &self = a;
		a = self;
		sym_check(a == ref, "Q04/self assignment");
		break;
	}
	case 6:
	{
		any_quantity b;
		sym_check(b == b.neutral(), "Q04/default constructed is neutral");
		any_quantity c(b);
		sym_check(c == b, "Q04/default copy");
		b = a;
		sym_check(b == ref, "Q04/assign to default constructed");
		any_quantity d;
		swap(d, b);
		sym_check(d == ref, "Q04/swap with default constructed");
		break;
	}
	case 7:
	{
		any_quantity b(std::move(a));
		a = b;
		sym_check(a == b && a == ref, "Q04/assign to moved from");
		any_quantity c(std::move(a));
		a = std::move(b);
		sym_check(a == ref && c == ref, "Q04/move assign to moved from");
		break;
	}
	}
}
ENTRY(q04_quantity)
{
	int16_t a = sym_i16("a"), b = sym_i16("b"), c = sym_i16("c"), d = sym_i16("d");
	if (a0 == 0) value_semantics(QA(a, b), QA(c, d));
	if (a0 == 1) value_semantics(quantity<Z>(Z(a)), quantity<Z>(Z(c)));
}
static QA elem(int i)
{
	static const char *const n[] = {"e0", "e1", "e2", "e3", "e4", "e5"};
	int16_t v = sym_i16(n[i]);
	return QA(C<2>(v), Z(v));
}
static any_quantity_vector mkvec(const std::vector<QA> &v)
{
	any_quantity_vector r;
	for (auto &x : v) r.push_back(x);
	return r;
}
static void same(const any_quantity_vector &a, const std::vector<QA> &v, const char *id)
{
	sym_check(a.size() == v.size(), id);
	sym_check(a.empty() == v.empty(), id);
	if (a.size() != v.size()) return;
	for (size_t i = 0; i < v.size(); i++) sym_check(a[i] == v[i], id);
	size_t i = 0;
	for (auto it = a.begin(); it != a.end(); ++it, ++i) sym_check(i < v.size() && *it == v[i], id);
	sym_check(i == v.size(), id);
}
ENTRY(q04_vector)
{
	int n = sym_choose("n", 4);
	bool cleared = n == 0 && sym_choose("emptied", 2);
	std::vector<QA> m;
	for (int i = 0; i < n; i++) m.push_back(elem(i));
	any_quantity_vector a = mkvec(m); // default constructed when n==0
	if (cleared)
	{
		a.push_back(elem(5));
		a.clear();
	}
	QA other = elem(4);
	switch (sym_choose("op", 9))
	{
	case 0:
	{
		any_quantity_vector b(a);
		same(b, m, "Q04/vector copy");
		sym_check(b == a && !(b != a), "Q04/vector copy equal");
		for (size_t i = 0; i < a.size(); i++) a[i] *= other;
		a.push_back(other);
		same(b, m, "Q04/vector copy independent");
		break;
	}
	case 1:
	{
		any_quantity_vector b(std::move(a));
		same(b, m, "Q04/vector move");
		break;
	}
	case 2:
	{
		any_quantity_vector b(2, other);
		b = a;
		same(b, m, "Q04/vector assign");
		a.push_back(other);
		same(b, m, "Q04/vector assign independent");
		break;
	}
	case 3:
	{
		any_quantity_vector b(2, other);
		swap(a, b);
		same(b, m, "Q04/vector swap");
		same(a, {other, other}, "Q04/vector swap");
		break;
	}
	case 4:
	{
		quantity_vector<QA> c;
		for (auto &x : m) c.push_back(x);
		any_quantity_vector b(static_cast<const vquantity_vector &>(c));
		same(b, m, "Q04/vector from concrete");
		any_quantity_vector d(std::move(c));
		same(d, m, "Q04/vector from concrete rvalue");
		break;
	}
	case 5:
	{
		any_quantity_vector b;
		same(b, {}, "Q04/default vector");
		any_quantity_vector c(b);
		same(c, {}, "Q04/default vector copy");
		b = a;
		same(b, m, "Q04/assign to default vector");
		sym_check((c == a) == (m.empty()), "Q04/default vector equals empty ones only");
		sym_check((a == c) == (m.empty()), "Q04/equality symmetric");
		break;
	}
	case 6:
	{
		any_quantity_vector &self = a;
		a = self;
		same(a, m, "Q04/vector self assign");
		break;
	}
	case 7:
	{
		if (n == 0) break;
		int k = sym_choose("k", n);
		a[k] = other;
		m[k] = other;
		same(a, m, "Q04/element write");
		a.at(k) *= m[0];
		m[k].op(QA(m[0]));
		same(a, m, "Q04/element modify");
		any_quantity_ref r = a[k];
		r.inverse_();
		m[k].inverse_();
		same(a, m, "Q04/reference write");
		sym_check(a.front() == m.front() && a.back() == m.back(), "Q04/front and back");
		break;
	}
	case 8:
	{
		sym_check(throws([&] { (void)a.at(n); }), "Q04/at past the end rejected");
		any_quantity_vector b(m.size(), other);
		bool eq = true;
		for (auto &x : m) eq = eq & (x == other);
		sym_check((a == b) == eq, "Q04/vector equality elementwise");
		if (n)
		{
			b.pop_back();
			sym_check(a != b, "Q04/vectors of different length differ");
		}
		break;
	}
	}
}
// ---------------------------------------------------------------- Q05
static QA elemD(int i)
{
	int16_t v = sym_i16("v");
	(void)i;
	return QA(C<2>(v), Z(v));
}
ENTRY(q05_sequence)
{
	int n = sym_choose("n", a0);
	std::vector<QA> m;
	for (int i = 0; i < n; i++) m.push_back(elemD(i));
	any_quantity_vector a = mkvec(m);
	for (int step = 0; step < a1; step++)
	{
		n = (int)m.size();
		QA x = elemD(0);
		switch (sym_choose("op", 14))
		{
		case 0:
			a.push_back(x);
			m.push_back(x);
			break;
		case 1:
			if (n == 0) break;
			a.pop_back();
			m.pop_back();
			break;
		case 2:
		{
			if (n == 0) break;
			int k = sym_choose("pos", n + 1);
			auto it = a.insert(a.begin() + k, x);
			m.insert(m.begin() + k, x);
			sym_check(it - a.begin() == k && *it == x, "Q05/insert result");
			break;
		}
		case 3:
		{
			if (n == 0) break;
			int k = sym_choose("pos", n + 1), c = sym_choose("count", 3);
			auto it = a.insert(a.begin() + k, c, x);
			m.insert(m.begin() + k, c, x);
			sym_check(it - a.begin() == k, "Q05/insert count result");
			break;
		}
		case 4:
		{
			if (n == 0) break;
			std::vector<QA> w{x, m[0]};
			any_quantity_vector wa = mkvec(w);
			int k = sym_choose("pos", n + 1);
			if (sym_choose("reverse", 2))
			{
				a.insert(a.begin() + k, wa.rbegin(), wa.rend());
				m.insert(m.begin() + k, w.rbegin(), w.rend());
			}
			else
			{
				a.insert(a.begin() + k, wa.begin(), wa.end());
				m.insert(m.begin() + k, w.begin(), w.end());
			}
			break;
		}
		case 5:
		{
			if (n == 0) break;
			int k = sym_choose("pos", n);
			auto it = a.erase(a.begin() + k);
			m.erase(m.begin() + k);
			sym_check(it - a.begin() == k, "Q05/erase result");
			break;
		}
		case 6:
		{
			if (n == 0) break;
			int k = sym_choose("pos", n), l = k + sym_choose("len", n - k + 1);
			auto it = a.erase(a.begin() + k, a.begin() + l);
			m.erase(m.begin() + k, m.begin() + l);
			sym_check(it - a.begin() == k, "Q05/erase range result");
			break;
		}
		case 7:
		{
			int k = sym_choose("size", 5);
			a.resize(k, x);
			m.resize(k, x);
			break;
		}
		case 8:
		{
			if (n == 0) break;
			int k = sym_choose("size", 5);
			a.resize(k);
			m.resize(k);
			break;
		}
		case 9:
			a.clear();
			m.clear();
			break;
		case 10:
		{
			// iteration, both directions, arithmetic on iterators
			if (n == 0) break;
			int i = n;
			for (auto it = a.rbegin(); it != a.rend(); ++it) sym_check(--i >= 0 && *it == m[i], "Q05/reverse iteration");
			sym_check(i == 0, "Q05/reverse iteration length");
			for (int k = 0; k < n; k++) sym_check(*(a.begin() + k) == m[k] && *(a.end() - (n - k)) == m[k] && a.begin()[k] == m[k], "Q05/random access");
			sym_check(a.end() - a.begin() == n, "Q05/distance");
			break;
		}
		case 11:
			if (throws([&] { a.reserve(n + 3); })) sym_check(n == 0, "Q05/reserve refused only without a type");
			a.shrink_to_fit();
			break;
		case 12:
		{
			// writing through iterators
			for (auto it = a.begin(); it != a.end(); ++it) (*it) *= x;
			for (auto &y : m) y.op(QA(x));
			break;
		}
		case 13:
		{
			// the collection's own element as the argument, with and without spare capacity
			if (n == 0) break;
			int k = sym_choose("elem", n);
			QA y = m[k];
			if (sym_choose("shrink", 2)) a.shrink_to_fit();
			switch (sym_choose("form", 4))
			{
			case 0:
				a.push_back(a[k]);
				m.push_back(y);
				break;
			case 1:
				a.insert(a.begin(), a[k]);
				m.insert(m.begin(), y);
				break;
			case 2:
				a.insert(a.begin() + k, 2, a[k]);
				m.insert(m.begin() + k, 2, y);
				break;
			case 3:
				a.resize(n + 2, a[k]);
				m.resize(n + 2, y);
				break;
			}
			break;
		}
		}
		same(a, m, "Q05/same sequence");
	}
}
// permutation of groups of values, as used for the sections of each dimension
ENTRY(q05_permute)
{
	int64_t rep[3];
	std::vector<int64_t> reps;
	std::vector<std::vector<QA>> groups;
	any_quantity_vector a;
	for (int i = 0; i < 3; i++)
	{
		rep[i] = sym_choose("rep", a0);
		reps.push_back(rep[i]);
		groups.emplace_back();
		for (int k = 0; k < rep[i]; k++)
		{
			groups[i].push_back(elemD(0));
			a.push_back(groups[i].back());
		}
	}
	if (a.begin() == a.end()) return;
	int64_t perm[3], inv[3];
	perm[0] = sym_choose("p0", 3);
	perm[1] = (perm[0] + 1 + sym_choose("p1", 2)) % 3;
	perm[2] = 3 - perm[0] - perm[1];
	any_quantity_vector p = a.permute(perm, perm + 3, reps);
	std::vector<QA> want;
	std::vector<int64_t> prep;
	for (int i = 0; i < 3; i++)
	{
		inv[perm[i]] = i;
		prep.push_back(reps[perm[i]]);
		for (auto &x : groups[perm[i]]) want.push_back(x);
	}
	same(p, want, "Q05/permuted groups");
	any_quantity_vector back = p.permute(inv, inv + 3, prep);
	sym_check(back == a, "Q05/inverse permutation restores");
}
// sorting and unique through the erased iterators
ENTRY(q05_sort)
{
	int n = a0;
	std::vector<QA> m;
	for (int i = 0; i < n; i++)
	{
		int16_t v = sym_i16("v");
		m.push_back(QA(C<2>(0), Z(v)));
	}
	any_quantity_vector a = mkvec(m);
	std::sort(a.begin(), a.end());
	for (int i = 0; i + 1 < n; i++) sym_check(!(a[i + 1] < a[i]), "Q05/sorted");
	for (int i = 0; i < n; i++)
	{
		int ca = 0, cm = 0;
		for (int k = 0; k < n; k++)
		{
			ca += a[k] == m[i];
			cm += m[k] == m[i];
		}
		sym_check(ca == cm, "Q05/sort keeps the values");
	}
	std::reverse(a.begin(), a.end());
	for (int i = 0; i + 1 < n; i++) sym_check(!(a[i] < a[i + 1]), "Q05/reversed");
}
