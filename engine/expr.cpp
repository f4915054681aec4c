#include "expr.h"
Arena arena;
std::vector<Expr *> htab(1 << 16, nullptr);
size_t hcount = 0;
u32 nextId = 1;
bool exprUnsupported = false;
Expr *mk(u8 op, u8 w, u64 c, Expr *a, Expr *b, Expr *d)
{
	size_t h = hashE(op, w, c, a, b, d);
	size_t m = htab.size() - 1;
	for (size_t i = h & m;; i = (i + 1) & m)
	{
		Expr *e = htab[i];
		if (!e)
		{
			if (hcount * 2 > htab.size())
			{
				std::vector<Expr *> old;
				old.swap(htab);
				htab.assign(old.size() * 2, nullptr);
				size_t mm = htab.size() - 1;
				for (Expr *x : old)
					if (x)
					{
						size_t hh = hashE(x->op, x->w, x->c, x->a[0], x->a[1], x->a[2]) & mm;
						while (htab[hh]) hh = (hh + 1) & mm;
						htab[hh] = x;
					}
				return mk(op, w, c, a, b, d);
			}
			Expr *n = arena.alloc();
			n->op = op;
			n->w = w;
			n->c = c;
			n->a[0] = a;
			n->a[1] = b;
			n->a[2] = d;
			n->n = d ? 3 : b ? 2 : a ? 1 : 0;
			n->id = nextId++;
			n->z = nullptr;
			n->ep = 0;
			n->ev = 0;
			n->flags = (a ? a->flags : 0) | (b ? b->flags : 0) | (d ? d->flags : 0);
			if (op == XVAR) n->flags = F_BV;
			if (op == RVAR) n->flags = F_REAL;
			htab[i] = n;
			hcount++;
			return n;
		}
		if (e->op == op && e->w == w && e->c == c && e->a[0] == a && e->a[1] == b && e->a[2] == d) return e;
	}
}
u64 foldBin(u8 op, u8 w, u64 a, u64 b)
{
	u64 m = maskw(w);
	a &= m;
	b &= m;
	switch (op)
	{
	case XADD: return (a + b) & m;
	case XSUB: return (a - b) & m;
	case XMUL: return (a * b) & m;
	case XUDIV: return b ? a / b : m;
	case XUREM: return b ? a % b : a;
	case XSDIV:
	{
		i64 x = sx(a, w), y = sx(b, w);
		if (!y) return x < 0 ? 1 : m;
		if (y == -1) return (0 - a) & m;
		return (u64)(x / y) & m;
	}
	case XSREM:
	{
		i64 x = sx(a, w), y = sx(b, w);
		if (!y) return a;
		if (y == -1) return 0;
		return (u64)(x % y) & m;
	}
	case XSHL: return b >= w ? 0 : (a << b) & m;
	case XLSHR: return b >= w ? 0 : a >> b;
	case XASHR: return (u64)(sx(a, w) >> (b >= w ? w - 1 : b)) & m;
	case XAND: return a & b;
	case XOR_: return a | b;
	case XXOR: return a ^ b;
	case XEQ: return a == b;
	case XULT: return a < b;
	case XULE: return a <= b;
	case XSLT: return sx(a, w) < sx(b, w);
	case XSLE: return sx(a, w) <= sx(b, w);
	}
	abort();
}
static bool constArms(Expr *e) { return e->op == XITE && e->a[1]->op == XCONST && e->a[2]->op == XCONST; }
Val mkNot(Val a)
{
	if (!a.e) return V(!a.c);
	if (a.e->op == XNOT) return VE(a.e->a[0]);
	if (a.e->op == XCONST) return V(!a.e->c);
	return VE(mk(XNOT, 1, 0, a.e));
}
Val mkIte(u8 w, Val c, Val a, Val b)
{
	if (!c.e) return c.c ? a : b;
	if (!a.e && !b.e && a.c == b.c) return a;
	if (a.e && a.e == b.e) return a;
	if (c.e->op == XNOT) return mkIte(w, VE(c.e->a[0]), b, a);
	if (w == 1)
	{
		if (!a.e && !b.e) return a.c ? c : mkNot(c);
		if (!a.e) return a.c ? mkBin(XOR_, 1, c, b) : mkBin(XAND, 1, mkNot(c), b);
		if (!b.e) return b.c ? mkBin(XOR_, 1, mkNot(c), a) : mkBin(XAND, 1, c, a);
	}
	return VE(mk(XITE, w, 0, c.e, toE(a, w), toE(b, w)));
}
Val mkRIte(Val c, Val a, Val b)
{
	if (!c.e) return c.c ? a : b;
	Expr *x = rE(a), *y = rE(b);
	if (x == y) return a;
	if (c.e->op == XNOT) return mkRIte(VE(c.e->a[0]), b, a);
	return VE(mk(RITE, 0, 0, c.e, x, y));
}
static bool isCmp(u8 op) { return op >= XEQ && op <= XSLE; }
Val mkBin(u8 op, u8 w, Val a, Val b)
{
	if (!a.e && !b.e) return V(foldBin(op, w, a.c, b.c));
	u64 m = maskw(w);
	bool comm = op == XADD || op == XMUL || op == XAND || op == XOR_ || op == XXOR || op == XEQ;
	if (comm && !a.e) std::swap(a, b);
	if (comm && a.e && b.e && a.e->id > b.e->id) std::swap(a, b);
	if (w == 1)
	{
		// boolean
		if (op == XADD || op == XSUB) op = XXOR;
		if (op == XMUL) op = XAND;
		if (op == XEQ)
		{
			if (!b.e) return b.c & 1 ? a : mkNot(a);
			if (a.e == b.e) return V(1);
		}
		if (op == XXOR)
		{
			if (!b.e) return b.c & 1 ? mkNot(a) : a;
			if (a.e == b.e) return V(0);
		}
		if (op == XAND)
		{
			if (!b.e) return b.c & 1 ? a : V(0);
			if (a.e == b.e) return a;
			if ((a.e->op == XNOT && a.e->a[0] == b.e) || (b.e->op == XNOT && b.e->a[0] == a.e)) return V(0);
		}
		if (op == XOR_)
		{
			if (!b.e) return b.c & 1 ? V(1) : a;
			if (a.e == b.e) return a;
			if ((a.e->op == XNOT && a.e->a[0] == b.e) || (b.e->op == XNOT && b.e->a[0] == a.e)) return V(1);
		}
		if (op == XULT) return mkBin(XAND, 1, mkNot(a), b);
		if (op == XULE) return mkBin(XOR_, 1, mkNot(a), b);
		if (op == XSLT) return mkBin(XAND, 1, a, mkNot(b));
		if (op == XSLE) return mkBin(XOR_, 1, a, mkNot(b));
	}
	else
	{
		if (a.e && b.e && a.e == b.e)
			switch (op)
			{
			case XSUB: case XXOR: return V(0);
			case XAND: case XOR_: return a;
			case XEQ: case XULE: case XSLE: return V(1);
			case XULT: case XSLT: return V(0);
			default: break;
			}
		if (op == XSUB && !b.e) { op = XADD; b = V((0 - b.c) & m); }
		if (!b.e)
		{
			u64 k = b.c & m;
			b.c = k;
			if (k == 0)
				switch (op)
				{
				case XADD: case XSUB: case XOR_: case XXOR: case XSHL: case XLSHR: case XASHR: return a;
				case XMUL: case XAND: return V(0);
				case XULT: return V(0);
				default: break;
				}
			if (k == 1 && (op == XMUL || op == XUDIV || op == XSDIV)) return a;
			if (k == 1 && (op == XUREM || op == XSREM)) return V(0);
			if (k == m && op == XAND) return a;
			if (k == m && op == XOR_) return V(m);
			if (op == XADD && a.e->op == XADD && a.e->a[1]->op == XCONST)
				return mkBin(XADD, w, VE(a.e->a[0]), V((a.e->a[1]->c + k) & m));
			if (op == XEQ && a.e->op == XADD && a.e->a[1]->op == XCONST)
				return mkBin(XEQ, w, VE(a.e->a[0]), V((k - a.e->a[1]->c) & m));
			if (op == XEQ && (a.e->op == XZEXT || a.e->op == XSEXT))
			{
				Expr *x = a.e->a[0];
				u64 t = k & maskw(x->w);
				u64 back = a.e->op == XZEXT ? t : ((u64)sx(t, x->w) & m);
				if (back != k) return V(0);
				return mkBin(XEQ, x->w, VE(x), V(t));
			}
			if ((op == XULT || op == XSLT || op == XULE || op == XSLE) && a.e->op == XZEXT && k <= maskw(a.e->a[0]->w) && a.e->a[0]->w < w && (i64)sx(k, w) >= 0)
				return mkBin(op == XULT || op == XSLT ? XULT : XULE, a.e->a[0]->w, VE(a.e->a[0]), V(k));
		}
		if (a.e && !b.e && constArms(a.e))
		{
			Val x = V(foldBin(op, w, a.e->a[1]->c, b.c)), y = V(foldBin(op, w, a.e->a[2]->c, b.c));
			return mkIte(isCmp(op) ? 1 : w, VE(a.e->a[0]), x, y);
		}
		if (b.e && !a.e && constArms(b.e))
		{
			Val x = V(foldBin(op, w, a.c, b.e->a[1]->c)), y = V(foldBin(op, w, a.c, b.e->a[2]->c));
			return mkIte(isCmp(op) ? 1 : w, VE(b.e->a[0]), x, y);
		}
		if (op == XEQ && a.e && b.e && a.e->op == b.e->op && (a.e->op == XZEXT || a.e->op == XSEXT) && a.e->a[0]->w == b.e->a[0]->w)
			return mkBin(XEQ, a.e->a[0]->w, VE(a.e->a[0]), VE(b.e->a[0]));
	}
	return VE(mk(op, isCmp(op) ? 1 : w, 0, toE(a, w), toE(b, w)));
}
Val mkExt(u8 op, u8 from, u8 to, Val a)
{
	if (from == to) return a;
	if (!a.e) return V(op == XZEXT ? (a.c & maskw(from)) : ((u64)sx(a.c, from) & maskw(to)));
	if (from == 1)
		return VE(mk(XITE, to, 0, a.e, kE(op == XZEXT ? 1 : maskw(to), to), kE(0, to)));
	if (constArms(a.e))
	{
		Val x = mkExt(op, from, to, V(a.e->a[1]->c)), y = mkExt(op, from, to, V(a.e->a[2]->c));
		return mkIte(to, VE(a.e->a[0]), x, y);
	}
	if (a.e->op == XZEXT) return mkExt(XZEXT, a.e->a[0]->w, to, VE(a.e->a[0]));
	if (a.e->op == XSEXT && op == XSEXT) return mkExt(XSEXT, a.e->a[0]->w, to, VE(a.e->a[0]));
	return VE(mk(op, to, 0, a.e));
}
Val mkExtract(u8 lo, u8 w, u8 from, Val a)
{
	if (lo == 0 && w == from) return a;
	if (!a.e) return V((a.c >> lo) & maskw(w));
	Expr *e = a.e;
	if (e->op == RBITS) { exprUnsupported = true; return Val{0, nullptr}; }
	if (constArms(e))
		return mkIte(w, VE(e->a[0]), V((e->a[1]->c >> lo) & maskw(w)), V((e->a[2]->c >> lo) & maskw(w)));
	if (e->op == XZEXT || e->op == XSEXT)
	{
		u8 iw = e->a[0]->w;
		if (lo + w <= iw) return mkExtract(lo, w, iw, VE(e->a[0]));
		if (lo == 0 && w > iw) return mkExt(e->op, iw, w, VE(e->a[0]));
		if (e->op == XZEXT && lo >= iw) return V(0);
	}
	if (e->op == XCONCAT)
	{
		u8 lw = e->a[1]->w;
		if (lo + w <= lw) return mkExtract(lo, w, lw, VE(e->a[1]));
		if (lo >= lw) return mkExtract(lo - lw, w, e->a[0]->w, VE(e->a[0]));
	}
	if (e->op == XEXTRACT) return mkExtract(lo + (u8)e->c, w, e->a[0]->w, VE(e->a[0]));
	if (lo == 0 && w > 1 && (e->op == XADD || e->op == XSUB || e->op == XMUL || e->op == XAND || e->op == XOR_ || e->op == XXOR))
		return mkBin(e->op, w, mkExtract(0, w, from, VE(e->a[0])), mkExtract(0, w, from, VE(e->a[1])));
	return VE(mk(XEXTRACT, w, lo, e));
}
Val mkConcat(u8 whi, u8 wlo, Val hi, Val lo)
{
	u8 w = whi + wlo;
	if (!hi.e && !lo.e) return V((hi.c << wlo) | (lo.c & maskw(wlo)));
	if (!hi.e && (hi.c & maskw(whi)) == 0) return mkExt(XZEXT, wlo, w, lo);
	if (hi.e && lo.e && hi.e->op == XEXTRACT && lo.e->op == XEXTRACT && hi.e->a[0] == lo.e->a[0] && hi.e->c == lo.e->c + wlo)
		return mkExtract((u8)lo.e->c, w, hi.e->a[0]->w, VE(hi.e->a[0]));
	return VE(mk(XCONCAT, w, 0, toE(hi, whi), toE(lo, wlo)));
}
static bool isK(Val v, double d) { return !v.e && asD(v.c) == d; }
Val mkR(u8 op, Val a, Val b)
{
	switch (op)
	{
	case RADD:
		if (isK(a, 0)) return b;
		if (isK(b, 0)) return a;
		break;
	case RSUB:
		if (isK(b, 0)) return a;
		if (a.e && b.e && rE(a) == rE(b)) return V(fromD(0));
		if (isK(a, 0)) return mkR(RNEG, b, V(0));
		break;
	case RMUL:
		if (isK(a, 0) || isK(b, 0)) return V(fromD(0));
		if (isK(a, 1)) return b;
		if (isK(b, 1)) return a;
		if (isK(a, -1)) return mkR(RNEG, b, V(0));
		if (isK(b, -1)) return mkR(RNEG, a, V(0));
		break;
	case RDIV:
		if (isK(a, 0)) return V(fromD(0));
		if (isK(b, 1)) return a;
		break;
	case RNEG:
		if (a.e && rE(a)->op == RNEG) return VE(rE(a)->a[0]);
		return VE(mk(RNEG, 0, 0, rE(a)));
	}
	Expr *x = rE(a), *y = rE(b);
	if ((op == RADD || op == RMUL) && x->id > y->id) std::swap(x, y);
	if (op == RLT || op == RLE || op == REQ)
	{
		if (x == y) return V(op != RLT);
		for (int k = 0; k < 2; k++)
		{
			Expr *i = k ? y : x, *c = k ? x : y;
			if (i->op != RITE || c->op != RCONST || i->a[1]->op != RCONST || i->a[2]->op != RCONST) continue;
			auto f = [&](Expr *arm) {
				double p = asD(k ? c->c : arm->c), q = asD(k ? arm->c : c->c);
				return op == RLT ? p < q : op == RLE ? p <= q : p == q;
			};
			bool t = f(i->a[1]), e = f(i->a[2]);
			return t == e ? V(t) : t ? VE(i->a[0]) : mkNot(VE(i->a[0]));
		}
		if (op == REQ && x->id > y->id) std::swap(x, y);
		return VE(mk(op, 1, 0, x, y));
	}
	return VE(mk(op, 0, 0, x, y));
}
std::string exprStr(Expr *e, int depth)
{
	static const char *nm[] = {"k", "v", "+", "-", "*", "/u", "/s", "%u", "%s", "<<", ">>u", ">>s", "&", "|", "^", "==", "<u", "<=u", "<s", "<=s", "!", "ite", "zext", "sext", "extract", "concat", "rk", "rv", "+.", "-.", "*.", "/.", "-.", "<.", "<=.", "==.", "rite", "bits"};
	if (e->op == XCONST) return std::to_string(sx(e->c, e->w));
	if (e->op == RCONST) return std::to_string(asD(e->c));
	if (e->op == XVAR || e->op == RVAR) return std::string(e->op == XVAR ? "v" : "r") + std::to_string(e->c);
	if (depth <= 0) return "..";
	std::string s = std::string("(") + nm[e->op];
	for (int i = 0; i < e->n; i++)
		if (e->a[i]) s += " " + exprStr(e->a[i], depth - 1);
	return s + ")";
}
