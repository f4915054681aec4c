// Expression DAG: bit vectors up to 64 bits (width 1 is boolean) and reals.
#pragma once
#include <cassert>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <string>
#include <unordered_map>
#include <vector>
#include <z3.h>
typedef uint8_t u8;
typedef uint16_t u16;
typedef uint32_t u32;
typedef uint64_t u64;
typedef int64_t i64;
enum Op : u8
{
	XCONST, XVAR,
	XADD, XSUB, XMUL, XUDIV, XSDIV, XUREM, XSREM, XSHL, XLSHR, XASHR, XAND, XOR_, XXOR,
	XEQ, XULT, XULE, XSLT, XSLE, XNOT,
	XITE, XZEXT, XSEXT, XEXTRACT, XCONCAT,
	// reals
	RCONST, RVAR, RADD, RSUB, RMUL, RDIV, RNEG, RLT, RLE, REQ, RITE, RBITS,
};
enum { F_BV = 1, F_REAL = 2 };
struct Expr
{
	u8 op, w, flags, n; // w==0: real sort
	u32 id;
	u64 c;
	Expr *a[3];
	Z3_ast z;
	u32 ep;
	u64 ev;
};
struct Val
{
	u64 c;
	Expr *e;
};
static inline Val V(u64 c) { return Val{c, nullptr}; }
static inline Val VE(Expr *e);
static inline u64 maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline i64 sx(u64 v, unsigned w)
{
	if (w >= 64) return (i64)v;
	return (i64)(v << (64 - w)) >> (64 - w);
}
static inline double asD(u64 c)
{
	double d;
	memcpy(&d, &c, 8);
	return d;
}
static inline u64 fromD(double d)
{
	u64 c;
	memcpy(&c, &d, 8);
	return c;
}
struct Arena
{
	std::vector<Expr *> blocks;
	size_t used = 1 << 12;
	Expr *alloc()
	{
		if (used >= (1 << 12))
		{
			blocks.push_back((Expr *)malloc(sizeof(Expr) << 12));
			used = 0;
		}
		return blocks.back() + used++;
	}
};
extern Arena arena;
extern std::vector<Expr *> htab;
extern size_t hcount;
extern u32 nextId;
extern bool exprUnsupported;
static inline size_t hashE(u8 op, u8 w, u64 c, Expr *a, Expr *b, Expr *d)
{
	u64 h = op * 0x9E3779B97F4A7C15ull + w;
	auto mixh = [&](u64 x) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 29; };
	mixh(c);
	mixh(a ? a->id : 0);
	mixh(b ? b->id : 0);
	mixh(d ? d->id : 0);
	return h;
}
Expr *mk(u8 op, u8 w, u64 c, Expr *a = nullptr, Expr *b = nullptr, Expr *d = nullptr);
static inline Expr *kE(u64 c, u8 w) { return mk(XCONST, w, c & maskw(w)); }
static inline Expr *toE(Val v, u8 w) { return v.e ? v.e : kE(v.c, w); }
static inline Val VE(Expr *e)
{
	if (e->op == XCONST) return V(e->c);
	if (e->op == RCONST) return V(e->c);
	if (e->op == RBITS && e->a[0]->op == RCONST) return V(e->a[0]->c);
	return Val{0, e};
}
static inline Expr *rE(Val v) // real sort expression of a double value
{
	if (!v.e) return mk(RCONST, 0, v.c);
	if (v.e->op == RBITS) return v.e->a[0];
	return v.e;
}
Val mkBin(u8 op, u8 w, Val a, Val b);   // w: width of the operands
Val mkNot(Val a);                       // bool
Val mkIte(u8 w, Val c, Val a, Val b);   // bit vectors
Val mkRIte(Val c, Val a, Val b);
Val mkExt(u8 op, u8 from, u8 to, Val a);
Val mkExtract(u8 lo, u8 w, u8 from, Val a);
Val mkConcat(u8 whi, u8 wlo, Val hi, Val lo);
Val mkR(u8 op, Val a, Val b);
u64 foldBin(u8 op, u8 w, u64 a, u64 b);
std::string exprStr(Expr *e, int depth = 6);
