// qsym: a small forking symbolic executor for LLVM 18 bitcode on top of z3.
//
// usage: qsym module.bc --out DIR --jobs N --timeout SECONDS entry[:arg,..] ...
//
// Every entry function is executed with symbolic inputs (qsym.h).  Each branch
// whose outcome is not determined by the path condition is explored on both
// sides (the process forks); checks are discharged by the solver under the path
// condition, for every value of the inputs.
#include "expr.h"
#include <algorithm>
#include <cmath>
#include <csignal>
#include <cstring>
#include <cstdarg>
#include <cstdio>
#include <ctime>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <map>
#include <semaphore.h>
#include <unordered_set>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
using namespace llvm;
typedef ::Val QV;
#define Val QV

// ------------------------------------------------------------------ shared
typedef int32_t i32;
struct CheckStat
{
	char id[64];
	u64 evaluated, symbolic, violated;
};
enum { MAXENT = 128, MAXCHK = 512, MAXCOV = 512, MAXFN = 8192 };
struct EntryStat
{
	u64 paths, infeasible, inconclusive, timeouts, instrs, branches, forks, violations, assumes_cut, samples;
	u64 ns;
	char reason[512];
};
struct Shared
{
	sem_t tokens;
	sem_t lock;
	u64 queries, unknown, solver_ns, simplified, stop, viol_files, audited;
	EntryStat ent[MAXENT];
	u32 nchk;
	CheckStat chk[MAXCHK];
	u32 chkEntry[MAXCHK];
	u32 ncov;
	char cov[MAXCOV][64];
	u32 covEntry[MAXCOV];
	u64 covN[MAXCOV];
	u8 fn[MAXFN * 4];
};
static Shared *sh;
static int curEntry = -1;
static std::string entryName, entryArgs;
static EntryStat *es;
#define ATOMIC_ADD(x, n) __atomic_add_fetch(&(x), (n), __ATOMIC_RELAXED)
static std::string outDir = ".";
static u64 deadline_ns;
static u64 maxInstr = 60000000;
static int sampleMax = 4;
static bool verbose = false;
static u64 now_ns()
{
	timespec t;
	clock_gettime(CLOCK_MONOTONIC, &t);
	return (u64)t.tv_sec * 1000000000ull + t.tv_nsec;
}
static u64 localInstr = 0, pathInstr = 0;

// ------------------------------------------------------------------ solver
static Z3_context zc;
static Z3_solver sBV, sRE;
static u32 epoch = 1;
struct VarInfo
{
	std::string name;
	u8 w; // 0 real
	bool sgn;
	u64 val;
	Expr *e;
	bool aux;
	i64 add;
};
static std::vector<VarInfo> vars;
static std::map<std::string, int> nameUse;
static std::unordered_map<Expr *, bool> known;
[[noreturn]] static void endPath(int kind, const std::string &why = "");
enum { END_OK, END_INFEASIBLE, END_INCONCLUSIVE, END_TIMEOUT, END_VIOLATION, END_ASSUME };

static Z3_sort bvs(u8 w)
{
	static Z3_sort c[65];
	if (!c[w]) c[w] = Z3_mk_bv_sort(zc, w);
	return c[w];
}
static std::string pow2str(int e)
{
	std::string s = "1"; // little endian decimal digits
	for (int i = 0; i < e; i++)
	{
		int carry = 0;
		for (char &ch : s)
		{
			int d = (ch - '0') * 2 + carry;
			ch = '0' + d % 10;
			carry = d / 10;
		}
		if (carry) s.push_back('0' + carry);
	}
	return std::string(s.rbegin(), s.rend());
}
static Z3_ast realConst(double d)
{
	static Z3_sort rs = nullptr;
	if (!rs) rs = Z3_mk_real_sort(zc);
	if (d == 0) return Z3_mk_numeral(zc, "0", rs);
	int ex;
	double m = std::frexp(d, &ex);
	i64 mi = (i64)std::ldexp(m, 53);
	ex -= 53;
	while (!(mi & 1))
	{
		mi >>= 1;
		ex++;
	}
	Z3_ast num = Z3_mk_numeral(zc, std::to_string(mi).c_str(), rs);
	if (ex == 0) return num;
	Z3_ast p = Z3_mk_numeral(zc, pow2str(ex > 0 ? ex : -ex).c_str(), rs);
	Z3_ast args[2] = {num, p};
	Z3_ast r = ex > 0 ? Z3_mk_mul(zc, 2, args) : Z3_mk_div(zc, num, p);
	return Z3_simplify(zc, r);
}
static Z3_ast tr(Expr *e);
static Z3_ast asBV(Expr *e)
{
	Z3_ast z = tr(e);
	if (e->w == 1) return Z3_mk_ite(zc, z, Z3_mk_unsigned_int64(zc, 1, bvs(1)), Z3_mk_unsigned_int64(zc, 0, bvs(1)));
	return z;
}
static Z3_ast tr(Expr *e)
{
	if (e->z) return e->z;
	Z3_ast r = nullptr, x = nullptr, y = nullptr, q[2];
	switch (e->op)
	{
	case XCONST: r = e->w == 1 ? (e->c ? Z3_mk_true(zc) : Z3_mk_false(zc)) : Z3_mk_unsigned_int64(zc, e->c, bvs(e->w)); break;
	case XVAR: r = Z3_mk_const(zc, Z3_mk_string_symbol(zc, ("v" + std::to_string(e->c)).c_str()), bvs(e->w)); break;
	case RVAR: r = Z3_mk_const(zc, Z3_mk_string_symbol(zc, ("r" + std::to_string(e->c)).c_str()), Z3_mk_real_sort(zc)); break;
	case RCONST: r = realConst(asD(e->c)); break;
	case XNOT: r = Z3_mk_not(zc, tr(e->a[0])); break;
	case XITE: case RITE: r = Z3_mk_ite(zc, tr(e->a[0]), tr(e->a[1]), tr(e->a[2])); break;
	case XZEXT: r = Z3_mk_zero_ext(zc, e->w - e->a[0]->w, asBV(e->a[0])); break;
	case XSEXT: r = Z3_mk_sign_ext(zc, e->w - e->a[0]->w, asBV(e->a[0])); break;
	case XEXTRACT:
		r = Z3_mk_extract(zc, e->c + e->w - 1, e->c, asBV(e->a[0]));
		if (e->w == 1) r = Z3_mk_eq(zc, r, Z3_mk_unsigned_int64(zc, 1, bvs(1)));
		break;
	case XCONCAT: r = Z3_mk_concat(zc, asBV(e->a[0]), asBV(e->a[1])); break;
	case RNEG: r = Z3_mk_unary_minus(zc, tr(e->a[0])); break;
	default:
		x = tr(e->a[0]);
		y = tr(e->a[1]);
		q[0] = x;
		q[1] = y;
		switch (e->op)
		{
		case RADD: r = Z3_mk_add(zc, 2, q); break;
		case RSUB: r = Z3_mk_sub(zc, 2, q); break;
		case RMUL: r = Z3_mk_mul(zc, 2, q); break;
		case RDIV: r = Z3_mk_div(zc, x, y); break;
		case RLT: r = Z3_mk_lt(zc, x, y); break;
		case RLE: r = Z3_mk_le(zc, x, y); break;
		case REQ: case XEQ: r = Z3_mk_eq(zc, x, y); break;
		case XAND: r = e->w == 1 ? Z3_mk_and(zc, 2, q) : Z3_mk_bvand(zc, x, y); break;
		case XOR_: r = e->w == 1 ? Z3_mk_or(zc, 2, q) : Z3_mk_bvor(zc, x, y); break;
		case XXOR: r = e->w == 1 ? Z3_mk_xor(zc, x, y) : Z3_mk_bvxor(zc, x, y); break;
		case XADD: r = Z3_mk_bvadd(zc, x, y); break;
		case XSUB: r = Z3_mk_bvsub(zc, x, y); break;
		case XMUL: r = Z3_mk_bvmul(zc, x, y); break;
		case XUDIV: r = Z3_mk_bvudiv(zc, x, y); break;
		case XSDIV: r = Z3_mk_bvsdiv(zc, x, y); break;
		case XUREM: r = Z3_mk_bvurem(zc, x, y); break;
		case XSREM: r = Z3_mk_bvsrem(zc, x, y); break;
		case XSHL: r = Z3_mk_bvshl(zc, x, y); break;
		case XLSHR: r = Z3_mk_bvlshr(zc, x, y); break;
		case XASHR: r = Z3_mk_bvashr(zc, x, y); break;
		case XULT: r = Z3_mk_bvult(zc, x, y); break;
		case XULE: r = Z3_mk_bvule(zc, x, y); break;
		case XSLT: r = Z3_mk_bvslt(zc, x, y); break;
		case XSLE: r = Z3_mk_bvsle(zc, x, y); break;
		default: fprintf(stderr, "tr: op %d\n", e->op); abort();
		}
	}
	Z3_inc_ref(zc, r);
	e->z = r;
	return r;
}
static u64 ev(Expr *e) // bit-vector evaluation under the current model
{
	if (e->op == XCONST) return e->c;
	if (e->op == XVAR) return vars[e->c].val;
	if (e->ep == epoch) return e->ev;
	u64 r;
	switch (e->op)
	{
	case XNOT: r = !ev(e->a[0]); break;
	case XITE: r = ev(e->a[0]) ? ev(e->a[1]) : ev(e->a[2]); break;
	case XZEXT: r = ev(e->a[0]); break;
	case XSEXT: r = (u64)sx(ev(e->a[0]), e->a[0]->w) & maskw(e->w); break;
	case XEXTRACT: r = (ev(e->a[0]) >> e->c) & maskw(e->w); break;
	case XCONCAT: r = (ev(e->a[0]) << e->a[1]->w) | ev(e->a[1]); break;
	default: r = foldBin(e->op, e->a[0]->w, ev(e->a[0]), ev(e->a[1])); break;
	}
	e->ep = epoch;
	e->ev = r;
	return r;
}
static bool isReal(Expr *e) { return e->flags & F_REAL; }
static std::vector<std::pair<Expr *, bool>> bvPC; // the path condition over bit vectors
// Some solver calls (polynomial rewriting) do not stop by themselves: a process that spends too long in one gives up its path.
static volatile u64 callSince; // 0: not in a call
[[maybe_unused]] static void arm()
{
	itimerval t{{5, 0}, {5, 0}};
	setitimer(ITIMER_REAL, &t, nullptr);
}
static void reapAll();
static void onAlarm(int)
{
	u64 t = now_ns(), s = callSince;
	if (!s || (t - s < 60000000000ull && t < deadline_ns + 10000000000ull)) return;
	callSince = 0;
	ATOMIC_ADD(es->inconclusive, 1);
	if (!es->reason[0]) strcpy(es->reason, "solver call took too long");
	reapAll();
	_exit(0);
}
struct SolverCall
{
	u64 outer = callSince;
	SolverCall() { callSince = now_ns(); }
	~SolverCall() { callSince = outer; }
};
// QSYM_AUDIT: every unsatisfiability answer of the incremental solver is asked again to a fresh one
static bool auditMode = getenv("QSYM_AUDIT");
static Z3_ast tr(Expr *e);
static Z3_params freshParams;
static Z3_solver freshBV(Z3_ast cond, Z3_lbool &r)
{
	Z3_solver f = Z3_mk_solver_for_logic(zc, Z3_mk_string_symbol(zc, "QF_BV"));
	Z3_solver_inc_ref(zc, f);
	Z3_solver_set_params(zc, f, freshParams);
	for (auto &p : bvPC) Z3_solver_assert(zc, f, p.second ? tr(p.first) : Z3_mk_not(zc, tr(p.first)));
	Z3_solver_assert(zc, f, cond);
	r = Z3_solver_check(zc, f);
	return f;
}
static void recheckUnsat(Z3_ast cond)
{
	Z3_lbool r;
	SolverCall timed;
	Z3_solver_dec_ref(zc, freshBV(cond, r));
	ATOMIC_ADD(sh->audited, 1);
	if (r == Z3_L_TRUE) endPath(END_INCONCLUSIVE, "two solvers disagree");
}
static Z3_solver fallback;
// 1 sat, 0 unsat, -1 unknown
static std::vector<Z3_ast> realPC;
static Z3_solver lastRE;
static Z3_params limitParams;
static int query(Z3_solver s, Z3_ast cond)
{
	u64 t = now_ns();
	SolverCall timed;
	if (s == sRE)
	{
		// nonlinear reals: a fresh solver per query selects the decision procedure
		static Z3_symbol lg = nullptr;
		if (!lg) lg = Z3_mk_string_symbol(zc, "QF_NRA");
		s = Z3_mk_solver_for_logic(zc, lg);
		Z3_solver_inc_ref(zc, s);
		Z3_solver_set_params(zc, s, freshParams);
		for (Z3_ast a : realPC) Z3_solver_assert(zc, s, a);
		lastRE = s;
	}
	else
		Z3_solver_push(zc, s);
	Z3_solver_assert(zc, s, cond);
	Z3_lbool r = Z3_solver_check(zc, s);
	if (s == sBV && r == Z3_L_UNDEF) fallback = freshBV(cond, r); // the one-shot solver is stronger on arithmetic
	u64 dt = now_ns() - t;
	ATOMIC_ADD(sh->solver_ns, dt);
	ATOMIC_ADD(sh->queries, 1);
	if (r == Z3_L_UNDEF) ATOMIC_ADD(sh->unknown, 1);
	static const u64 slowNs = getenv("QSYM_SLOW_MS") ? (u64)atoll(getenv("QSYM_SLOW_MS")) * 1000000ull : 200000000ull;
	if (verbose && dt > slowNs) fprintf(stderr, "[slow query %.2fs r=%d] %s\n", dt / 1e9, (int)r, Z3_ast_to_string(zc, cond));
	return r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
}
static void popq(Z3_solver s)
{
	if (s == sRE) Z3_solver_dec_ref(zc, lastRE);
	else
	{
		Z3_solver_pop(zc, s, 1);
		if (fallback) Z3_solver_dec_ref(zc, fallback);
		fallback = nullptr;
	}
}
static double algToDouble(Z3_ast v, bool &exact)
{
	exact = true;
	if (Z3_is_numeral_ast(zc, v))
	{
		std::string n = Z3_get_numeral_string(zc, v);
		auto sl = n.find('/');
		if (sl == std::string::npos) return strtod(n.c_str(), nullptr);
		Z3_string d = Z3_get_numeral_decimal_string(zc, v, 30);
		std::string ds = d;
		if (!ds.empty() && ds.back() == '?') { exact = false; ds.pop_back(); }
		return strtod(ds.c_str(), nullptr);
	}
	if (Z3_is_algebraic_number(zc, v))
	{
		exact = false;
		Z3_ast lo = Z3_get_algebraic_number_lower(zc, v, 20);
		std::string ds = Z3_get_numeral_decimal_string(zc, lo, 30);
		if (!ds.empty() && ds.back() == '?') ds.pop_back();
		return strtod(ds.c_str(), nullptr);
	}
	exact = false;
	return 0;
}
static void readBVModel(Z3_solver s)
{
	Z3_model m = Z3_solver_get_model(zc, fallback ? fallback : s);
	if (!m) return;
	Z3_model_inc_ref(zc, m);
	for (auto &v : vars)
		if (v.w)
		{
			Z3_ast out;
			if (v.e->z && Z3_model_eval(zc, m, v.e->z, false, &out) && Z3_is_numeral_ast(zc, out))
			{
				uint64_t x = 0;
				Z3_get_numeral_uint64(zc, out, &x);
				v.val = x;
			}
		}
	Z3_model_dec_ref(zc, m);
	epoch++;
	// a model is used only if it satisfies the path condition
	for (auto &p : bvPC)
		if ((ev(p.first) & 1) != (u64)p.second) endPath(END_INCONCLUSIVE, "the solver returned a model that does not satisfy the path condition");
}
static void readRealModel(Z3_solver)
{
	Z3_model m = Z3_solver_get_model(zc, lastRE);
	if (!m) return;
	Z3_model_inc_ref(zc, m);
	for (auto &v : vars)
	{
		Z3_ast out;
		if (!v.w && Z3_model_eval(zc, m, tr(v.e), false, &out))
		{
			bool ex;
			v.val = fromD(algToDouble(out, ex));
		}
	}
	Z3_model_dec_ref(zc, m);
}
#include "lin.inc"
static void note(Expr *c, bool v)
{
	known[c] = v;
	if (c->op == XNOT) note(c->a[0], !v);
	else if (v && c->op == XAND) { note(c->a[0], true); note(c->a[1], true); }
	else if (!v && c->op == XOR_) { note(c->a[0], false); note(c->a[1], false); }
	else if (c->op == XEQ && c->flags == F_BV && c->a[0]->w > 1 && !busyLin)
	{
		if (v) learnEq(c);
		else diseqs.push_back(c);
	}
}
// the condition under the equalities known on this path; true if that decides it
static bool decided(Expr *&c, bool &v)
{
	Val r = rewrite(c);
	if (r.e)
	{
		Expr *e = r.e;
		bool neg = false;
		while (e->op == XNOT) e = e->a[0], neg = !neg;
		auto it = known.find(e);
		if (it == known.end()) { c = r.e; return false; }
		v = it->second != neg;
	}
	else v = r.c & 1;
	ATOMIC_ADD(sh->simplified, 1);
	if (auditMode)
	{
		Z3_ast z = tr(c);
		recheckUnsat(v ? Z3_mk_not(zc, z) : z);
	}
	known[c] = v;
	return true;
}
static void assertC(Expr *c, bool val)
{
	Z3_ast z = tr(c);
	if (!val) z = Z3_mk_not(zc, z);
	if (isReal(c))
	{
		Z3_inc_ref(zc, z);
		realPC.push_back(z);
	}
	else
	{
		Z3_inc_ref(zc, z);
		Z3_solver_assert(zc, sBV, z);
		bvPC.push_back({c, val});
	}
	note(c, val);
}
static std::vector<pid_t> kids;
static bool holdsToken = true;
static void reapAll()
{
	if (!kids.empty() && holdsToken)
	{
		sem_post(&sh->tokens);
		holdsToken = false;
	}
	for (pid_t p : kids)
	{
		int st;
		while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
		if (!WIFEXITED(st) || WEXITSTATUS(st))
		{
			ATOMIC_ADD(es->inconclusive, 1);
			if (!es->reason[0]) snprintf(es->reason, sizeof es->reason, "worker process died (status %x)", st);
		}
	}
	kids.clear();
	if (holdsToken)
	{
		sem_post(&sh->tokens);
		holdsToken = false;
	}
}
// returns true in the child
static bool forkState()
{
	ATOMIC_ADD(es->forks, 1);
	fflush(stdout);
	fflush(stderr);
	bool par = holdsToken && sem_trywait(&sh->tokens) == 0;
	pid_t p = fork();
	if (p < 0)
	{
		// no process: treat as inconclusive for one side
		ATOMIC_ADD(es->inconclusive, 1);
		snprintf(es->reason, sizeof es->reason, "fork failed");
		if (par) sem_post(&sh->tokens);
		return true;
	}
	if (p == 0)
	{
		prctl(PR_SET_PDEATHSIG, SIGKILL);
		kids.clear();
		arm();
		localInstr = 0;
		holdsToken = true;
		return true;
	}
	if (par)
	{
		kids.push_back(p);
		if (kids.size() > 64)
		{
			int st;
			while (waitpid(kids.front(), &st, 0) < 0 && errno == EINTR) {}
			if (!WIFEXITED(st) || WEXITSTATUS(st)) { ATOMIC_ADD(es->inconclusive, 1); snprintf(es->reason, sizeof es->reason, "worker process died (status %x)", st); }
			kids.erase(kids.begin());
		}
	}
	else
	{
		int st;
		while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
		if (!WIFEXITED(st) || WEXITSTATUS(st))
		{
			ATOMIC_ADD(es->inconclusive, 1);
			if (!es->reason[0]) snprintf(es->reason, sizeof es->reason, "worker process died (status %x)", st);
		}
		// the child posted our token when it ended: take one again
		while (sem_wait(&sh->tokens) < 0 && errno == EINTR) {}
		holdsToken = true;
	}
	return false;
}
[[noreturn]] static void finishProcess()
{
	ATOMIC_ADD(es->instrs, localInstr);
	localInstr = 0;
	fflush(stdout);
	fflush(stderr);
	callSince = 0;
	reapAll();
	_exit(0);
}
static void checkDeadline()
{
	if (now_ns() > deadline_ns || sh->stop) endPath(END_TIMEOUT, "time limit");
}
static bool branchPure(Expr *c)
{
	auto it = known.find(c);
	if (it != known.end()) return it->second;
	if (c->op == XNOT) return !branchPure(c->a[0]);
	{
		bool v;
		Expr *o = c;
		if (decided(c, v)) return v;
		if (c != o)
		{
			v = branchPure(c);
			known[o] = v;
			return v;
		}
	}
	ATOMIC_ADD(es->branches, 1);
	checkDeadline();
	if (!isReal(c))
	{
		bool side = ev(c);
		Z3_ast z = tr(c);
		int r = query(sBV, side ? Z3_mk_not(zc, z) : z);
		if (r == 0)
		{
			popq(sBV);
			if (auditMode) recheckUnsat(side ? Z3_mk_not(zc, z) : z);
			note(c, side);
			return side;
		}
		if (r < 0) endPath(END_INCONCLUSIVE, "solver gave no answer (bit vectors)");
		std::vector<u64> old;
		for (auto &v : vars) old.push_back(v.val);
		readBVModel(sBV);
		popq(sBV);
		if (ev(c) == (u64)side) endPath(END_INCONCLUSIVE, "the solver returned a model that does not satisfy the query");
		std::vector<u64> nw;
		for (auto &v : vars) nw.push_back(v.val);
		if (forkState())
		{
			for (size_t i = 0; i < vars.size(); i++) vars[i].val = old[i];
			epoch++;
			assertC(c, side);
			return side;
		}
		for (size_t i = 0; i < vars.size(); i++) vars[i].val = nw[i];
		epoch++;
		assertC(c, !side);
		return !side;
	}
	Z3_ast z = tr(c);
	int t = query(sRE, z);
	popq(sRE);
	int f = query(sRE, Z3_mk_not(zc, z));
	popq(sRE);
	if (t == 0 && f == 0) endPath(END_INFEASIBLE);
	if (t == 0)
	{
		note(c, false);
		return false;
	}
	if (f == 0)
	{
		note(c, true);
		return true;
	}
	bool side = forkState();
	assertC(c, side);
	return side;
}
static bool branchE(Expr *c)
{
	if (c->flags != (F_REAL | F_BV)) return branchPure(c);
	auto it = known.find(c);
	if (it != known.end()) return it->second;
	switch (c->op)
	{
	case XNOT: return !branchE(c->a[0]);
	case XAND:
		if (c->w == 1) return branchE(c->a[0]) && branchE(c->a[1]);
		break;
	case XOR_:
		if (c->w == 1) return branchE(c->a[0]) || branchE(c->a[1]);
		break;
	case XXOR:
		if (c->w == 1) return branchE(c->a[0]) != branchE(c->a[1]);
		break;
	case XEQ:
		if (c->a[0]->w == 1) return branchE(c->a[0]) == branchE(c->a[1]);
		break;
	case XITE:
		if (c->w == 1) return branchE(c->a[0]) ? branchE(c->a[1]) : branchE(c->a[2]);
		break;
	}
	endPath(END_INCONCLUSIVE, "mixed integer/real condition " + exprStr(c));
}
static bool branchV(Val v)
{
	if (!v.e) return v.c & 1;
	return branchE(v.e);
}
static u64 concretize(Val v, u8 w)
{
	if (!v.e) return v.c;
	if (!w || !v.e->w) endPath(END_INCONCLUSIVE, "concretization of a real");
	Expr *e = v.e;
	if (e->flags == (F_REAL | F_BV)) endPath(END_INCONCLUSIVE, "mixed concretization");
	if (isReal(e) && e->w == 1) return branchE(e);
	if (isReal(e))
	{
		// values of a bit-vector expression over real conditions
		for (;;)
		{
			if (query(sRE, Z3_mk_true(zc)) != 1) { popq(sRE); endPath(END_INFEASIBLE); }
			Z3_model m = Z3_solver_get_model(zc, lastRE);
			Z3_model_inc_ref(zc, m);
			Z3_ast out;
			uint64_t x = 0;
			if (!Z3_model_eval(zc, m, tr(e), true, &out) || !Z3_get_numeral_uint64(zc, out, &x)) endPath(END_INCONCLUSIVE, "real model " + exprStr(e, 8));
			Z3_model_dec_ref(zc, m);
			popq(sRE);
			Val c = mkBin(XEQ, e->w, v, V(x));
			if (branchV(c)) return x;
		}
	}
	for (;;)
	{
		u64 x = ev(e);
		Val c = mkBin(XEQ, e->w, v, V(x));
		if (branchV(c)) return x;
	}
}

// ------------------------------------------------------------------ memory
struct Slot
{
	u32 off;
	u8 n; // bytes
	Expr *e;
};
enum ObjKind : u8 { O_DEAD, O_GLOBAL, O_HEAP, O_STACK, O_FUNC, O_ZERO };
struct Obj
{
	u8 *data;
	u32 size;
	ObjKind kind;
	u8 ro;
	std::vector<Slot> *sym;
	const void *site;
};
static std::vector<Obj> objs;
static const u64 OFF0 = 0x100000;
static inline u64 addrOf(u32 idx) { return ((u64)idx << 32) | OFF0; }
static u64 newObj(u64 size, ObjKind k, const void *site = nullptr)
{
	if (size > (1ull << 30)) endPath(END_INCONCLUSIVE, "huge allocation");
	Obj o;
	o.data = (u8 *)malloc(size ? size : 1);
	memset(o.data, 0xA5, size);
	o.size = (u32)size;
	o.kind = k;
	o.ro = 0;
	o.sym = nullptr;
	o.site = site;
	objs.push_back(o);
	return addrOf((u32)objs.size() - 1);
}
static void freeObj(u32 idx)
{
	Obj &o = objs[idx];
	free(o.data);
	o.data = nullptr;
	delete o.sym;
	o.sym = nullptr;
	o.kind = O_DEAD;
}
[[noreturn]] static void violation(const std::string &kind, const std::string &msg);
static Obj &objAt(u64 addr, u64 n, u32 &off, bool write)
{
	u32 idx = (u32)(addr >> 32);
	if (idx == 0 || idx >= objs.size())
		violation("memory", (addr < (1ull << 32) ? "null or wild pointer dereference " : "wild pointer dereference ") + std::to_string(addr));
	Obj &o = objs[idx];
	i64 of = (i64)(addr & 0xffffffffull) - (i64)OFF0;
	if (o.kind == O_DEAD) violation("memory", "access to freed or out of scope memory");
	if (o.kind == O_FUNC) violation("memory", "access to function memory");
	if (of < 0 || (u64)of + n > o.size)
		violation("memory", "out of bounds access at offset " + std::to_string(of) + " of an object of size " + std::to_string(o.size));
	if (write && o.ro) violation("memory", "write to constant memory");
	off = (u32)of;
	return o;
}
static void splitOverlap(Obj &o, u32 off, u32 n, bool erase)
{
	// make slots not straddle [off,off+n): split into bytes; then erase inside ones if asked
	auto &v = *o.sym;
	size_t i = 0;
	while (i < v.size() && v[i].off + v[i].n <= off) i++;
	while (i < v.size() && v[i].off < off + n)
	{
		Slot s = v[i];
		if (s.off + s.n <= off)
		{
			i++;
			continue;
		}
		if (s.off >= off && s.off + s.n <= off + n)
		{
			if (erase)
			{
				v.erase(v.begin() + i);
				continue;
			}
			i++;
			continue;
		}
		// straddles
		if (!s.e->w || s.e->op == RBITS) endPath(END_INCONCLUSIVE, "partial overwrite of a real");
		v.erase(v.begin() + i);
		std::vector<Slot> parts;
		for (u32 b = 0; b < s.n; b++)
		{
			Val x = mkExtract(b * 8, 8, s.n * 8, Val{0, s.e});
			if (x.e) parts.push_back({s.off + b, 1, x.e});
			else o.data[s.off + b] = (u8)x.c;
		}
		v.insert(v.begin() + i, parts.begin(), parts.end());
	}
}
static u64 loadRaw(const u8 *p, u32 n)
{
	u64 x = 0;
	memcpy(&x, p, n);
	return x;
}
static Val loadSym(Obj &o, u32 off, u32 n)
{
	auto &v = *o.sym;
	size_t lo = 0, hi = v.size();
	while (lo < hi)
	{
		size_t m = (lo + hi) / 2;
		if (v[m].off + v[m].n <= off) lo = m + 1;
		else hi = m;
	}
	if (lo == v.size() || v[lo].off >= off + n) return V(loadRaw(o.data + off, n));
	Slot &s = v[lo];
	if (s.off == off && s.n == n) return Val{0, s.e};
	if (s.off <= off && s.off + s.n >= off + n && s.e->w && s.e->op != RBITS)
		return mkExtract((off - s.off) * 8, n * 8, s.n * 8, Val{0, s.e});
	// gather
	Val r{0, nullptr};
	u8 w = 0;
	u32 p = off;
	size_t i = lo;
	while (p < off + n)
	{
		while (i < v.size() && v[i].off + v[i].n <= p) i++;
		if (i < v.size() && v[i].off <= p)
		{
			Slot &t = v[i];
			if (!t.e->w || t.e->op == RBITS) endPath(END_INCONCLUSIVE, "partial read of a real");
			u32 d = p - t.off, k = std::min<u32>(t.n - d, off + n - p);
			Val x = mkExtract(d * 8, k * 8, t.n * 8, Val{0, t.e});
			r = w ? mkConcat(k * 8, w, x, r) : x;
			w += k * 8;
			p += k;
		}
		else
		{
			u32 end = off + n;
			if (i < v.size() && v[i].off < end) end = v[i].off;
			u32 k = end - p;
			Val x = V(loadRaw(o.data + p, k));
			r = w ? mkConcat(k * 8, w, x, r) : x;
			w += k * 8;
			p += k;
		}
	}
	return r;
}
static void storeV(Obj &o, u32 off, u32 n, Val x)
{
	if (o.sym && !o.sym->empty()) splitOverlap(o, off, n, true);
	if (!x.e)
	{
		memcpy(o.data + off, &x.c, n);
		return;
	}
	if (!o.sym) o.sym = new std::vector<Slot>;
	auto &v = *o.sym;
	Slot s{off, (u8)n, x.e};
	auto it = std::lower_bound(v.begin(), v.end(), off, [](const Slot &a, u32 b) { return a.off < b; });
	v.insert(it, s);
}
static void copyMem(u64 dst, u64 src, u64 n)
{
	if (!n) return;
	u32 so, d;
	u32 si = (u32)(src >> 32), di = (u32)(dst >> 32);
	objAt(src, n, so, false);
	objAt(dst, n, d, true);
	Obj &S = objs[si], &D = objs[di];
	std::vector<Slot> moved;
	if (S.sym && !S.sym->empty())
	{
		bool any = false;
		for (auto &t : *S.sym)
			if (t.off < so + n && t.off + t.n > so) any = true;
		if (any)
		{
			splitOverlap(S, so, (u32)n, false);
			for (auto &t : *S.sym)
				if (t.off >= so && t.off + t.n <= so + n) moved.push_back({t.off - so + d, t.n, t.e});
		}
	}
	memmove(D.data + d, S.data + so, n);
	if (D.sym && !D.sym->empty()) splitOverlap(D, d, (u32)n, true);
	if (!moved.empty())
	{
		if (!D.sym) D.sym = new std::vector<Slot>;
		auto it = std::lower_bound(D.sym->begin(), D.sym->end(), d, [](const Slot &a, u32 b) { return a.off < b; });
		D.sym->insert(it, moved.begin(), moved.end());
	}
}
static std::string readStr(u64 a)
{
	std::string s;
	for (;;)
	{
		u32 off;
		Obj &o = objAt(a, 1, off, false);
		char ch = (char)o.data[off];
		if (!ch) return s;
		s.push_back(ch);
		a++;
		if (s.size() > 4096) return s;
	}
}

// ------------------------------------------------------------------ code
struct DFunc;
enum DOp : u8
{
	D_BIN, D_ICMP, D_FBIN, D_FNEG, D_FCMP, D_LOAD, D_STORE, D_GEP, D_ALLOCA, D_BR, D_CBR, D_SWITCH, D_CALL, D_ICALL, D_BUILTIN,
	D_RET, D_UNREACHABLE, D_RESUME, D_LPAD, D_SELECT, D_ZEXT, D_SEXT, D_TRUNC, D_FPTRUNC, D_FPEXT, D_SITOFP, D_UITOFP, D_FPTOSI, D_FPTOUI,
	D_COPY, D_INSERT, D_EXTRACT, D_BITCAST, D_RMW, D_CMPXCHG, D_UNSUP, D_NOP, D_INSELT, D_EXTELT, D_SHUF, D_UNDEFBIN,
};
struct Edge
{
	u32 target;
	u32 copyBeg, copyEnd;
};
struct Copy
{
	i32 dst, src;
	u32 n;
};
struct GepIdx
{
	i32 op;
	u8 w;
	i64 scale;
};
struct FieldMem
{
	u32 off;
	u8 bytes;
	u8 w; // value width, 0: double, 33: float marked
};
typedef void (*BuiltinFn)(struct DI &, Val *);
struct DI
{
	DOp op;
	u8 sub, w, w2;
	i32 dst, a, b, c;
	u32 n, m;      // counts
	void *p;       // DFunc*, builtin, ...
	std::vector<i32> *ops;
	std::vector<u8> *ws;
	const Instruction *I;
};
struct DFunc
{
	const Function *F;
	std::string name;
	bool decoded = false;
	std::vector<DI> code;
	std::vector<Val> pool;
	std::vector<Edge> edges;
	std::vector<Copy> copies;
	std::vector<GepIdx> geps;
	std::vector<FieldMem> fields;
	u32 nregs = 0;
	u32 nargs = 0;
	std::function<void(std::vector<Val> &, DI &, Val *)> builtin;
	bool isBuiltin = false;
	u32 obj = 0;
	u32 fid = 0;
	std::vector<std::pair<u32, u32>> byval; // arg slot, size
};
static Module *M;
static const DataLayout *DL;
static std::unordered_map<const Function *, DFunc *> dfun;
static std::unordered_map<const GlobalVariable *, u64> gaddr;
static std::unordered_map<u32, DFunc *> funcByObj;
static std::vector<DFunc *> allFuncs;
static std::unordered_map<std::string, std::function<void(std::vector<Val> &, DI &, Val *)>> builtins;

static unsigned nslots(Type *t)
{
	if (auto *st = dyn_cast<StructType>(t))
	{
		unsigned n = 0;
		for (auto *e : st->elements()) n += nslots(e);
		return n;
	}
	if (auto *at = dyn_cast<ArrayType>(t)) return (unsigned)at->getNumElements() * nslots(at->getElementType());
	if (auto *vt = dyn_cast<FixedVectorType>(t)) return vt->getNumElements() * nslots(vt->getElementType());
	if (t->isVoidTy()) return 0;
	return 1;
}
static u8 widthOf(Type *t)
{
	if (t->isIntegerTy())
	{
		unsigned w = t->getIntegerBitWidth();
		return w <= 64 ? w : 255;
	}
	if (t->isPointerTy()) return 64;
	if (t->isDoubleTy()) return 0;
	if (t->isFloatTy()) return 33; // marker
	if (t->isVectorTy()) return widthOf(cast<VectorType>(t)->getElementType());
	return 254;
}
static u32 slotBytes(Type *t) { return (u32)DL->getTypeStoreSize(t); }
static void flatFields(Type *t, u32 off, std::vector<FieldMem> &out)
{
	if (auto *st = dyn_cast<StructType>(t))
	{
		auto *sl = DL->getStructLayout(st);
		for (unsigned i = 0; i < st->getNumElements(); i++) flatFields(st->getElementType(i), off + (u32)sl->getElementOffset(i), out);
		return;
	}
	if (auto *at = dyn_cast<ArrayType>(t))
	{
		u32 es_ = (u32)DL->getTypeAllocSize(at->getElementType());
		for (unsigned i = 0; i < at->getNumElements(); i++) flatFields(at->getElementType(), off + i * es_, out);
		return;
	}
	if (auto *vt = dyn_cast<FixedVectorType>(t))
	{
		u32 es_ = (u32)DL->getTypeStoreSize(vt->getElementType());
		for (unsigned i = 0; i < vt->getNumElements(); i++) flatFields(vt->getElementType(), off + i * es_, out);
		return;
	}
	out.push_back({off, (u8)slotBytes(t), widthOf(t)});
}
static DFunc *getFunc(const Function *F);
static u64 funcAddr(const Function *F) { return addrOf(getFunc(F)->obj); }
static u64 globalAddr(const GlobalVariable *G);
static void constSlots(const Constant *C, std::vector<Val> &out);
static u64 constU64(const Constant *C)
{
	std::vector<Val> v;
	constSlots(C, v);
	return v.empty() ? 0 : v[0].c;
}
static u64 constExpr(const ConstantExpr *E)
{
	switch (E->getOpcode())
	{
	case Instruction::GetElementPtr:
	{
		auto *G = cast<GEPOperator>(E);
		APInt off(64, 0);
		if (!G->accumulateConstantOffset(*DL, off)) break;
		return constU64(cast<Constant>(G->getPointerOperand())) + off.getSExtValue();
	}
	case Instruction::BitCast:
	case Instruction::PtrToInt:
	case Instruction::IntToPtr:
	case Instruction::AddrSpaceCast: return constU64(E->getOperand(0)) & maskw(widthOf(E->getType()));
	case Instruction::Trunc: return constU64(E->getOperand(0)) & maskw(widthOf(E->getType()));
	case Instruction::ZExt: return constU64(E->getOperand(0));
	case Instruction::SExt: return (u64)sx(constU64(E->getOperand(0)), widthOf(E->getOperand(0)->getType())) & maskw(widthOf(E->getType()));
	case Instruction::Add: return foldBin(XADD, widthOf(E->getType()), constU64(E->getOperand(0)), constU64(E->getOperand(1)));
	case Instruction::Sub: return foldBin(XSUB, widthOf(E->getType()), constU64(E->getOperand(0)), constU64(E->getOperand(1)));
	case Instruction::And: return constU64(E->getOperand(0)) & constU64(E->getOperand(1));
	case Instruction::ICmp:
	{
		u64 a = constU64(E->getOperand(0)), b = constU64(E->getOperand(1));
		u8 w = widthOf(E->getOperand(0)->getType());
		switch (E->getPredicate())
		{
		case CmpInst::ICMP_EQ: return a == b;
		case CmpInst::ICMP_NE: return a != b;
		case CmpInst::ICMP_ULT: return a < b;
		case CmpInst::ICMP_UGT: return a > b;
		case CmpInst::ICMP_ULE: return a <= b;
		case CmpInst::ICMP_UGE: return a >= b;
		case CmpInst::ICMP_SLT: return sx(a, w) < sx(b, w);
		case CmpInst::ICMP_SGT: return sx(a, w) > sx(b, w);
		default: break;
		}
		break;
	}
	case Instruction::Select: return constU64(E->getOperand(0)) ? constU64(E->getOperand(1)) : constU64(E->getOperand(2));
	}
	std::string s;
	raw_string_ostream os(s);
	E->print(os);
	fprintf(stderr, "constant expression not handled: %s\n", os.str().c_str());
	exit(2);
}
static void constSlots(const Constant *C, std::vector<Val> &out)
{
	if (auto *ci = dyn_cast<ConstantInt>(C))
	{
		out.push_back(V(ci->getBitWidth() <= 64 ? ci->getZExtValue() : ci->getValue().trunc(64).getZExtValue()));
		return;
	}
	if (auto *cf = dyn_cast<ConstantFP>(C))
	{
		out.push_back(V(cf->getValueAPF().bitcastToAPInt().trunc(std::min(64u, cf->getValueAPF().bitcastToAPInt().getBitWidth())).getZExtValue()));
		return;
	}
	if (isa<ConstantPointerNull>(C))
	{
		out.push_back(V(0));
		return;
	}
	if (isa<UndefValue>(C) || isa<ConstantAggregateZero>(C))
	{
		unsigned n = nslots(C->getType());
		for (unsigned i = 0; i < n; i++) out.push_back(V(0));
		return;
	}
	if (auto *ca = dyn_cast<ConstantAggregate>(C))
	{
		for (auto &op : ca->operands()) constSlots(cast<Constant>(op), out);
		return;
	}
	if (auto *cd = dyn_cast<ConstantDataSequential>(C))
	{
		for (unsigned i = 0; i < cd->getNumElements(); i++) constSlots(cd->getElementAsConstant(i), out);
		return;
	}
	if (auto *g = dyn_cast<GlobalVariable>(C))
	{
		out.push_back(V(globalAddr(g)));
		return;
	}
	if (auto *f = dyn_cast<Function>(C))
	{
		out.push_back(V(funcAddr(f)));
		return;
	}
	if (auto *al = dyn_cast<GlobalAlias>(C))
	{
		constSlots(al->getAliasee(), out);
		return;
	}
	if (auto *ce = dyn_cast<ConstantExpr>(C))
	{
		out.push_back(V(constExpr(ce)));
		return;
	}
	if (isa<ConstantTokenNone>(C))
	{
		out.push_back(V(0));
		return;
	}
	std::string s;
	raw_string_ostream os(s);
	C->print(os);
	fprintf(stderr, "constant not handled: %s\n", os.str().c_str());
	exit(2);
}
static void writeConst(const Constant *C, u8 *p)
{
	if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C)) return;
	Type *t = C->getType();
	if (auto *st = dyn_cast<StructType>(t))
	{
		auto *sl = DL->getStructLayout(st);
		for (unsigned i = 0; i < st->getNumElements(); i++) writeConst(C->getAggregateElement(i), p + sl->getElementOffset(i));
		return;
	}
	if (t->isArrayTy() || t->isVectorTy())
	{
		Type *et = t->isArrayTy() ? t->getArrayElementType() : cast<VectorType>(t)->getElementType();
		u64 n = t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
		u64 s = DL->getTypeAllocSize(et);
		if (auto *cd = dyn_cast<ConstantDataSequential>(C))
		{
			StringRef r = cd->getRawDataValues();
			memcpy(p, r.data(), r.size());
			return;
		}
		for (u64 i = 0; i < n; i++) writeConst(C->getAggregateElement((unsigned)i), p + i * s);
		return;
	}
	if (auto *ci = dyn_cast<ConstantInt>(C); ci && ci->getBitWidth() > 64)
	{
		memcpy(p, ci->getValue().getRawData(), slotBytes(t));
		return;
	}
	u64 x = constU64(C);
	memcpy(p, &x, slotBytes(t) > 8 ? 8 : slotBytes(t));
}
static u64 globalAddr(const GlobalVariable *G)
{
	auto it = gaddr.find(G);
	if (it != gaddr.end()) return it->second;
	u64 size = G->getValueType()->isSized() ? (u64)DL->getTypeAllocSize(G->getValueType()) : 8;
	if (!G->hasInitializer() && size < 256) size = 256; // external object
	u64 a = newObj(size, O_GLOBAL, G);
	memset(objs[a >> 32].data, 0, size);
	gaddr[G] = a;
	return a;
}
static DFunc *getFunc(const Function *F)
{
	auto it = dfun.find(F);
	if (it != dfun.end()) return it->second;
	DFunc *d = new DFunc;
	d->F = F;
	d->name = F->getName().str();
	u64 a = newObj(1, O_FUNC, F);
	d->obj = (u32)(a >> 32);
	d->fid = (u32)allFuncs.size();
	allFuncs.push_back(d);
	funcByObj[d->obj] = d;
	dfun[F] = d;
	return d;
}
static std::map<std::string, int> unhandledIntr;
struct Decoder
{
	DFunc &d;
	std::unordered_map<const Value *, i32> regs;
	std::unordered_map<const Constant *, i32> cpool;
	std::unordered_map<const BasicBlock *, u32> bbStart;
	Decoder(DFunc &d_) : d(d_) {}
	i32 opnd(const Value *v)
	{
		if (auto *c = dyn_cast<Constant>(v))
		{
			auto it = cpool.find(c);
			if (it != cpool.end()) return it->second;
			i32 idx = ~(i32)d.pool.size();
			constSlots(c, d.pool);
			if (d.pool.size() == (size_t)~idx) d.pool.push_back(V(0));
			cpool[c] = idx;
			return idx;
		}
		if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v) || isa<BasicBlock>(v)) return ~0;
		auto it = regs.find(v);
		if (it == regs.end())
		{
			fprintf(stderr, "operand without register in %s\n", d.name.c_str());
			exit(2);
		}
		return it->second;
	}
	u32 mkEdge(const BasicBlock *from, const BasicBlock *to)
	{
		Edge e;
		e.target = 0;
		e.copyBeg = (u32)d.copies.size();
		for (auto &phi : to->phis())
			d.copies.push_back({regs[&phi], opnd(phi.getIncomingValueForBlock(from)), nslots(phi.getType())});
		e.copyEnd = (u32)d.copies.size();
		d.edges.push_back(e);
		edgeBB.push_back(to);
		return (u32)d.edges.size() - 1;
	}
	std::vector<const BasicBlock *> edgeBB;
	void run();
	void inst(const Instruction &I);
	void call(const CallBase &C, DI &o);
};
void Decoder::call(const CallBase &C, DI &o)
{
	o.ops = new std::vector<i32>;
	o.ws = new std::vector<u8>;
	const Value *cv = C.getCalledOperand()->stripPointerCasts();
	const Function *F = dyn_cast<Function>(cv);
	if (!F)
		if (auto *al = dyn_cast<GlobalAlias>(cv)) F = dyn_cast<Function>(al->getAliasee()->stripPointerCasts());
	for (auto &a : C.args())
	{
		Type *t = a->getType();
		i32 op = opnd(a.get());
		unsigned n = nslots(t);
		if (t->isMetadataTy()) { o.ops->push_back(~0); o.ws->push_back(64); continue; }
		std::vector<FieldMem> f;
		flatFields(t, 0, f);
		for (unsigned k = 0; k < n; k++)
		{
			o.ops->push_back(op >= 0 ? op + (i32)k : ~(~op + (i32)k));
			o.ws->push_back(f[k].w);
		}
	}
	if (d.pool.empty()) d.pool.push_back(V(0));
	o.n = (u32)o.ops->size();
	o.w = C.getType()->isVoidTy() ? 64 : widthOf(C.getType());
	o.m = nslots(C.getType());
	if (auto *inv = dyn_cast<InvokeInst>(&C))
	{
		o.b = (i32)mkEdge(inv->getParent(), inv->getNormalDest());
		o.c = (i32)mkEdge(inv->getParent(), inv->getUnwindDest());
	}
	else
	{
		o.b = o.c = -1;
	}
	if (isa<InlineAsm>(cv))
	{
		o.op = D_NOP;
		return;
	}
	if (F)
	{
		DFunc *t = getFunc(F);
		o.p = t;
		o.op = D_CALL;
		if (F->isIntrinsic())
		{
			StringRef nm = F->getName();
			if (nm.starts_with("llvm.dbg") || nm.starts_with("llvm.lifetime") || nm.starts_with("llvm.assume") || nm.starts_with("llvm.experimental.noalias") || nm.starts_with("llvm.stackrestore") || nm.starts_with("llvm.prefetch") || nm.starts_with("llvm.donothing") || nm.starts_with("llvm.invariant"))
			{
				o.op = D_NOP;
				if (o.m && o.dst >= 0)
				{
					o.op = D_COPY;
					o.a = ~0;
					o.n = o.m;
				}
				return;
			}
		}
	}
	else
	{
		o.op = D_ICALL;
		o.a = opnd(C.getCalledOperand());
	}
}
void Decoder::inst(const Instruction &I)
{
	DI o;
	memset(&o, 0, sizeof o);
	o.I = &I;
	o.dst = regs.count(&I) ? regs[&I] : -1;
	Type *t = I.getType();
	auto emit = [&]() { d.code.push_back(o); };
	if (isa<PHINode>(I)) return;
	if (auto *B = dyn_cast<BinaryOperator>(&I))
	{
		unsigned n = nslots(t);
		Type *et = t->getScalarType();
		u8 op = 255;
		bool fp = false;
		switch (B->getOpcode())
		{
		case Instruction::Add: op = XADD; break;
		case Instruction::Sub: op = XSUB; break;
		case Instruction::Mul: op = XMUL; break;
		case Instruction::UDiv: op = XUDIV; break;
		case Instruction::SDiv: op = XSDIV; break;
		case Instruction::URem: op = XUREM; break;
		case Instruction::SRem: op = XSREM; break;
		case Instruction::Shl: op = XSHL; break;
		case Instruction::LShr: op = XLSHR; break;
		case Instruction::AShr: op = XASHR; break;
		case Instruction::And: op = XAND; break;
		case Instruction::Or: op = XOR_; break;
		case Instruction::Xor: op = XXOR; break;
		case Instruction::FAdd: op = RADD; fp = true; break;
		case Instruction::FSub: op = RSUB; fp = true; break;
		case Instruction::FMul: op = RMUL; fp = true; break;
		case Instruction::FDiv: op = RDIV; fp = true; break;
		case Instruction::FRem: op = 200; fp = true; break;
		default: break;
		}
		o.op = fp ? D_FBIN : D_BIN;
		o.sub = op;
		o.w = widthOf(et);
		o.a = opnd(I.getOperand(0));
		o.b = opnd(I.getOperand(1));
		i32 a0 = o.a, b0 = o.b, d0 = o.dst;
		if (o.w == 255 || o.w == 254) o.op = D_UNSUP;
		for (unsigned k = 0; k < n; k++)
		{
			o.a = a0 >= 0 ? a0 + (i32)k : ~(~a0 + (i32)k);
			o.b = b0 >= 0 ? b0 + (i32)k : ~(~b0 + (i32)k);
			o.dst = d0 + (i32)k;
			emit();
		}
		return;
	}
	if (auto *C = dyn_cast<CmpInst>(&I))
	{
		unsigned n = nslots(t);
		o.op = isa<ICmpInst>(I) ? D_ICMP : D_FCMP;
		o.sub = C->getPredicate();
		o.w = widthOf(I.getOperand(0)->getType()->getScalarType());
		if (o.w >= 254) o.op = D_UNSUP;
		i32 a0 = opnd(I.getOperand(0)), b0 = opnd(I.getOperand(1)), d0 = o.dst;
		for (unsigned k = 0; k < n; k++)
		{
			o.a = a0 >= 0 ? a0 + (i32)k : ~(~a0 + (i32)k);
			o.b = b0 >= 0 ? b0 + (i32)k : ~(~b0 + (i32)k);
			o.dst = d0 + (i32)k;
			emit();
		}
		return;
	}
	if (auto *CI = dyn_cast<CastInst>(&I))
	{
		unsigned n = nslots(t);
		Type *st = I.getOperand(0)->getType();
		o.w = widthOf(st->getScalarType());
		o.w2 = widthOf(t->getScalarType());
		switch (CI->getOpcode())
		{
		case Instruction::ZExt: o.op = D_ZEXT; break;
		case Instruction::SExt: o.op = D_SEXT; break;
		case Instruction::Trunc: o.op = D_TRUNC; break;
		case Instruction::FPTrunc: o.op = D_FPTRUNC; break;
		case Instruction::FPExt: o.op = D_FPEXT; break;
		case Instruction::SIToFP: o.op = D_SITOFP; break;
		case Instruction::UIToFP: o.op = D_UITOFP; break;
		case Instruction::FPToSI: o.op = D_FPTOSI; break;
		case Instruction::FPToUI: o.op = D_FPTOUI; break;
		case Instruction::PtrToInt: o.op = o.w2 < 64 ? D_TRUNC : D_COPY; o.n = 1; break;
		case Instruction::IntToPtr: o.op = o.w < 64 ? D_ZEXT : D_COPY; o.n = 1; break;
		case Instruction::BitCast: o.op = D_BITCAST; break;
		default: o.op = D_UNSUP;
		}
		if (o.op == D_BITCAST && (st->isVectorTy() || t->isVectorTy()) && nslots(st) != n) o.op = D_UNSUP;
		if (o.w >= 254 || o.w2 >= 254) o.op = D_UNSUP;
		i32 a0 = opnd(I.getOperand(0)), d0 = o.dst;
		for (unsigned k = 0; k < n; k++)
		{
			o.a = a0 >= 0 ? a0 + (i32)k : ~(~a0 + (i32)k);
			o.dst = d0 + (i32)k;
			emit();
		}
		return;
	}
	if (isa<UnaryOperator>(I))
	{
		unsigned n = nslots(t);
		o.op = D_FNEG;
		o.w = widthOf(t->getScalarType());
		i32 a0 = opnd(I.getOperand(0)), d0 = o.dst;
		for (unsigned k = 0; k < n; k++)
		{
			o.a = a0 >= 0 ? a0 + (i32)k : ~(~a0 + (i32)k);
			o.dst = d0 + (i32)k;
			emit();
		}
		return;
	}
	switch (I.getOpcode())
	{
	case Instruction::Alloca:
	{
		auto &A = cast<AllocaInst>(I);
		o.op = D_ALLOCA;
		o.n = (u32)DL->getTypeAllocSize(A.getAllocatedType());
		o.a = opnd(A.getArraySize());
		emit();
		return;
	}
	case Instruction::Load:
	case Instruction::Store:
	{
		bool ld = isa<LoadInst>(I);
		Type *vt = ld ? t : I.getOperand(0)->getType();
		o.op = ld ? D_LOAD : D_STORE;
		o.a = opnd(getLoadStorePointerOperand(&I));
		if (!ld) o.b = opnd(I.getOperand(0));
		std::vector<FieldMem> f;
		flatFields(vt, 0, f);
		o.n = (u32)f.size();
		o.m = (u32)d.fields.size();
		for (auto &x : f)
		{
			if (x.w >= 254) o.op = D_UNSUP;
			d.fields.push_back(x);
		}
		emit();
		return;
	}
	case Instruction::GetElementPtr:
	{
		auto &G = cast<GetElementPtrInst>(I);
		o.op = D_GEP;
		if (t->isVectorTy()) o.op = D_UNSUP;
		o.a = opnd(G.getPointerOperand());
		o.m = (u32)d.geps.size();
		i64 coff = 0;
		u32 n = 0;
		for (gep_type_iterator gi = gep_type_begin(G), ge = gep_type_end(G); gi != ge; ++gi)
		{
			Value *ix = gi.getOperand();
			if (StructType *st = gi.getStructTypeOrNull())
			{
				coff += (i64)DL->getStructLayout(st)->getElementOffset((unsigned)cast<ConstantInt>(ix)->getZExtValue());
				continue;
			}
			i64 sc = (i64)gi.getSequentialElementStride(*DL);
			if (auto *ci = dyn_cast<ConstantInt>(ix))
			{
				coff += ci->getSExtValue() * sc;
				continue;
			}
			d.geps.push_back({opnd(ix), widthOf(ix->getType()), sc});
			n++;
		}
		o.n = n;
		o.p = (void *)coff;
		emit();
		return;
	}
	case Instruction::Br:
	{
		auto &B = cast<BranchInst>(I);
		if (B.isUnconditional())
		{
			o.op = D_BR;
			o.b = (i32)mkEdge(I.getParent(), B.getSuccessor(0));
		}
		else
		{
			o.op = D_CBR;
			o.a = opnd(B.getCondition());
			o.b = (i32)mkEdge(I.getParent(), B.getSuccessor(0));
			o.c = (i32)mkEdge(I.getParent(), B.getSuccessor(1));
		}
		emit();
		return;
	}
	case Instruction::Switch:
	{
		auto &S = cast<SwitchInst>(I);
		o.op = D_SWITCH;
		o.a = opnd(S.getCondition());
		o.w = widthOf(S.getCondition()->getType());
		o.ops = new std::vector<i32>;
		o.b = (i32)mkEdge(I.getParent(), S.getDefaultDest());
		for (auto &c : S.cases())
		{
			o.ops->push_back(opnd(c.getCaseValue()));
			o.ops->push_back((i32)mkEdge(I.getParent(), c.getCaseSuccessor()));
		}
		emit();
		return;
	}
	case Instruction::Ret:
		o.op = D_RET;
		o.n = 0;
		if (I.getNumOperands())
		{
			o.a = opnd(I.getOperand(0));
			o.n = nslots(I.getOperand(0)->getType());
		}
		emit();
		return;
	case Instruction::Unreachable: o.op = D_UNREACHABLE; emit(); return;
	case Instruction::Resume:
		o.op = D_RESUME;
		o.a = opnd(I.getOperand(0));
		emit();
		return;
	case Instruction::LandingPad: o.op = D_LPAD; emit(); return;
	case Instruction::Select:
	{
		unsigned n = nslots(t);
		std::vector<FieldMem> f;
		flatFields(t, 0, f);
		bool vc = I.getOperand(0)->getType()->isVectorTy();
		i32 c0 = opnd(I.getOperand(0)), a0 = opnd(I.getOperand(1)), b0 = opnd(I.getOperand(2)), d0 = o.dst;
		o.op = D_SELECT;
		for (unsigned k = 0; k < n; k++)
		{
			i32 ck = vc ? (i32)k : 0;
			o.c = c0 >= 0 ? c0 + ck : ~(~c0 + ck);
			o.a = a0 >= 0 ? a0 + (i32)k : ~(~a0 + (i32)k);
			o.b = b0 >= 0 ? b0 + (i32)k : ~(~b0 + (i32)k);
			o.w = f[k].w;
			o.dst = d0 + (i32)k;
			emit();
		}
		return;
	}
	case Instruction::Freeze:
		o.op = D_COPY;
		o.a = opnd(I.getOperand(0));
		o.n = nslots(t);
		emit();
		return;
	case Instruction::ExtractValue:
	{
		auto &E = cast<ExtractValueInst>(I);
		Type *ct = E.getAggregateOperand()->getType();
		unsigned sk = 0;
		for (unsigned ix : E.indices())
		{
			if (auto *st = dyn_cast<StructType>(ct))
			{
				for (unsigned i = 0; i < ix; i++) sk += nslots(st->getElementType(i));
				ct = st->getElementType(ix);
			}
			else
			{
				ct = ct->getArrayElementType();
				sk += ix * nslots(ct);
			}
		}
		i32 a0 = opnd(E.getAggregateOperand());
		o.op = D_COPY;
		o.a = a0 >= 0 ? a0 + (i32)sk : ~(~a0 + (i32)sk);
		o.n = nslots(t);
		emit();
		return;
	}
	case Instruction::InsertValue:
	{
		auto &E = cast<InsertValueInst>(I);
		Type *ct = t;
		unsigned sk = 0;
		for (unsigned ix : E.indices())
		{
			if (auto *st = dyn_cast<StructType>(ct))
			{
				for (unsigned i = 0; i < ix; i++) sk += nslots(st->getElementType(i));
				ct = st->getElementType(ix);
			}
			else
			{
				ct = ct->getArrayElementType();
				sk += ix * nslots(ct);
			}
		}
		o.op = D_INSERT;
		o.a = opnd(E.getAggregateOperand());
		o.b = opnd(E.getInsertedValueOperand());
		o.n = nslots(t);
		o.m = sk;
		o.c = (i32)nslots(ct);
		emit();
		return;
	}
	case Instruction::ExtractElement:
		o.op = D_EXTELT;
		o.a = opnd(I.getOperand(0));
		o.b = opnd(I.getOperand(1));
		o.n = nslots(I.getOperand(0)->getType());
		emit();
		return;
	case Instruction::InsertElement:
		o.op = D_INSELT;
		o.a = opnd(I.getOperand(0));
		o.b = opnd(I.getOperand(1));
		o.c = opnd(I.getOperand(2));
		o.n = nslots(t);
		emit();
		return;
	case Instruction::ShuffleVector:
	{
		auto &S = cast<ShuffleVectorInst>(I);
		o.op = D_SHUF;
		o.a = opnd(I.getOperand(0));
		o.b = opnd(I.getOperand(1));
		o.m = nslots(I.getOperand(0)->getType());
		o.ops = new std::vector<i32>;
		for (int x : S.getShuffleMask()) o.ops->push_back(x);
		o.n = (u32)o.ops->size();
		emit();
		return;
	}
	case Instruction::AtomicRMW:
	{
		auto &A = cast<AtomicRMWInst>(I);
		o.op = D_RMW;
		o.sub = A.getOperation();
		o.a = opnd(A.getPointerOperand());
		o.b = opnd(A.getValOperand());
		o.w = widthOf(t);
		o.n = slotBytes(t);
		emit();
		return;
	}
	case Instruction::AtomicCmpXchg:
	{
		auto &A = cast<AtomicCmpXchgInst>(I);
		o.op = D_CMPXCHG;
		o.a = opnd(A.getPointerOperand());
		o.b = opnd(A.getCompareOperand());
		o.c = opnd(A.getNewValOperand());
		o.w = widthOf(A.getCompareOperand()->getType());
		o.n = slotBytes(A.getCompareOperand()->getType());
		emit();
		return;
	}
	case Instruction::Fence: return;
	case Instruction::Call:
	case Instruction::Invoke: call(cast<CallBase>(I), o); emit(); return;
	default: o.op = D_UNSUP; emit(); return;
	}
}
void Decoder::run()
{
	const Function *F = d.F;
	u32 r = 0;
	for (auto &a : F->args())
	{
		regs[&a] = (i32)r;
		if (a.hasByValAttr()) d.byval.push_back({r, (u32)DL->getTypeAllocSize(a.getParamByValType())});
		r += nslots(a.getType());
	}
	d.nargs = r;
	for (auto &bb : *F)
		for (auto &I : bb)
		{
			unsigned n = nslots(I.getType());
			if (n)
			{
				regs[&I] = (i32)r;
				r += n;
			}
		}
	d.nregs = r;
	for (auto &bb : *F)
	{
		bbStart[&bb] = (u32)d.code.size();
		for (auto &I : bb) inst(I);
	}
	for (size_t i = 0; i < d.edges.size(); i++) d.edges[i].target = bbStart[edgeBB[i]];
	d.decoded = true;
}
static void decode(DFunc *f)
{
	Decoder D(*f);
	D.run();
}

// ------------------------------------------------------------------ state
struct Frame
{
	DFunc *f;
	Val *regs;
	u32 pc;
	u32 allocBeg;
};
static Val *stackMem;
static const size_t STACK_VALS = 64u << 20;
static Val *stackTop;
static std::vector<Frame> frames;
static std::vector<u32> allocas;
struct ExcInfo
{
	u64 ti, dtor;
	u64 adjusted;
	int handlers;
	bool rethrown;
};
static std::map<u64, ExcInfo> excs;
static std::vector<u64> caught;
static std::string locOf(const Instruction *I)
{
	if (!I) return "";
	const DebugLoc &dl = I->getDebugLoc();
	if (!dl) return "";
	auto *sc = cast<DIScope>(dl.getScope());
	std::string f = sc->getFilename().str();
	auto p = f.rfind('/');
	if (p != std::string::npos) f = f.substr(p + 1);
	return f + ":" + std::to_string(dl.getLine());
}
static std::string backtrace_()
{
	std::string s;
	int n = 0;
	for (size_t i = frames.size(); i-- > 0 && n < 14;)
	{
		Frame &fr = frames[i];
		const Instruction *I = fr.pc > 0 && fr.pc <= fr.f->code.size() ? fr.f->code[fr.pc - 1].I : nullptr;
		std::string nm = demangle(fr.f->name);
		auto pp = nm.find('(');
		if (pp != std::string::npos && pp > 8) nm = nm.substr(0, pp);
		if (nm.size() > 100) nm = nm.substr(0, 100);
		s += nm + " " + locOf(I) + " <- ";
		n++;
	}
	return s;
}
static std::string jsonEsc(const std::string &s)
{
	std::string r;
	for (unsigned char ch : s)
	{
		if (ch == '"' || ch == '\\') { r += '\\'; r += (char)ch; }
		else if (ch < 32) { char b[8]; snprintf(b, 8, "\\u%04x", ch); r += b; }
		else r += (char)ch;
	}
	return r;
}
static std::vector<std::pair<std::string, Val>> observed;
static u8 obsW = 64;
static std::string dumpInputs()
{
	std::string s = "{";
	bool first = true;
	for (auto &v : vars)
	{
		if (v.aux) continue;
		if (!first) s += ",";
		first = false;
		char b[64];
		if (v.w) snprintf(b, 64, "%lld", (long long)((v.sgn ? sx(v.val, v.w) : (i64)v.val) + v.add));
		else snprintf(b, 64, "%.17g", asD(v.val));
		s += "\"" + jsonEsc(v.name) + "\":\"" + b + "\"";
	}
	return s + "}";
}
static int chkIndex(const char *id)
{
	for (u32 i = 0; i < sh->nchk; i++)
		if (sh->chkEntry[i] == (u32)curEntry && !strcmp(sh->chk[i].id, id)) return (int)i;
	sem_wait(&sh->lock);
	for (u32 i = 0; i < sh->nchk; i++)
		if (sh->chkEntry[i] == (u32)curEntry && !strcmp(sh->chk[i].id, id))
		{
			sem_post(&sh->lock);
			return (int)i;
		}
	u32 i = sh->nchk < MAXCHK ? sh->nchk : MAXCHK - 1;
	strncpy(sh->chk[i].id, id, 63);
	sh->chkEntry[i] = (u32)curEntry;
	__atomic_thread_fence(__ATOMIC_SEQ_CST);
	if (sh->nchk < MAXCHK) sh->nchk++;
	sem_post(&sh->lock);
	return (int)i;
}
static void recordViolation(const std::string &id, const std::string &kind, const std::string &msg)
{
	ATOMIC_ADD(es->violations, 1);
	int k = chkIndex(id.substr(0, 63).c_str());
	u64 n = ATOMIC_ADD(sh->chk[k].violated, 1);
	if (n > 12) return;
	u64 fileNo = ATOMIC_ADD(sh->viol_files, 1);
	std::ofstream f(outDir + "/viol_" + std::to_string(fileNo) + ".json");
	f << "{\"entry\":\"" << entryName << "\",\"args\":\"" << entryArgs << "\",\"id\":\"" << jsonEsc(id) << "\",\"kind\":\"" << kind << "\",\"msg\":\"" << jsonEsc(msg) << "\",\"where\":\"" << jsonEsc(backtrace_()) << "\",\"inputs\":" << dumpInputs() << "}\n";
}
// refresh real variables of the model from the real path condition
static bool refreshReals()
{
	bool any = false;
	for (auto &v : vars)
		if (!v.w) any = true;
	if (!any) return true;
	// prefer moderate values
	std::vector<Z3_ast> bnd;
	for (auto &v : vars)
		if (!v.w && !v.aux)
		{
			bnd.push_back(Z3_mk_le(zc, tr(v.e), realConst(16)));
			bnd.push_back(Z3_mk_ge(zc, tr(v.e), realConst(-16)));
		}
	if (!bnd.empty())
	{
		int r = query(sRE, Z3_mk_and(zc, (unsigned)bnd.size(), bnd.data()));
		if (r == 1)
		{
			readRealModel(sRE);
			popq(sRE);
			return true;
		}
		popq(sRE);
	}
	int r = query(sRE, Z3_mk_true(zc));
	if (r == 1) readRealModel(sRE);
	popq(sRE);
	return r == 1;
}
[[noreturn]] static void violation(const std::string &kind, const std::string &msg)
{
	if (curEntry < 0)
	{
		fprintf(stderr, "violation during initialisation: %s %s\n%s\n", kind.c_str(), msg.c_str(), backtrace_().c_str());
		exit(2);
	}
	refreshReals();
	recordViolation(kind, kind, msg);
	endPath(END_VIOLATION);
}
[[noreturn]] static void endPath(int kind, const std::string &why)
{
	if (curEntry < 0)
	{
		fprintf(stderr, "initialisation ended: %s\n%s\n", why.c_str(), backtrace_().c_str());
		exit(2);
	}
	switch (kind)
	{
	case END_OK: ATOMIC_ADD(es->paths, 1); break;
	case END_VIOLATION: ATOMIC_ADD(es->paths, 1); break;
	case END_INFEASIBLE: ATOMIC_ADD(es->infeasible, 1); break;
	case END_ASSUME: ATOMIC_ADD(es->assumes_cut, 1); break;
	case END_TIMEOUT: ATOMIC_ADD(es->timeouts, 1); break;
	case END_INCONCLUSIVE:
		ATOMIC_ADD(es->inconclusive, 1);
		if (!es->reason[0]) snprintf(es->reason, sizeof es->reason, "%s | %s", why.c_str(), backtrace_().c_str());
		if (verbose) fprintf(stderr, "[inconclusive] %s\n   %s\n", why.c_str(), backtrace_().c_str());
		break;
	}
	if (kind == END_OK)
	{
		u64 n = ATOMIC_ADD(es->samples, 1);
		// keep a spread of samples: path numbers 1,2,4,8,...
		bool keep = (n & (n - 1)) == 0;
		if (keep)
		{
			refreshReals();
			std::ofstream f(outDir + "/sample_" + std::to_string(curEntry) + "_" + std::to_string(n) + ".json");
			f << "{\"entry\":\"" << entryName << "\",\"args\":\"" << entryArgs << "\",\"inputs\":" << dumpInputs() << ",\"obs\":[";
			for (size_t i = 0; i < observed.size(); i++) f << (i ? "," : "") << "\"" << jsonEsc(observed[i].first) << " " << (long long)(observed[i].second.e ? ev(observed[i].second.e) : observed[i].second.c) << "\"";
			f << "]}\n";
		}
	}
	finishProcess();
}
#include "interp.inc"
