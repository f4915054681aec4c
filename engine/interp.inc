// Interpreter loop, exception handling, builtins and main (included by qsym.cpp)
static DFunc *callee(u64 addr)
{
	u32 idx = (u32)(addr >> 32);
	if (idx == 0 || idx >= objs.size() || objs[idx].kind != O_FUNC) violation("memory", "call through an invalid function pointer");
	return funcByObj[idx];
}
static u64 memU64(u64 a)
{
	u32 off;
	Obj &o = objAt(a, 8, off, false);
	u64 x;
	memcpy(&x, o.data + off, 8);
	return x;
}
static u32 memU32(u64 a)
{
	u32 off;
	Obj &o = objAt(a, 4, off, false);
	u32 x;
	memcpy(&x, o.data + off, 4);
	return x;
}
static std::vector<u32> deadQueue;
static size_t deadHead = 0;
static u64 allocObj(u64 size, ObjKind k)
{
	if (deadQueue.size() - deadHead > 60000)
	{
		u32 idx = deadQueue[deadHead++];
		if (deadHead > 1000000)
		{
			deadQueue.erase(deadQueue.begin(), deadQueue.begin() + deadHead);
			deadHead = 0;
		}
		if (size > (1ull << 30)) endPath(END_INCONCLUSIVE, "huge allocation");
		Obj &o = objs[idx];
		o.data = (u8 *)malloc(size ? size : 1);
		memset(o.data, 0xA5, size);
		o.size = (u32)size;
		o.kind = k;
		o.ro = 0;
		o.sym = nullptr;
		return addrOf(idx);
	}
	return newObj(size, k);
}
static void killObj(u32 idx)
{
	freeObj(idx);
	deadQueue.push_back(idx);
}
static inline Val getV(Val *R, DFunc *f, i32 op) { return op >= 0 ? R[op] : f->pool[~op]; }

// ---- exceptions
static std::string tiName(u64 ti)
{
	u32 idx = (u32)(ti >> 32);
	if (idx < objs.size() && objs[idx].kind == O_GLOBAL && objs[idx].site)
	{
		auto *g = (const GlobalVariable *)objs[idx].site;
		if (!g->hasInitializer()) return g->getName().substr(4).str();
	}
	return readStr(memU64(ti + 8));
}
static std::string tiKind(u64 ti)
{
	u64 vt = memU64(ti);
	u32 idx = (u32)(vt >> 32);
	if (idx == 0 || idx >= objs.size() || !objs[idx].site || objs[idx].kind != O_GLOBAL) return "";
	return ((const GlobalVariable *)objs[idx].site)->getName().str();
}
static bool tiSame(u64 a, u64 b) { return a == b || tiName(a) == tiName(b); }
struct Sub
{
	u64 ti, addr;
};
static void subobjects(u64 ti, u64 addr, std::vector<Sub> &out)
{
	out.push_back({ti, addr});
	std::string k = tiKind(ti);
	if (k.find("si_class") != std::string::npos) subobjects(memU64(ti + 16), addr, out);
	else if (k.find("vmi_class") != std::string::npos)
	{
		u32 n = memU32(ti + 20);
		for (u32 i = 0; i < n; i++)
		{
			u64 b = memU64(ti + 24 + 16 * i);
			i64 of = (i64)memU64(ti + 24 + 16 * i + 8);
			u64 a;
			if (of & 1)
			{
				if (!addr) { subobjects(b, 0, out); continue; }
				a = addr + memU64(memU64(addr) + (of >> 8));
			}
			else
				a = addr ? addr + (of >> 8) : 0;
			subobjects(b, a, out);
		}
	}
}
static bool tiDerives(u64 thrown, u64 catchTi, u64 obj, u64 &adj)
{
	adj = obj;
	if (tiSame(thrown, catchTi)) return true;
	std::string k = tiKind(thrown);
	if (k.find("class_type_info") == std::string::npos) return false;
	std::vector<Sub> s;
	subobjects(thrown, obj, s);
	for (auto &x : s)
		if (tiSame(x.ti, catchTi))
		{
			adj = x.addr;
			return true;
		}
	return false;
}
static u64 pendExc, pendSel;
static std::map<u64, u64> typeIds;
static u64 typeIdFor(u64 ti)
{
	auto it = typeIds.find(ti);
	if (it != typeIds.end()) return it->second;
	u64 n = typeIds.size() + 1;
	typeIds[ti] = n;
	return n;
}
// 0 nothing, 1 cleanup, 2 catch (sel set)
static int lpMatch(const LandingPadInst *L, u64 exc, u64 &sel)
{
	ExcInfo &x = excs[exc];
	for (unsigned i = 0; i < L->getNumClauses(); i++)
	{
		const Constant *c = L->getClause(i);
		if (L->isCatch(i))
		{
			u64 ti = constU64(c);
			u64 adj = exc;
			if (ti == 0)
			{
				sel = typeIdFor(0);
				x.adjusted = exc;
				return 2;
			}
			if (tiDerives(x.ti, ti, exc, adj))
			{
				sel = typeIdFor(ti);
				x.adjusted = adj;
				return 2;
			}
		}
		else
		{
			sel = (u64)-1;
			return 2;
		}
	}
	sel = 0;
	return L->isCleanup() ? 1 : 0;
}
static void popFrame()
{
	Frame &f = frames.back();
	for (size_t i = f.allocBeg; i < allocas.size(); i++) killObj(allocas[i]);
	allocas.resize(f.allocBeg);
	stackTop = f.regs;
	frames.pop_back();
}
static void takeEdge(Frame &fr, u32 e)
{
	DFunc *f = fr.f;
	Edge &E = f->edges[e];
	if (E.copyBeg != E.copyEnd)
	{
		if (E.copyEnd - E.copyBeg == 1)
		{
			Copy &c = f->copies[E.copyBeg];
			for (u32 k = 0; k < c.n; k++) fr.regs[c.dst + k] = c.src >= 0 ? fr.regs[c.src + k] : f->pool[~c.src + k];
		}
		else
		{
			static std::vector<Val> tmp;
			tmp.clear();
			for (u32 i = E.copyBeg; i < E.copyEnd; i++)
			{
				Copy &c = f->copies[i];
				for (u32 k = 0; k < c.n; k++) tmp.push_back(c.src >= 0 ? fr.regs[c.src + k] : f->pool[~c.src + k]);
			}
			size_t p = 0;
			for (u32 i = E.copyBeg; i < E.copyEnd; i++)
			{
				Copy &c = f->copies[i];
				for (u32 k = 0; k < c.n; k++) fr.regs[c.dst + k] = tmp[p++];
			}
		}
	}
	fr.pc = E.target;
}
static void unwind(u64 exc)
{
	int target = -1;
	bool handler = false;
	u64 sel = 0, selT = 0;
	int first = -1;
	u64 firstSel = 0;
	for (int i = (int)frames.size() - 1; i >= 0; i--)
	{
		Frame &fr = frames[i];
		DI &c = fr.f->code[fr.pc - 1];
		if ((c.op == D_CALL || c.op == D_ICALL) && c.c >= 0 && isa<InvokeInst>(c.I))
		{
			const LandingPadInst *L = cast<InvokeInst>(c.I)->getLandingPadInst();
			int m = lpMatch(L, exc, sel);
			if (m && first < 0)
			{
				first = i;
				firstSel = sel;
			}
			if (m == 2)
			{
				handler = true;
				target = i;
				selT = sel;
				break;
			}
		}
	}
	(void)target;
	(void)selT;
	if (!handler) violation("uncaught", "uncaught exception of type " + demangle("_ZTS" + tiName(excs[exc].ti)));
	while ((int)frames.size() - 1 > first) popFrame();
	Frame &fr = frames.back();
	DI &c = fr.f->code[fr.pc - 1];
	pendExc = exc;
	pendSel = firstSel;
	takeEdge(fr, (u32)c.c);
}
static void pushFrame(DFunc *t, Val *args, size_t n)
{
	if (!t->decoded) decode(t);
	if (frames.size() > 4000) violation("stack", "recursion too deep");
	sh->fn[t->fid < MAXFN * 4 ? t->fid : 0] = 1;
	Frame nf;
	nf.f = t;
	nf.regs = stackTop;
	nf.pc = 0;
	nf.allocBeg = (u32)allocas.size();
	for (size_t i = 0; i < n && i < t->nargs; i++) stackTop[i] = args[i];
	stackTop += t->nregs;
	if (stackTop > stackMem + STACK_VALS - 4096) violation("stack", "stack overflow");
	frames.push_back(nf);
	for (auto &bv : t->byval)
	{
		u64 a = allocObj(bv.second, O_STACK);
		allocas.push_back((u32)(a >> 32));
		copyMem(a, nf.regs[bv.first].c, bv.second);
		nf.regs[bv.first] = V(a);
	}
}
static double toF(Val v, u8 w)
{
	if (w == 33)
	{
		u32 x = (u32)v.c;
		float f;
		memcpy(&f, &x, 4);
		return f;
	}
	return asD(v.c);
}
static Val fromF(double d, u8 w)
{
	if (w == 33)
	{
		float f = (float)d;
		u32 x;
		memcpy(&x, &f, 4);
		return V(x);
	}
	return V(fromD(d));
}
static Val realVar(const std::string &name, bool aux)
{
	VarInfo v;
	v.name = name;
	v.w = 0;
	v.sgn = false;
	v.val = 0;
	v.aux = aux;
	v.add = 0;
	v.e = mk(RVAR, 0, vars.size());
	vars.push_back(v);
	return Val{0, v.e};
}
static Val rsqrt(Val x)
{
	if (!x.e) return V(fromD(std::sqrt(asD(x.c))));
	if (branchV(mkR(RLT, x, V(fromD(0))))) return V(fromD(NAN));
	Expr *xe = rE(x);
	static std::unordered_map<Expr *, Expr *> memo;
	auto it = memo.find(xe);
	if (it != memo.end()) return VE(it->second);
	Val s = realVar("sqrt", true);
	assertC(mkR(RLE, V(fromD(0)), s).e, true);
	Val eq = mkR(REQ, mkR(RMUL, s, s), x);
	assertC(eq.e, true);
	memo[xe] = s.e;
	return s;
}
static Val fbin(u8 op, u8 w, Val a, Val b)
{
	if (!a.e && !b.e)
	{
		double x = toF(a, w), y = toF(b, w), r = 0;
		switch (op)
		{
		case RADD: r = x + y; break;
		case RSUB: r = x - y; break;
		case RMUL: r = x * y; break;
		case RDIV: r = x / y; break;
		case 200: r = std::fmod(x, y); break;
		}
		return fromF(r, w);
	}
	if (w == 33) endPath(END_INCONCLUSIVE, "symbolic float");
	if (op == 200) endPath(END_INCONCLUSIVE, "symbolic fmod");
	for (Val v : {a, b})
		if (!v.e && !std::isfinite(asD(v.c)))
		{
			if (std::isnan(asD(v.c))) return v;
			endPath(END_INCONCLUSIVE, "infinity in real arithmetic");
		}
	if (op == RDIV)
	{
		bool zero = b.e ? branchV(mkR(REQ, b, V(fromD(0)))) : asD(b.c) == 0;
		if (zero)
		{ // 0/0; the sign of any other quotient depends on the sign of the zero
			bool none = a.e ? branchV(mkR(REQ, a, V(fromD(0)))) : asD(a.c) == 0;
			if (!none) endPath(END_INCONCLUSIVE, "real division by zero");
			return V(fromD(std::nan("")));
		}
	}
	return mkR(op, a, b);
}
static Val fcmp(u8 pred, u8 w, Val a, Val b)
{
	if (!a.e && !b.e)
	{
		double x = toF(a, w), y = toF(b, w);
		bool un = std::isnan(x) || std::isnan(y);
		bool r = false;
		switch (pred)
		{
		case CmpInst::FCMP_FALSE: r = false; break;
		case CmpInst::FCMP_TRUE: r = true; break;
		case CmpInst::FCMP_OEQ: r = !un && x == y; break;
		case CmpInst::FCMP_OGT: r = !un && x > y; break;
		case CmpInst::FCMP_OGE: r = !un && x >= y; break;
		case CmpInst::FCMP_OLT: r = !un && x < y; break;
		case CmpInst::FCMP_OLE: r = !un && x <= y; break;
		case CmpInst::FCMP_ONE: r = !un && x != y; break;
		case CmpInst::FCMP_ORD: r = !un; break;
		case CmpInst::FCMP_UNO: r = un; break;
		case CmpInst::FCMP_UEQ: r = un || x == y; break;
		case CmpInst::FCMP_UGT: r = un || x > y; break;
		case CmpInst::FCMP_UGE: r = un || x >= y; break;
		case CmpInst::FCMP_ULT: r = un || x < y; break;
		case CmpInst::FCMP_ULE: r = un || x <= y; break;
		case CmpInst::FCMP_UNE: r = un || x != y; break;
		}
		return V(r);
	}
	if (w == 33) endPath(END_INCONCLUSIVE, "symbolic float");
	for (int i = 0; i < 2; i++)
	{
		Val &v = i ? b : a;
		if (!v.e && !std::isfinite(asD(v.c)))
		{
			// the other side is a finite real: any finite value gives the answer
			Val fin = V(fromD(0));
			return fcmp(pred, w, i ? fin : a, i ? b : fin);
		}
	}
	switch (pred)
	{
	case CmpInst::FCMP_FALSE: return V(0);
	case CmpInst::FCMP_TRUE: return V(1);
	case CmpInst::FCMP_ORD: return V(1);
	case CmpInst::FCMP_UNO: return V(0);
	case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: return mkR(REQ, a, b);
	case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: return mkNot(mkR(REQ, a, b));
	case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: return mkR(RLT, b, a);
	case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: return mkR(RLE, b, a);
	case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: return mkR(RLT, a, b);
	case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: return mkR(RLE, a, b);
	}
	abort();
}
static void unmix(Val &a, u8 wa, Val &b, u8 wb)
{
	if (a.e && b.e && ((a.e->flags | b.e->flags) == 3))
	{
		// an integer built from conditions over reals meets an integer input: fork on the former
		if (a.e->flags & F_REAL) a = V(concretize(a, wa));
		else b = V(concretize(b, wb));
	}
}
static Val fixLoad(Val v, const FieldMem &f)
{
	if (!v.e)
	{
		if (f.w && f.w < 64 && f.w != 33) v.c &= maskw(f.w);
		return v;
	}
	if (f.w == 0)
	{
		if (!v.e->w) return v;
		if (v.e->op == RBITS) return VE(v.e->a[0]);
		endPath(END_INCONCLUSIVE, "symbolic integer read as double");
	}
	if (!v.e->w)
	{
		if (f.bytes == 8) return Val{0, mk(RBITS, 64, 0, v.e)};
		endPath(END_INCONCLUSIVE, "partial read of a real");
	}
	if (f.w == 33) endPath(END_INCONCLUSIVE, "symbolic float");
	if (f.w < f.bytes * 8) return mkExtract(0, f.w, f.bytes * 8, v);
	return v;
}
static Val fixStore(Val v, const FieldMem &f)
{
	if (!v.e) return v;
	if (f.w == 0) return v;
	if (v.e->op == RBITS) return VE(v.e->a[0]);
	if (f.w < f.bytes * 8) return mkExt(XZEXT, f.w, f.bytes * 8, v);
	return v;
}
static bool builtinUnwound = false;
static void invokeFunc(DFunc *t, DI &c, Frame &fr)
{
	// gather
	static Val args[256];
	size_t n = c.ops->size();
	if (n > 256) endPath(END_INCONCLUSIVE, "too many arguments");
	for (size_t i = 0; i < n; i++) args[i] = getV(fr.regs, fr.f, (*c.ops)[i]);
	if (t->isBuiltin)
	{
		std::vector<Val> av(args, args + n);
		Val ret[8];
		memset(ret, 0, sizeof ret);
		builtinUnwound = false;
		t->builtin(av, c, ret);
		if (builtinUnwound)
		{
			builtinUnwound = false;
			return;
		}
		Frame &f2 = frames.back();
		for (u32 k = 0; k < c.m && k < 8; k++)
			if (c.dst >= 0) f2.regs[c.dst + k] = ret[k];
		if (c.b >= 0) takeEdge(f2, (u32)c.b);
		return;
	}
	if (t->F->isDeclaration())
	{
		endPath(END_INCONCLUSIVE, "external function " + demangle(t->name));
	}
	pushFrame(t, args, n);
}
static void run(size_t base)
{
	while (frames.size() > base)
	{
		Frame &fr = frames.back();
		DFunc *f = fr.f;
		Val *R = fr.regs;
		DI &d = f->code[fr.pc++];
		localInstr++;
		if (++pathInstr > maxInstr)
			violation("hang", "more than " + std::to_string(maxInstr) + " instructions on one path");
		if ((pathInstr & 0xfffff) == 0 && curEntry >= 0) checkDeadline();
		switch (d.op)
		{
		case D_NOP: 
			if (d.b >= 0 && d.I && isa<InvokeInst>(d.I)) takeEdge(fr, (u32)d.b);
			break;
		case D_BIN:
		{
			Val a = getV(R, f, d.a), b = getV(R, f, d.b);
			if (d.sub >= XUDIV && d.sub <= XSREM)
			{
				if (!b.e)
				{
					if ((b.c & maskw(d.w)) == 0) violation("arith", "integer division by zero");
				}
				else if (branchV(mkBin(XEQ, d.w, b, V(0))))
					violation("arith", "integer division by zero");
			}
			if (a.e || b.e)
			{
				if ((a.e && a.e->op == RBITS) || (b.e && b.e->op == RBITS)) endPath(END_INCONCLUSIVE, "integer arithmetic on the bits of a real");
				unmix(a, d.w, b, d.w);
				R[d.dst] = mkBin(d.sub, d.w, a, b);
			}
			else
				R[d.dst] = V(foldBin(d.sub, d.w, a.c, b.c));
			break;
		}
		case D_ICMP:
		{
			Val a = getV(R, f, d.a), b = getV(R, f, d.b);
			if (a.e || b.e)
			{
				if (a.e && b.e && a.e->op == RBITS && b.e->op == RBITS && (d.sub == CmpInst::ICMP_EQ || d.sub == CmpInst::ICMP_NE))
				{
					Val r = mkR(REQ, VE(a.e->a[0]), VE(b.e->a[0]));
					R[d.dst] = d.sub == CmpInst::ICMP_EQ ? r : mkNot(r);
					break;
				}
				if ((a.e && a.e->op == RBITS) || (b.e && b.e->op == RBITS)) endPath(END_INCONCLUSIVE, "integer comparison of the bits of a real");
				if (d.w > 1) unmix(a, d.w, b, d.w);
			}
			Val r;
			switch (d.sub)
			{
			case CmpInst::ICMP_EQ: r = mkBin(XEQ, d.w, a, b); break;
			case CmpInst::ICMP_NE: r = mkNot(mkBin(XEQ, d.w, a, b)); break;
			case CmpInst::ICMP_UGT: r = mkBin(XULT, d.w, b, a); break;
			case CmpInst::ICMP_UGE: r = mkBin(XULE, d.w, b, a); break;
			case CmpInst::ICMP_ULT: r = mkBin(XULT, d.w, a, b); break;
			case CmpInst::ICMP_ULE: r = mkBin(XULE, d.w, a, b); break;
			case CmpInst::ICMP_SGT: r = mkBin(XSLT, d.w, b, a); break;
			case CmpInst::ICMP_SGE: r = mkBin(XSLE, d.w, b, a); break;
			case CmpInst::ICMP_SLT: r = mkBin(XSLT, d.w, a, b); break;
			default: r = mkBin(XSLE, d.w, a, b); break;
			}
			R[d.dst] = r;
			break;
		}
		case D_FBIN: R[d.dst] = fbin(d.sub, d.w, getV(R, f, d.a), getV(R, f, d.b)); break;
		case D_FNEG:
		{
			Val a = getV(R, f, d.a);
			R[d.dst] = a.e ? mkR(RNEG, a, V(0)) : fromF(-toF(a, d.w), d.w);
			break;
		}
		case D_FCMP: R[d.dst] = fcmp(d.sub, d.w, getV(R, f, d.a), getV(R, f, d.b)); break;
		case D_LOAD:
		{
			Val p = getV(R, f, d.a);
			u64 a = p.e ? concretize(p, 64) : p.c;
			for (u32 k = 0; k < d.n; k++)
			{
				FieldMem &fm = f->fields[d.m + k];
				u32 off;
				Obj &o = objAt(a + fm.off, fm.bytes, off, false);
				if (!o.sym || o.sym->empty())
				{
					u64 x = 0;
					memcpy(&x, o.data + off, fm.bytes);
					if (fm.w && fm.w < 64 && fm.w != 33) x &= maskw(fm.w);
					R[d.dst + k] = V(x);
				}
				else
					R[d.dst + k] = fixLoad(loadSym(o, off, fm.bytes), fm);
			}
			break;
		}
		case D_STORE:
		{
			Val p = getV(R, f, d.a);
			u64 a = p.e ? concretize(p, 64) : p.c;
			for (u32 k = 0; k < d.n; k++)
			{
				FieldMem &fm = f->fields[d.m + k];
				Val v = d.b >= 0 ? R[d.b + k] : f->pool[~d.b + k];
				u32 off;
				Obj &o = objAt(a + fm.off, fm.bytes, off, true);
				if (!v.e && (!o.sym || o.sym->empty())) memcpy(o.data + off, &v.c, fm.bytes);
				else storeV(o, off, fm.bytes, fixStore(v, fm));
			}
			break;
		}
		case D_GEP:
		{
			Val b = getV(R, f, d.a);
			u64 c = (u64)d.p;
			bool symb = b.e != nullptr;
			for (u32 k = 0; k < d.n && !symb; k++)
			{
				GepIdx &g = f->geps[d.m + k];
				Val x = getV(R, f, g.op);
				if (x.e)
				{
					symb = true;
					break;
				}
				c += (u64)(sx(x.c, g.w) * g.scale);
			}
			if (!symb)
			{
				R[d.dst] = V(b.c + c);
				break;
			}
			Val acc = mkBin(XADD, 64, b, V((u64)d.p));
			for (u32 k = 0; k < d.n; k++)
			{
				GepIdx &g = f->geps[d.m + k];
				Val x = getV(R, f, g.op);
				if (x.e) x = mkExt(XSEXT, g.w, 64, x);
				else x = V((u64)sx(x.c, g.w));
				Val m = mkBin(XMUL, 64, x, V((u64)g.scale));
				unmix(acc, 64, m, 64);
				acc = mkBin(XADD, 64, acc, m);
			}
			R[d.dst] = acc;
			break;
		}
		case D_ALLOCA:
		{
			u64 n = concretize(getV(R, f, d.a), 64);
			u64 a = allocObj(n * d.n, O_STACK);
			allocas.push_back((u32)(a >> 32));
			R[d.dst] = V(a);
			break;
		}
		case D_BR: takeEdge(fr, (u32)d.b); break;
		case D_CBR:
		{
			Val c = getV(R, f, d.a);
			bool t = c.e ? branchE(c.e) : (c.c & 1);
			takeEdge(frames.back(), (u32)(t ? d.b : d.c));
			break;
		}
		case D_SWITCH:
		{
			Val c = getV(R, f, d.a);
			u32 e = (u32)d.b;
			for (size_t i = 0; i < d.ops->size(); i += 2)
			{
				Val k = getV(R, f, (*d.ops)[i]);
				if (branchV(mkBin(XEQ, d.w, c, k)))
				{
					e = (u32)(*d.ops)[i + 1];
					break;
				}
			}
			takeEdge(frames.back(), e);
			break;
		}
		case D_CALL: invokeFunc((DFunc *)d.p, d, fr); break;
		case D_ICALL:
		{
			Val p = getV(R, f, d.a);
			u64 a = p.e ? concretize(p, 64) : p.c;
			invokeFunc(callee(a), d, fr);
			break;
		}
		case D_RET:
		{
			Val rv[64];
			if (d.n > 64) endPath(END_INCONCLUSIVE, "large return value");
			for (u32 k = 0; k < d.n; k++) rv[k] = d.a >= 0 ? R[d.a + k] : f->pool[~d.a + k];
			popFrame();
			if (frames.size() > base)
			{
				Frame &c = frames.back();
				DI &ci = c.f->code[c.pc - 1];
				if (ci.dst >= 0)
					for (u32 k = 0; k < d.n && k < ci.m; k++) c.regs[ci.dst + k] = rv[k];
				if (ci.b >= 0) takeEdge(c, (u32)ci.b);
			}
			break;
		}
		case D_UNREACHABLE: violation("unreachable", "undefined behaviour: unreachable code reached");
		case D_RESUME:
		{
			Val x = getV(R, f, d.a);
			unwind(x.c);
			break;
		}
		case D_LPAD:
			R[d.dst] = V(pendExc);
			R[d.dst + 1] = V(pendSel & 0xffffffff);
			break;
		case D_SELECT:
		{
			Val c = getV(R, f, d.c), a = getV(R, f, d.a), b = getV(R, f, d.b);
			if (!c.e)
			{
				R[d.dst] = (c.c & 1) ? a : b;
				break;
			}
			bool rbits = (a.e && a.e->op == RBITS) || (b.e && b.e->op == RBITS);
			if (d.w == 0 && !rbits)
			{
				auto inf = [](Val v) { return !v.e && !std::isfinite(asD(v.c)); };
				if (inf(a) || inf(b) || (c.e->flags & F_BV))
					R[d.dst] = branchV(c) ? a : b;
				else
					R[d.dst] = mkRIte(c, a, b);
				break;
			}
			// addresses and 64 bit sizes: two simple paths are cheaper than one
			// with conditional addresses
			if (d.w >= 254 || d.w == 33 || rbits || (d.w == 64 && !a.e && !b.e))
			{
				R[d.dst] = branchV(c) ? a : b;
				break;
			}
			u8 fl = c.e->flags | (a.e ? a.e->flags : 0) | (b.e ? b.e->flags : 0);
			if (fl == 3 && d.w > 1)
				R[d.dst] = branchV(c) ? a : b;
			else
				R[d.dst] = mkIte(d.w, c, a, b);
			break;
		}
		case D_ZEXT:
		case D_SEXT:
			if (d.w == 1 && d.w2 == 64)
			{
				Val v = getV(R, f, d.a);
				R[d.dst] = V(branchV(v) ? d.op == D_ZEXT ? 1 : ~0ull : 0);
				break;
			}
			R[d.dst] = mkExt(d.op == D_ZEXT ? XZEXT : XSEXT, d.w, d.w2, getV(R, f, d.a));
			break;
		case D_TRUNC:
		{
			Val a = getV(R, f, d.a);
			R[d.dst] = mkExtract(0, d.w2, d.w, a);
			if (exprUnsupported) endPath(END_INCONCLUSIVE, "bits of a real");
			break;
		}
		case D_FPTRUNC:
		case D_FPEXT:
		{
			Val a = getV(R, f, d.a);
			if (a.e) endPath(END_INCONCLUSIVE, "symbolic float conversion");
			R[d.dst] = fromF(toF(a, d.w), d.w2);
			break;
		}
		case D_SITOFP:
		case D_UITOFP:
		{
			Val a = getV(R, f, d.a);
			if (a.e && a.e->op == XITE && a.e->a[1]->op == XCONST && a.e->a[2]->op == XCONST && isReal(a.e))
			{
				auto cv = [&](u64 x) { return d.op == D_SITOFP ? (double)sx(x, d.w) : (double)(x & maskw(d.w)); };
				R[d.dst] = mkRIte(VE(a.e->a[0]), V(fromD(cv(a.e->a[1]->c))), V(fromD(cv(a.e->a[2]->c))));
				break;
			}
			if (a.e && a.e->w == 1 && isReal(a.e))
			{
				R[d.dst] = mkRIte(a, V(fromD(d.op == D_SITOFP ? -1 : 1)), V(0));
				break;
			}
			u64 x = concretize(a, d.w);
			double r = d.op == D_SITOFP ? (double)sx(x, d.w) : (double)(x & maskw(d.w));
			R[d.dst] = fromF(r, d.w2);
			break;
		}
		case D_FPTOSI:
		case D_FPTOUI:
		{
			Val a = getV(R, f, d.a);
			if (a.e && rE(a)->op == RITE && rE(a)->a[1]->op == RCONST && rE(a)->a[2]->op == RCONST)
			{
				Expr *e = rE(a);
				R[d.dst] = mkIte(d.w2, VE(e->a[0]), V((u64)(i64)asD(e->a[1]->c) & maskw(d.w2)), V((u64)(i64)asD(e->a[2]->c) & maskw(d.w2)));
				break;
			}
			if (a.e) endPath(END_INCONCLUSIVE, "symbolic real to integer");
			double x = toF(a, d.w);
			u64 r = d.op == D_FPTOSI ? (u64)(i64)x : (u64)x;
			R[d.dst] = V(r & maskw(d.w2));
			break;
		}
		case D_COPY:
			for (u32 k = 0; k < d.n; k++) R[d.dst + k] = d.a >= 0 ? R[d.a + k] : f->pool[~d.a + k];
			break;
		case D_INSERT:
		{
			Val tmp[64];
			if (d.n > 64) endPath(END_INCONCLUSIVE, "large aggregate");
			for (u32 k = 0; k < d.n; k++) tmp[k] = d.a >= 0 ? R[d.a + k] : f->pool[~d.a + k];
			for (i32 k = 0; k < d.c; k++) tmp[d.m + k] = d.b >= 0 ? R[d.b + k] : f->pool[~d.b + k];
			for (u32 k = 0; k < d.n; k++) R[d.dst + k] = tmp[k];
			break;
		}
		case D_BITCAST:
		{
			Val a = getV(R, f, d.a);
			if (a.e)
			{
				if (d.w == 0 && d.w2 == 64) a = Val{0, mk(RBITS, 64, 0, rE(a))};
				else if (d.w == 64 && d.w2 == 0)
				{
					if (a.e->op != RBITS) endPath(END_INCONCLUSIVE, "symbolic bits to double");
					a = VE(a.e->a[0]);
				}
				else if (d.w != d.w2) endPath(END_INCONCLUSIVE, "symbolic bitcast");
			}
			R[d.dst] = a;
			break;
		}
		case D_EXTELT:
		{
			u64 i = concretize(getV(R, f, d.b), 64);
			if (i >= d.n) violation("memory", "vector index out of range");
			R[d.dst] = d.a >= 0 ? R[d.a + i] : f->pool[~d.a + i];
			break;
		}
		case D_INSELT:
		{
			u64 i = concretize(getV(R, f, d.c), 64);
			if (i >= d.n) violation("memory", "vector index out of range");
			Val x = getV(R, f, d.b);
			Val tmp[64];
			for (u32 k = 0; k < d.n; k++) tmp[k] = d.a >= 0 ? R[d.a + k] : f->pool[~d.a + k];
			tmp[i] = x;
			for (u32 k = 0; k < d.n; k++) R[d.dst + k] = tmp[k];
			break;
		}
		case D_SHUF:
		{
			Val tmp[64];
			for (u32 k = 0; k < d.n; k++)
			{
				i32 ix = (*d.ops)[k];
				if (ix < 0) tmp[k] = V(0);
				else if ((u32)ix < d.m) tmp[k] = d.a >= 0 ? R[d.a + ix] : f->pool[~d.a + ix];
				else tmp[k] = d.b >= 0 ? R[d.b + ix - d.m] : f->pool[~d.b + ix - d.m];
			}
			for (u32 k = 0; k < d.n; k++) R[d.dst + k] = tmp[k];
			break;
		}
		case D_RMW:
		{
			u64 a = concretize(getV(R, f, d.a), 64);
			u32 off;
			Obj &o = objAt(a, d.n, off, true);
			Val old = o.sym ? loadSym(o, off, d.n) : V(loadRaw(o.data + off, d.n));
			Val x = getV(R, f, d.b), nv;
			switch (d.sub)
			{
			case AtomicRMWInst::Xchg: nv = x; break;
			case AtomicRMWInst::Add: nv = mkBin(XADD, d.w, old, x); break;
			case AtomicRMWInst::Sub: nv = mkBin(XSUB, d.w, old, x); break;
			case AtomicRMWInst::And: nv = mkBin(XAND, d.w, old, x); break;
			case AtomicRMWInst::Or: nv = mkBin(XOR_, d.w, old, x); break;
			default: endPath(END_INCONCLUSIVE, "atomic operation");
			}
			storeV(o, off, d.n, nv);
			R[d.dst] = old;
			break;
		}
		case D_CMPXCHG:
		{
			u64 a = concretize(getV(R, f, d.a), 64);
			u32 off;
			Obj &o = objAt(a, d.n, off, true);
			Val old = o.sym ? loadSym(o, off, d.n) : V(loadRaw(o.data + off, d.n));
			bool eq = branchV(mkBin(XEQ, d.w, old, getV(R, f, d.b)));
			if (eq) storeV(objs[a >> 32], off, d.n, getV(R, f, d.c));
			R[d.dst] = old;
			R[d.dst + 1] = V(eq);
			break;
		}
		default:
		{
			std::string s;
			raw_string_ostream os(s);
			if (d.I) d.I->print(os);
			endPath(END_INCONCLUSIVE, "instruction not handled: " + os.str().substr(0, 200));
		}
		}
	}
}
static void callFunction(DFunc *f, std::vector<Val> args)
{
	size_t base = frames.size();
	pushFrame(f, args.data(), args.size());
	run(base);
}
// ------------------------------------------------------------------ builtins
typedef std::vector<Val> AV;
static u64 cc(Val v) { return v.e ? concretize(v, v.e->w) : v.c; }
static void doThrow(u64 exc) { unwind(exc); }
static Val symVar(const std::string &base, u8 w, bool sgn, i64 add = 0)
{
	int k = nameUse[base]++;
	VarInfo v;
	v.name = k ? base + "#" + std::to_string(k) : base;
	v.w = w;
	v.sgn = sgn;
	v.val = 0;
	v.aux = false;
	v.add = add;
	v.e = mk(XVAR, w, vars.size());
	vars.push_back(v);
	return Val{0, v.e};
}
static void assumeV(Val c)
{
	if (!c.e)
	{
		if (!(c.c & 1)) endPath(END_ASSUME);
		return;
	}
	auto it = known.find(c.e);
	if (it != known.end())
	{
		if (!it->second) endPath(END_ASSUME);
		return;
	}
	if (c.e->flags == 3)
	{
		if (!branchE(c.e)) endPath(END_ASSUME);
		return;
	}
	checkDeadline();
	if (!isReal(c.e))
	{
		bool dv;
		Expr *o = c.e;
		if (decided(c.e, dv))
		{
			if (!dv) endPath(END_ASSUME);
			return;
		}
		if (c.e != o) { assumeV(c); known[o] = true; return; }
		if (!ev(c.e))
		{
			int r = query(sBV, tr(c.e));
			if (r == 0) { popq(sBV); endPath(END_ASSUME); }
			if (r < 0) endPath(END_INCONCLUSIVE, "solver gave no answer on an assumption");
			readBVModel(sBV);
			popq(sBV);
		}
		assertC(c.e, true);
		return;
	}
	int r = query(sRE, tr(c.e));
	popq(sRE);
	if (r == 0) endPath(END_ASSUME);
	assertC(c.e, true);
}
static void checkV(Val c, const std::string &id)
{
	int k = chkIndex(id.substr(0, 63).c_str());
	ATOMIC_ADD(sh->chk[k].evaluated, 1);
	if (!c.e)
	{
		if (!(c.c & 1))
		{
			refreshReals();
			recordViolation(id, "check", "false on this path");
		}
		return;
	}
	auto it = known.find(c.e);
	if (it != known.end())
	{
		if (!it->second) { refreshReals(); recordViolation(id, "check", "false on this path"); }
		return;
	}
	if (c.e->flags == 3)
	{
		if (!branchE(c.e)) { refreshReals(); recordViolation(id, "check", "false on this path"); }
		return;
	}
	if (!isReal(c.e))
	{
		bool dv;
		if (decided(c.e, dv))
		{
			if (!dv) { refreshReals(); recordViolation(id, "check", "false on this path"); }
			return;
		}
	}
	ATOMIC_ADD(sh->chk[k].symbolic, 1);
	checkDeadline();
	Z3_ast nz = Z3_mk_not(zc, tr(c.e));
	if (!isReal(c.e))
	{
		int r = query(sBV, nz);
		if (r == 1)
		{
			std::vector<u64> old;
			for (auto &v : vars) old.push_back(v.val);
			readBVModel(sBV);
			popq(sBV);
			refreshReals();
			recordViolation(id, "check", "counterexample");
			for (size_t i = 0; i < vars.size(); i++) vars[i].val = old[i];
			epoch++;
			if (!ev(c.e))
			{
				int q = query(sBV, tr(c.e));
				if (q != 1) { popq(sBV); endPath(END_VIOLATION); }
				readBVModel(sBV);
				popq(sBV);
			}
			assertC(c.e, true);
			return;
		}
		popq(sBV);
		if (r < 0) endPath(END_INCONCLUSIVE, "solver gave no answer on check " + id);
		if (auditMode) recheckUnsat(nz);
		note(c.e, true);
		return;
	}
	int r = query(sRE, nz);
	if (r == 1)
	{
		readRealModel(sRE);
		popq(sRE);
		recordViolation(id, "check", "counterexample");
		int q = query(sRE, tr(c.e));
		popq(sRE);
		if (q != 1) endPath(END_VIOLATION);
		assertC(c.e, true);
		return;
	}
	popq(sRE);
	if (r < 0) endPath(END_INCONCLUSIVE, "solver gave no answer on check " + id);
	note(c.e, true);
}
static void sameV(Val a, Val b, const std::string &id)
{
	int k = chkIndex(id.substr(0, 63).c_str());
	ATOMIC_ADD(sh->chk[k].evaluated, 1);
	if (!a.e && !b.e)
	{
		double x = asD(a.c), y = asD(b.c);
		if (!(std::fabs(x - y) <= 1e-9 * (1 + std::fabs(x) + std::fabs(y))))
		{
			refreshReals();
			recordViolation(id, "check", "values " + std::to_string(x) + " and " + std::to_string(y) + " differ");
		}
		return;
	}
	for (Val v : {a, b})
		if (!v.e && !std::isfinite(asD(v.c)))
		{
			refreshReals();
			recordViolation(id, "check", "non finite value");
			return;
		}
	checkDeadline();
	ATOMIC_ADD(sh->chk[k].symbolic, 1);
	u64 t0 = now_ns();
	Expr *x = rE(a), *y = rE(b);
	if (x == y)
	{
		ATOMIC_ADD(sh->simplified, 1);
		return;
	}
	Z3_ast pr[2] = {tr(x), tr(y)};
	Z3_ast diff = Z3_mk_sub(zc, 2, pr);
	static Z3_params som = nullptr;
	if (!som)
	{
		som = Z3_mk_params(zc);
		Z3_params_inc_ref(zc, som);
		Z3_params_set_bool(zc, som, Z3_mk_string_symbol(zc, "som"), true);
		Z3_params_set_uint(zc, som, Z3_mk_string_symbol(zc, "som_blowup"), 100000);
	}
	SolverCall timed;
	Z3_ast ds = Z3_simplify_ex(zc, diff, som);
	Z3_inc_ref(zc, ds);
	ATOMIC_ADD(sh->solver_ns, now_ns() - t0);
	if (Z3_is_numeral_ast(zc, ds) && !strcmp(Z3_get_numeral_string(zc, ds), "0"))
	{
		ATOMIC_ADD(sh->simplified, 1);
		return;
	}
	Z3_ast ne = Z3_mk_not(zc, Z3_mk_eq(zc, ds, realConst(0)));
	int r = query(sRE, ne);
	if (r == 0)
	{
		popq(sRE);
		return;
	}
	popq(sRE);
	// look for a counterexample that survives rounding
	std::vector<Z3_ast> bnd;
	for (auto &v : vars)
		if (!v.w && !v.aux)
		{
			bnd.push_back(Z3_mk_le(zc, tr(v.e), realConst(16)));
			bnd.push_back(Z3_mk_ge(zc, tr(v.e), realConst(-16)));
		}
	int found = 0;
	bool refuted = true;
	for (double th : {0.5, 1e-3, 1e-6})
	{
		std::vector<Z3_ast> c = bnd;
		Z3_ast o[2] = {Z3_mk_ge(zc, ds, realConst(th)), Z3_mk_le(zc, ds, realConst(-th))};
		c.push_back(Z3_mk_or(zc, 2, o));
		int q = query(sRE, Z3_mk_and(zc, (unsigned)c.size(), c.data()));
		if (q == 1)
		{
			readRealModel(sRE);
			popq(sRE);
			found = 1;
			break;
		}
		popq(sRE);
		if (q < 0) refuted = false;
	}
	if (!found)
	{
		if (refuted) return; // equal up to rounding of the constants for |inputs| <= 16
		if (r < 0) endPath(END_INCONCLUSIVE, "solver gave no answer on check " + id);
		endPath(END_INCONCLUSIVE, "no usable counterexample for check " + id);
	}
	recordViolation(id, "check", "values differ");
}
static void memViolCheckFree(u64 p, const char *what)
{
	u32 idx = (u32)(p >> 32);
	if (idx == 0 || idx >= objs.size() || objs[idx].kind == O_DEAD) violation("memory", std::string("invalid or double ") + what);
	if (objs[idx].kind != O_HEAP || (p & 0xffffffff) != OFF0) violation("memory", std::string(what) + " of memory that was not allocated");
	killObj(idx);
}
static void setupBuiltins()
{
	auto &B = builtins;
	auto alloc = [](AV &a, DI &, Val *r) { r[0] = V(allocObj(cc(a[0]), O_HEAP)); };
	for (const char *n : {"_Znwm", "_Znam", "malloc", "_ZnwmSt11align_val_t", "_ZnamSt11align_val_t", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t"}) B[n] = alloc;
	B["calloc"] = [](AV &a, DI &, Val *r) {
		u64 n = cc(a[0]) * cc(a[1]);
		r[0] = V(allocObj(n, O_HEAP));
		memset(objs[r[0].c >> 32].data, 0, n);
	};
	B["aligned_alloc"] = [](AV &a, DI &, Val *r) { r[0] = V(allocObj(cc(a[1]), O_HEAP)); };
	B["realloc"] = [](AV &a, DI &, Val *r) {
		u64 p = cc(a[0]), n = cc(a[1]);
		u64 q = allocObj(n, O_HEAP);
		if (p)
		{
			copyMem(q, p, std::min<u64>(n, objs[p >> 32].size));
			memViolCheckFree(p, "realloc");
		}
		r[0] = V(q);
	};
	auto del = [](AV &a, DI &, Val *) {
		u64 p = cc(a[0]);
		if (p) memViolCheckFree(p, "delete");
	};
	for (const char *n : {"_ZdlPv", "_ZdlPvm", "_ZdaPv", "_ZdaPvm", "free", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdaPvSt11align_val_t", "_ZdlPvRKSt9nothrow_t", "_ZdaPvRKSt9nothrow_t"}) B[n] = del;
	auto cpy = [](AV &a, DI &, Val *r) {
		u64 d = cc(a[0]), s = cc(a[1]), n = cc(a[2]);
		copyMem(d, s, n);
		r[0] = V(d);
	};
	B["memcpy"] = B["memmove"] = cpy;
	auto set = [](AV &a, DI &, Val *r) {
		u64 d = cc(a[0]), n = cc(a[2]);
		u8 x = (u8)cc(a[1]);
		r[0] = V(d);
		if (!n) return;
		u32 off;
		Obj &o = objAt(d, n, off, true);
		if (o.sym && !o.sym->empty()) splitOverlap(o, off, (u32)n, true);
		memset(o.data + off, x, n);
	};
	B["memset"] = set;
	auto cmp = [](AV &a, DI &, Val *r) {
		u64 p = cc(a[0]), q = cc(a[1]), n = cc(a[2]);
		for (u64 i = 0; i < n; i++)
		{
			u32 o1, o2;
			Obj &x = objAt(p + i, 1, o1, false);
			Val u = x.sym ? loadSym(x, o1, 1) : V(x.data[o1]);
			Obj &y = objAt(q + i, 1, o2, false);
			Val w = y.sym ? loadSym(y, o2, 1) : V(y.data[o2]);
			if (branchV(mkBin(XEQ, 8, u, w))) continue;
			r[0] = V(branchV(mkBin(XULT, 8, u, w)) ? 0xffffffffu : 1);
			return;
		}
		r[0] = V(0);
	};
	B["memcmp"] = B["bcmp"] = cmp;
	B["strlen"] = [](AV &a, DI &, Val *r) { r[0] = V(readStr(cc(a[0])).size()); };
	B["strcmp"] = [](AV &a, DI &, Val *r) { r[0] = V((u64)(u32)readStr(cc(a[0])).compare(readStr(cc(a[1])))); };
	B["memchr"] = [](AV &a, DI &, Val *r) {
		u64 p = cc(a[0]), n = cc(a[2]);
		u8 ch = (u8)cc(a[1]);
		for (u64 i = 0; i < n; i++)
		{
			u32 off;
			Obj &o = objAt(p + i, 1, off, false);
			if (o.data[off] == ch) { r[0] = V(p + i); return; }
		}
		r[0] = V(0);
	};
	B["abort"] = [](AV &, DI &, Val *) { violation("abort", "abort called"); };
	B["exit"] = [](AV &, DI &, Val *) { violation("abort", "exit called"); };
	B["_ZSt9terminatev"] = [](AV &, DI &, Val *) { violation("abort", "std::terminate called"); };
	B["__clang_call_terminate"] = [](AV &, DI &, Val *) { violation("abort", "exception escapes a noexcept function"); };
	B["__cxa_pure_virtual"] = [](AV &, DI &, Val *) { violation("abort", "pure virtual call"); };
	B["__assert_fail"] = [](AV &a, DI &, Val *) { violation("assert", "assertion failed: " + readStr(cc(a[0])) + " at " + readStr(cc(a[1]))); };
	auto zero = [](AV &, DI &, Val *r) { r[0] = V(0); };
	for (const char *n : {"__cxa_atexit", "atexit", "puts", "printf", "fprintf", "putchar", "fflush", "pthread_mutex_lock", "pthread_mutex_unlock", "_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev", "__cxa_thread_atexit", "getenv", "fputs", "fwrite"}) B[n] = zero;
	B["__cxa_guard_acquire"] = [](AV &a, DI &, Val *r) {
		u32 off;
		Obj &o = objAt(cc(a[0]), 1, off, false);
		r[0] = V(o.data[off] == 0);
	};
	B["__cxa_guard_release"] = [](AV &a, DI &, Val *) {
		u32 off;
		Obj &o = objAt(cc(a[0]), 1, off, true);
		o.data[off] = 1;
	};
	B["__cxa_guard_abort"] = zero;
	// exceptions
	B["__cxa_allocate_exception"] = [](AV &a, DI &, Val *r) { r[0] = V(allocObj(cc(a[0]), O_HEAP)); };
	B["__cxa_free_exception"] = [](AV &a, DI &, Val *) { memViolCheckFree(cc(a[0]), "free"); };
	B["__cxa_throw"] = [](AV &a, DI &, Val *) {
		u64 e = cc(a[0]);
		excs[e] = ExcInfo{cc(a[1]), cc(a[2]), e, 0, false};
		builtinUnwound = true;
		unwind(e);
	};
	B["__cxa_begin_catch"] = [](AV &a, DI &, Val *r) {
		u64 e = cc(a[0]);
		excs[e].handlers++;
		excs[e].rethrown = false;
		caught.push_back(e);
		r[0] = V(excs[e].adjusted);
	};
	B["__cxa_get_exception_ptr"] = [](AV &a, DI &, Val *r) { r[0] = V(excs[cc(a[0])].adjusted); };
	B["__cxa_end_catch"] = [](AV &, DI &, Val *) {
		if (caught.empty()) violation("abort", "end_catch without exception");
		u64 e = caught.back();
		caught.pop_back();
		ExcInfo &x = excs[e];
		if (--x.handlers == 0 && !x.rethrown)
		{
			u64 dt = x.dtor;
			excs.erase(e);
			if (dt)
			{
				DFunc *f = callee(dt);
				if (!f->F->isDeclaration()) callFunction(f, {V(e)});
			}
			u32 idx = (u32)(e >> 32);
			if (objs[idx].kind == O_HEAP) killObj(idx);
		}
	};
	B["__cxa_rethrow"] = [](AV &, DI &, Val *) {
		if (caught.empty()) violation("abort", "rethrow without exception");
		u64 e = caught.back();
		excs[e].rethrown = true;
		builtinUnwound = true;
		unwind(e);
	};
	B["_Unwind_Resume"] = [](AV &a, DI &, Val *) {
		builtinUnwound = true;
		unwind(cc(a[0]));
	};
	B["__dynamic_cast"] = [](AV &a, DI &, Val *r) {
		u64 p = cc(a[0]), dst = cc(a[2]);
		if (!p) { r[0] = V(0); return; }
		u64 vp = memU64(p);
		i64 top = (i64)memU64(vp - 16);
		u64 ti = memU64(vp - 8);
		std::vector<Sub> s;
		subobjects(ti, p + top, s);
		for (auto &x : s)
			if (tiSame(x.ti, dst)) { r[0] = V(x.addr); return; }
		r[0] = V(0);
	};
	B["llvm.eh.typeid.for"] = B["llvm.eh.typeid.for.p0"] = [](AV &a, DI &, Val *r) { r[0] = V(typeIdFor(cc(a[0]))); };
	// harness interface
	B["sym_int"] = [](AV &a, DI &, Val *r) {
		std::string n = readStr(cc(a[0]));
		i64 lo = sx(cc(a[1]), 32), hi = sx(cc(a[2]), 32);
		if (hi < lo) endPath(END_ASSUME);
		if (lo == hi)
		{
			nameUse[n]++;
			r[0] = V((u64)lo & 0xffffffff);
			// keep it in the inputs
			VarInfo v;
			int k = nameUse[n] - 1;
			v.name = k ? n + "#" + std::to_string(k) : n;
			v.w = 32; v.sgn = false; v.val = 0; v.aux = false; v.add = lo;
			v.e = mk(XVAR, 32, vars.size());
			vars.push_back(v);
			return;
		}
		u64 span = (u64)(hi - lo);
		u8 w = 1;
		while (w < 33 && (span >> w)) w++;
		if (w < 2) w = 2;
		Val x = symVar(n, w, false, lo);
		if (span < 64)
		{
			varSpan.resize(vars.size(), 0);
			varSpan[x.e->c] = (u32)span + 1;
		}
		if (span != maskw(w)) assertC(mkBin(XULE, w, x, V(span)).e, true);
		r[0] = mkBin(XADD, 32, mkExt(XZEXT, w, 32, x), V((u64)lo & 0xffffffff));
	};
	B["sym_choose"] = [](AV &a, DI &, Val *r) {
		std::string n = readStr(cc(a[0]));
		i64 hi = sx(cc(a[1]), 32) - 1;
		if (hi < 0) endPath(END_ASSUME);
		u8 w = 1;
		while (w < 33 && ((u64)hi >> w)) w++;
		if (w < 2) w = 2;
		Val x = symVar(n, w, false, 0);
		if ((u64)hi != maskw(w)) assertC(mkBin(XULE, w, x, V((u64)hi)).e, true);
		r[0] = V(concretize(x, w));
	};
	B["sym_i16"] = [](AV &a, DI &, Val *r) { r[0] = symVar(readStr(cc(a[0])), 16, true); };
	B["sym_u16"] = [](AV &a, DI &, Val *r) { r[0] = symVar(readStr(cc(a[0])), 16, false); };
	B["sym_i64"] = [](AV &a, DI &, Val *r) { r[0] = symVar(readStr(cc(a[0])), 64, true); };
	B["sym_real"] = [](AV &a, DI &, Val *r) {
		std::string n = readStr(cc(a[0]));
		int k = nameUse[n]++;
		r[0] = realVar(k ? n + "#" + std::to_string(k) : n, false);
	};
	B["sym_concretize"] = [](AV &a, DI &, Val *r) { r[0] = V(cc(a[0])); };
	B["sym_assume"] = [](AV &a, DI &, Val *) { assumeV(a[0]); };
	B["sym_assume_real"] = B["sym_assume"];
	B["sym_check"] = [](AV &a, DI &, Val *) { checkV(a[0], readStr(cc(a[1]))); };
	B["sym_fail"] = [](AV &a, DI &, Val *) { checkV(V(0), readStr(cc(a[0]))); };
	B["sym_same"] = [](AV &a, DI &, Val *) { sameV(a[0], a[1], readStr(cc(a[2]))); };
	B["sym_is_symbolic"] = [](AV &a, DI &, Val *r) { r[0] = V(a[0].e != nullptr); };
	B["sym_native"] = [](AV &a, DI &, Val *r) { r[0] = V(0); };
	B["sym_observe"] = [](AV &a, DI &, Val *) { observed.push_back({readStr(cc(a[0])), a[1]}); };
	B["sym_cover"] = [](AV &a, DI &, Val *) {
		std::string id = readStr(cc(a[0])).substr(0, 63);
		for (u32 i = 0; i < sh->ncov; i++)
			if (sh->covEntry[i] == (u32)curEntry && id == sh->cov[i]) { ATOMIC_ADD(sh->covN[i], 1); return; }
		sem_wait(&sh->lock);
		u32 i = 0;
		for (; i < sh->ncov; i++)
			if (sh->covEntry[i] == (u32)curEntry && id == sh->cov[i]) break;
		if (i == sh->ncov && i < MAXCOV)
		{
			strncpy(sh->cov[i], id.c_str(), 63);
			sh->covEntry[i] = (u32)curEntry;
			sh->ncov++;
		}
		if (i < MAXCOV) ATOMIC_ADD(sh->covN[i], 1);
		sem_post(&sh->lock);
	};
	// maths
	auto m1 = [&](const char *n, double (*fn)(double)) {
		B[n] = [fn, n](AV &a, DI &d, Val *r) {
			if (a[0].e) endPath(END_INCONCLUSIVE, std::string("symbolic ") + n);
			r[0] = fromF(fn(toF(a[0], (*d.ws)[0])), d.w);
		};
	};
	m1("exp", std::exp); m1("log", std::log); m1("log10", std::log10); m1("log2", std::log2); m1("sin", std::sin); m1("cos", std::cos); m1("floor", std::floor); m1("ceil", std::ceil); m1("round", std::round); m1("llvm.floor.f64", std::floor); m1("llvm.ceil.f64", std::ceil); m1("llvm.round.f64", std::round); m1("llvm.rint.f64", std::rint); m1("llvm.trunc.f64", std::trunc); m1("llvm.log.f64", std::log); m1("llvm.exp.f64", std::exp); m1("llvm.log2.f64", std::log2); m1("llvm.log10.f64", std::log10); m1("tanh", std::tanh); m1("acos", std::acos); m1("llvm.cos.f64", std::cos); m1("llvm.sin.f64", std::sin);
	auto sq = [](AV &a, DI &d, Val *r) { r[0] = a[0].e ? rsqrt(a[0]) : fromF(std::sqrt(toF(a[0], (*d.ws)[0])), d.w); };
	B["sqrt"] = B["llvm.sqrt.f64"] = B["sqrtf"] = B["llvm.sqrt.f32"] = sq;
	auto fa = [](AV &a, DI &d, Val *r) {
		if (!a[0].e) { r[0] = fromF(std::fabs(toF(a[0], (*d.ws)[0])), d.w); return; }
		r[0] = mkRIte(mkR(RLT, a[0], V(fromD(0))), mkR(RNEG, a[0], V(0)), a[0]);
	};
	B["fabs"] = B["llvm.fabs.f64"] = B["llvm.fabs.f32"] = fa;
	B["llvm.fmuladd.f64"] = B["llvm.fma.f64"] = B["fma"] = [](AV &a, DI &, Val *r) { r[0] = fbin(RADD, 0, fbin(RMUL, 0, a[0], a[1]), a[2]); };
	B["llvm.fmuladd.f32"] = [](AV &a, DI &, Val *r) { r[0] = fbin(RADD, 33, fbin(RMUL, 33, a[0], a[1]), a[2]); };
	auto mm = [](bool mx) {
		return [mx](AV &a, DI &d, Val *r) {
			u8 w = (*d.ws)[0];
			if (!a[0].e && !a[1].e)
			{
				double x = toF(a[0], w), y = toF(a[1], w);
				r[0] = fromF(mx ? std::fmax(x, y) : std::fmin(x, y), w);
				return;
			}
			Val lt = fcmp(CmpInst::FCMP_OLT, w, a[0], a[1]);
			r[0] = mx ? mkRIte(lt, a[1], a[0]) : mkRIte(lt, a[0], a[1]);
		};
	};
	B["fmin"] = B["llvm.minnum.f64"] = mm(false);
	B["fmax"] = B["llvm.maxnum.f64"] = mm(true);
	B["llvm.copysign.f64"] = [](AV &a, DI &, Val *r) {
		if (a[1].e || a[0].e) endPath(END_INCONCLUSIVE, "symbolic copysign");
		r[0] = V(fromD(std::copysign(asD(a[0].c), asD(a[1].c))));
	};
	auto pw = [](AV &a, DI &, Val *r) {
		if (!a[0].e && !a[1].e) { r[0] = V(fromD(std::pow(asD(a[0].c), asD(a[1].c)))); return; }
		if (a[1].e)
		{
			endPath(END_INCONCLUSIVE, "symbolic exponent");
		}
		double y = asD(a[1].c);
		if (y == 0.5) { r[0] = rsqrt(a[0]); return; }
		bool inv = y < 0;
		double n = std::fabs(y);
		if (n != std::floor(n) || n > 8) endPath(END_INCONCLUSIVE, "symbolic power");
		Val x = V(fromD(1));
		for (int i = 0; i < (int)n; i++) x = mkR(RMUL, x, a[0]);
		if (inv) x = fbin(RDIV, 0, V(fromD(1)), x);
		r[0] = x;
	};
	B["pow"] = B["llvm.pow.f64"] = pw;
	B["llvm.powi.f64.i32"] = [pw](AV &a, DI &d, Val *r) {
		AV b = {a[0], V(fromD((double)sx(cc(a[1]), 32)))};
		pw(b, d, r);
	};
	B["llvm.is.fpclass.f64"] = [](AV &a, DI &, Val *r) {
		u64 m = cc(a[1]);
		if (a[0].e)
		{
			// finite: classes 3(neg normal..) treat as finite number: nan bits 0,1; inf bits 2,9
			bool onlySpecial = (m & ~0x207ull) == 0;
			if (onlySpecial) { r[0] = V(0); return; }
			if ((m & ~0x207ull) == (0x3ff & ~0x207ull)) { r[0] = V(1); return; }
			endPath(END_INCONCLUSIVE, "fpclass");
		}
		double x = asD(a[0].c);
		bool neg = std::signbit(x);
		u64 cls;
		if (std::isnan(x)) cls = 3;
		else if (std::isinf(x)) cls = neg ? 4 : 0x200;
		else if (x == 0) cls = neg ? 0x20 : 0x40;
		else if (std::fpclassify(x) == FP_SUBNORMAL) cls = neg ? 0x10 : 0x80;
		else cls = neg ? 8 : 0x100;
		r[0] = V((m & cls) != 0);
	};
}
static bool prefixIs(const std::string &s, const char *p) { return s.compare(0, strlen(p), p) == 0; }
static void bindIntrinsic(DFunc *f)
{
	const std::string &n = f->name;
	auto set = [&](std::function<void(AV &, DI &, Val *)> fn) {
		f->builtin = fn;
		f->isBuiltin = true;
	};
	auto it = builtins.find(n);
	if (it != builtins.end()) return set(it->second);
	if (!prefixIs(n, "llvm.")) return;
	if (prefixIs(n, "llvm.memcpy") || prefixIs(n, "llvm.memmove")) return set(builtins["memcpy"]);
	if (prefixIs(n, "llvm.memset")) return set(builtins["memset"]);
	auto ovf = [&](u8 op, bool sgn) {
		set([op, sgn](AV &a, DI &d, Val *r) {
			u8 w = (*d.ws)[0];
			Val s = mkBin(op, w, a[0], a[1]);
			r[0] = s;
			if (op == XMUL)
			{
				if (!a[0].e && !a[1].e)
				{
					__int128 p;
					if (sgn) { p = (__int128)sx(a[0].c, w) * sx(a[1].c, w); r[1] = V(p != (__int128)sx((u64)p, w)); }
					else { unsigned __int128 q = (unsigned __int128)(a[0].c & maskw(w)) * (a[1].c & maskw(w)); r[1] = V(q >> w ? 1 : 0); }
					return;
				}
				if (w > 32) endPath(END_INCONCLUSIVE, "wide symbolic multiply overflow");
				u8 W = w * 2;
				u8 ex = sgn ? XSEXT : XZEXT;
				Val p = mkBin(XMUL, W, mkExt(ex, w, W, a[0]), mkExt(ex, w, W, a[1]));
				r[1] = mkNot(mkBin(XEQ, W, p, mkExt(ex, w, W, s)));
				return;
			}
			if (w >= 64)
			{
				if (!sgn) { r[1] = op == XADD ? mkBin(XULT, w, s, a[0]) : mkBin(XULT, w, a[0], a[1]); return; }
				Val sa = mkBin(XSLT, w, a[0], V(0)), sb = mkBin(XSLT, w, a[1], V(0)), ss = mkBin(XSLT, w, s, V(0));
				Val same = mkBin(XEQ, 1, sa, sb);
				r[1] = op == XADD ? mkBin(XAND, 1, same, mkBin(XXOR, 1, sa, ss)) : mkBin(XAND, 1, mkNot(same), mkBin(XXOR, 1, sa, ss));
				return;
			}
			u8 W = w + 1;
			u8 ex = sgn ? XSEXT : XZEXT;
			Val p = mkBin(op, W, mkExt(ex, w, W, a[0]), mkExt(ex, w, W, a[1]));
			r[1] = mkNot(mkBin(XEQ, W, p, mkExt(ex, w, W, s)));
		});
	};
	if (prefixIs(n, "llvm.sadd.with.overflow")) return ovf(XADD, true);
	if (prefixIs(n, "llvm.uadd.with.overflow")) return ovf(XADD, false);
	if (prefixIs(n, "llvm.ssub.with.overflow")) return ovf(XSUB, true);
	if (prefixIs(n, "llvm.usub.with.overflow")) return ovf(XSUB, false);
	if (prefixIs(n, "llvm.smul.with.overflow")) return ovf(XMUL, true);
	if (prefixIs(n, "llvm.umul.with.overflow")) return ovf(XMUL, false);
	auto mmx = [&](u8 cmp, bool wantLess) {
		unsigned n_ = nslots(f->F->getReturnType());
		set([cmp, wantLess, n_](AV &a, DI &d, Val *r) {
			u8 w = (*d.ws)[0];
			for (unsigned k = 0; k < n_; k++)
			{
				Val x = a[k], y = a[n_ + k];
				unmix(x, w, y, w);
				Val lt = mkBin(cmp, w, x, y);
				r[k] = wantLess ? mkIte(w, lt, x, y) : mkIte(w, lt, y, x);
			}
		});
	};
	if (prefixIs(n, "llvm.smin.")) return mmx(XSLT, true);
	if (prefixIs(n, "llvm.smax.")) return mmx(XSLT, false);
	if (prefixIs(n, "llvm.umin.")) return mmx(XULT, true);
	if (prefixIs(n, "llvm.umax.")) return mmx(XULT, false);
	if (prefixIs(n, "llvm.abs."))
		return set([](AV &a, DI &d, Val *r) {
			u8 w = (*d.ws)[0];
			r[0] = mkIte(w, mkBin(XSLT, w, a[0], V(0)), mkBin(XSUB, w, V(0), a[0]), a[0]);
		});
	if (prefixIs(n, "llvm.usub.sat"))
		return set([](AV &a, DI &d, Val *r) {
			u8 w = (*d.ws)[0];
			r[0] = mkIte(w, mkBin(XULT, w, a[0], a[1]), V(0), mkBin(XSUB, w, a[0], a[1]));
		});
	if (prefixIs(n, "llvm.uadd.sat"))
		return set([](AV &a, DI &d, Val *r) {
			u8 w = (*d.ws)[0];
			Val s = mkBin(XADD, w, a[0], a[1]);
			r[0] = mkIte(w, mkBin(XULT, w, s, a[0]), V(maskw(w)), s);
		});
	if (prefixIs(n, "llvm.fshl") || prefixIs(n, "llvm.fshr"))
	{
		bool left = n[8] == 'l';
		return set([left](AV &a, DI &d, Val *r) {
			u8 w = (*d.ws)[0];
			u64 k = cc(a[2]) % w;
			if (k == 0) { r[0] = left ? a[0] : a[1]; return; }
			Val hi = mkBin(XSHL, w, a[0], V(left ? k : w - k)), lo = mkBin(XLSHR, w, a[1], V(left ? w - k : k));
			r[0] = mkBin(XOR_, w, hi, lo);
		});
	}
	if (prefixIs(n, "llvm.ctpop")) return set([](AV &a, DI &d, Val *r) { r[0] = V(__builtin_popcountll(cc(a[0]) & maskw((*d.ws)[0]))); });
	if (prefixIs(n, "llvm.ctlz"))
		return set([](AV &a, DI &d, Val *r) {
			u8 w = (*d.ws)[0];
			u64 x = cc(a[0]) & maskw(w);
			r[0] = V(x ? __builtin_clzll(x) - (64 - w) : w);
		});
	if (prefixIs(n, "llvm.cttz"))
		return set([](AV &a, DI &d, Val *r) {
			u8 w = (*d.ws)[0];
			u64 x = cc(a[0]) & maskw(w);
			r[0] = V(x ? __builtin_ctzll(x) : w);
		});
	if (prefixIs(n, "llvm.bswap"))
		return set([](AV &a, DI &d, Val *r) {
			u8 w = (*d.ws)[0];
			u64 x = cc(a[0]);
			x = __builtin_bswap64(x) >> (64 - w);
			r[0] = V(x);
		});
	if (prefixIs(n, "llvm.expect")) return set([](AV &a, DI &, Val *r) { r[0] = a[0]; });
	if (prefixIs(n, "llvm.objectsize")) return set([](AV &, DI &, Val *r) { r[0] = V(~0ull); });
	if (prefixIs(n, "llvm.is.constant")) return set([](AV &, DI &, Val *r) { r[0] = V(0); });
	if (prefixIs(n, "llvm.threadlocal.address")) return set([](AV &a, DI &, Val *r) { r[0] = a[0]; });
	if (prefixIs(n, "llvm.trap") || prefixIs(n, "llvm.ubsantrap")) return set([](AV &, DI &, Val *) { violation("trap", "undefined behaviour trap"); });
	if (prefixIs(n, "llvm.stacksave")) return set([](AV &, DI &, Val *r) { r[0] = V(0); });
	if (prefixIs(n, "llvm.load.relative"))
		return set([](AV &a, DI &, Val *r) {
			u64 p = cc(a[0]);
			r[0] = V(p + (i64)(int32_t)memU32(p + cc(a[1])));
		});
}
static void jsonSummary(const std::vector<std::string> &entries, const std::vector<std::string> &args, double wall)
{
	std::ofstream f(outDir + "/summary.json");
	f << "{\"wall_s\":" << wall << ",\"queries\":" << sh->queries << ",\"unknown\":" << sh->unknown << ",\"audited\":" << sh->audited << ",\"simplified\":" << sh->simplified << ",\"solver_s\":" << sh->solver_ns / 1e9 << ",\n\"entries\":[";
	for (size_t i = 0; i < entries.size(); i++)
	{
		EntryStat &e = sh->ent[i];
		f << (i ? ",\n" : "\n") << "{\"entry\":\"" << entries[i] << "\",\"args\":\"" << args[i] << "\",\"paths\":" << e.paths << ",\"infeasible\":" << e.infeasible << ",\"inconclusive\":" << e.inconclusive << ",\"timeouts\":" << e.timeouts << ",\"assume_cut\":" << e.assumes_cut << ",\"instrs\":" << e.instrs << ",\"branches\":" << e.branches << ",\"forks\":" << e.forks << ",\"violations\":" << e.violations << ",\"wall_s\":" << e.ns / 1e9 << ",\"reason\":\"" << jsonEsc(e.reason) << "\",\"checks\":{";
		bool first = true;
		for (u32 k = 0; k < sh->nchk; k++)
			if (sh->chkEntry[k] == i)
			{
				f << (first ? "" : ",") << "\"" << jsonEsc(sh->chk[k].id) << "\":[" << sh->chk[k].evaluated << "," << sh->chk[k].symbolic << "," << sh->chk[k].violated << "]";
				first = false;
			}
		f << "},\"covers\":{";
		first = true;
		for (u32 k = 0; k < sh->ncov; k++)
			if (sh->covEntry[k] == i)
			{
				f << (first ? "" : ",") << "\"" << jsonEsc(sh->cov[k]) << "\":" << sh->covN[k];
				first = false;
			}
		f << "}}";
	}
	f << "],\n\"functions\":[";
	bool first = true;
	for (auto *d : allFuncs)
		if (d->fid < MAXFN * 4 && sh->fn[d->fid] == 1)
		{
			f << (first ? "" : ",") << "\"" << jsonEsc(demangle(d->name)) << "\"";
			first = false;
		}
	f << "]}\n";
}
int main(int argc, char **argv)
{
	rlimit rl;
	getrlimit(RLIMIT_STACK, &rl);
	if (rl.rlim_cur != RLIM_INFINITY && rl.rlim_cur < (512ull << 20) && !getenv("QSYM_STACK"))
	{
		rl.rlim_cur = rl.rlim_max == RLIM_INFINITY ? (1024ull << 20) : rl.rlim_max;
		setrlimit(RLIMIT_STACK, &rl);
		setenv("QSYM_STACK", "1", 1);
		execv("/proc/self/exe", argv);
	}
	std::string bc;
	int jobs = 8;
	double timeout = 60;
	std::vector<std::string> entries, eargs;
	for (int i = 1; i < argc; i++)
	{
		std::string a = argv[i];
		if (a == "--out") outDir = argv[++i];
		else if (a == "--jobs") jobs = atoi(argv[++i]);
		else if (a == "--timeout") timeout = atof(argv[++i]);
		else if (a == "--max-instr") maxInstr = strtoull(argv[++i], nullptr, 10);
		else if (a == "-v") verbose = true;
		else if (bc.empty()) bc = a;
		else
		{
			auto c = a.find(':');
			entries.push_back(a.substr(0, c));
			eargs.push_back(c == std::string::npos ? "" : a.substr(c + 1));
		}
	}
	mkdir(outDir.c_str(), 0755);
	sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	memset(sh, 0, sizeof *sh);
	sem_init(&sh->tokens, 1, (unsigned)jobs);
	sem_init(&sh->lock, 1, 1);
	LLVMContext C;
	SMDiagnostic err;
	auto mod = parseIRFile(bc, err, C);
	if (!mod)
	{
		err.print("qsym", errs());
		return 2;
	}
	M = mod.get();
	DL = &M->getDataLayout();
	stackMem = (Val *)mmap(nullptr, STACK_VALS * sizeof(Val), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	stackTop = stackMem;
	objs.reserve(1 << 16);
	objs.push_back(Obj{nullptr, 0, O_DEAD, 0, nullptr, nullptr});
	setupBuiltins();
	for (auto &F : *M)
	{
		DFunc *d = getFunc(&F);
		if (F.isDeclaration() || builtins.count(d->name)) bindIntrinsic(d);
	}
	for (auto &G : M->globals()) globalAddr(&G);
	for (auto &G : M->globals())
		if (G.hasInitializer())
		{
			u64 a = globalAddr(&G);
			u64 sz = DL->getTypeAllocSize(G.getValueType());
			u8 *p = objs[a >> 32].data;
			memset(p, 0, sz);
			writeConst(G.getInitializer(), p);
			if (G.isConstant()) objs[a >> 32].ro = 1;
		}
	// constructors
	std::vector<std::pair<u64, const Function *>> ctors;
	if (auto *gc = M->getGlobalVariable("llvm.global_ctors"))
		if (gc->hasInitializer())
			if (auto *ca = dyn_cast<ConstantArray>(gc->getInitializer()))
				for (auto &op : ca->operands())
				{
					auto *cs = cast<ConstantStruct>(op);
					if (auto *fn = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts()))
						ctors.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), fn});
				}
	std::stable_sort(ctors.begin(), ctors.end(), [](auto &a, auto &b) { return a.first < b.first; });
	deadline_ns = now_ns() + (u64)(timeout * 1e9);
	u64 mi = maxInstr;
	maxInstr = 2000000000ull;
	es = &sh->ent[MAXENT - 1];
	for (auto &c : ctors) callFunction(getFunc(c.second), {});
	maxInstr = mi;
	if (verbose) fprintf(stderr, "[init] %llu instructions, %zu objects\n", (unsigned long long)localInstr, objs.size());
	std::vector<pid_t> pids;
	u64 t0 = now_ns();
	for (size_t i = 0; i < entries.size(); i++)
	{
		while (sem_wait(&sh->tokens) < 0 && errno == EINTR) {}
		pid_t p = fork();
		if (p == 0)
		{
			prctl(PR_SET_PDEATHSIG, SIGKILL);
			struct sigaction sa = {};
			sa.sa_handler = onAlarm;
			sa.sa_flags = SA_RESTART;
			sigaction(SIGALRM, &sa, nullptr);
			arm();
			curEntry = (int)i;
			entryName = entries[i];
			entryArgs = eargs[i];
			es = &sh->ent[i];
			localInstr = pathInstr = 0;
			Z3_config cfg = Z3_mk_config();
			Z3_set_param_value(cfg, "model", "true");
			zc = Z3_mk_context(cfg);
			Z3_set_error_handler(zc, [](Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); });
			limitParams = Z3_mk_params(zc);
			Z3_params_inc_ref(zc, limitParams);
			Z3_params_set_uint(zc, limitParams, Z3_mk_string_symbol(zc, "rlimit"), 300000);
			freshParams = Z3_mk_params(zc);
			Z3_params_inc_ref(zc, freshParams);
			Z3_params_set_uint(zc, freshParams, Z3_mk_string_symbol(zc, "rlimit"), 60000000);
			sBV = Z3_mk_simple_solver(zc);
			Z3_solver_inc_ref(zc, sBV);
			Z3_solver_set_params(zc, sBV, limitParams);
			sRE = (Z3_solver)1;
			const Function *F = M->getFunction(entryName);
			if (!F || F->isDeclaration()) endPath(END_INCONCLUSIVE, "no such entry");
			std::vector<Val> av;
			std::stringstream ss(entryArgs);
			std::string tok;
			while (std::getline(ss, tok, ',')) av.push_back(V((u64)(u32)atoi(tok.c_str())));
			while (av.size() < 8) av.push_back(V(0));
			u64 te = now_ns();
			callFunction(getFunc(F), av);
			(void)te;
			es->ns = std::max<u64>(es->ns, now_ns() - t0);
			endPath(END_OK);
		}
		pids.push_back(p);
	}
	for (pid_t p : pids)
	{
		int st;
		waitpid(p, &st, 0);
		if (!WIFEXITED(st) || WEXITSTATUS(st))
			for (size_t i = 0; i < pids.size(); i++)
				if (pids[i] == p)
				{
					sh->ent[i].inconclusive++;
					if (!sh->ent[i].reason[0]) snprintf(sh->ent[i].reason, 500, "entry process died (status %x)", st);
				}
	}
	jsonSummary(entries, eargs, (now_ns() - t0) / 1e9);
	if (verbose)
		for (size_t i = 0; i < entries.size(); i++)
		{
			EntryStat &e = sh->ent[i];
			printf("%s(%s): paths %llu infeasible %llu inconclusive %llu timeouts %llu cut %llu violations %llu instrs %llu forks %llu %.2fs %s\n", entries[i].c_str(), eargs[i].c_str(), (unsigned long long)e.paths, (unsigned long long)e.infeasible, (unsigned long long)e.inconclusive, (unsigned long long)e.timeouts, (unsigned long long)e.assumes_cut, (unsigned long long)e.violations, (unsigned long long)e.instrs, (unsigned long long)e.forks, e.ns / 1e9, e.reason);
		}
	return 0;
}
