// Implementation of the mini torch reference model (see torch/torch.h).
#include <torch/torch.h>
#include <cmath>
#include "qsym.h"
namespace minitorch
{
bool symbolic_random = false;
std::vector<std::tuple<at::Tensor, at::Tensor, at::Tensor>> svd_log;
int svd_calls = 0, eigh_calls = 0;
decomposition svd_mode = decomposition::numeric;
bool sorted_spectrum = true, concrete_spectrum = false;
bool contract_product = true, contract_ortho = false;
} // namespace minitorch
namespace c10
{
static int category(ScalarType t)
{
	if (t == ScalarType::Bool) return 0;
	if (isIntegralType(t, false)) return 1;
	if (isFloatingType(t)) return 2;
	return 3;
}
ScalarType promoteTypes(ScalarType a, ScalarType b)
{
	if (a == b) return a;
	int ca = category(a), cb = category(b);
	if (ca != cb)
	{
		auto hi = ca > cb ? a : b, lo = ca > cb ? b : a;
		if (hi == ScalarType::ComplexFloat && lo == ScalarType::Double) return ScalarType::ComplexDouble;
		return hi;
	}
	if (ca == 1)
	{
		if ((a == ScalarType::Byte && b == ScalarType::Char) || (b == ScalarType::Byte && a == ScalarType::Char)) return ScalarType::Short;
		return a > b ? a : b;
	}
	if (ca == 2 && (a == ScalarType::BFloat16 || b == ScalarType::BFloat16))
	{
		auto o = a == ScalarType::BFloat16 ? b : a;
		return o == ScalarType::Half ? ScalarType::Float : o;
	}
	return a > b ? a : b;
}
std::ostream &operator<<(std::ostream &o, ScalarType t) { return o << (int)t; }
caffe2::TypeMeta TensorOptions::dtype() const { return caffe2::TypeMeta(has_dt ? dt : at::get_default_dtype_as_scalartype()); }
Scalar Scalar::log() const { return Scalar(std::log(v)); }
} // namespace c10
namespace at
{
static ScalarType g_default = ScalarType::Float;
ScalarType get_default_dtype_as_scalartype() { return g_default; }
using vec = std::vector<int64_t>;
[[noreturn]] static void err(const char *m) { throw Error(m); }
static ScalarType dtOf(const TensorOptions &o) { return o.has_dt ? o.dt : g_default; }
static int64_t prodv(const int64_t *p, size_t n)
{
	int64_t r = 1;
	for (size_t i = 0; i < n; i++) r *= p[i];
	return r;
}
static int64_t prodv(IntArrayRef s) { return prodv(s.data(), s.size()); }
static vec contigStrides(IntArrayRef s)
{
	vec st(s.size());
	int64_t k = 1;
	for (size_t i = s.size(); i-- > 0;)
	{
		st[i] = k;
		k *= s[i] > 1 ? s[i] : 1;
	}
	return st;
}
static Tensor mk(IntArrayRef s, ScalarType dt)
{
	for (auto x : s)
		if (x < 0) err("negative dimension");
	auto *p = new TensorImpl;
	p->st = intrusive_ptr<Storage_>(new Storage_);
	p->st->d.assign(prodv(s), 0.);
	p->sizes.assign(s.begin(), s.end());
	p->strides = contigStrides(s);
	p->dt = dt;
	return Tensor(intrusive_ptr<TensorImpl>(p));
}
static Tensor mkView(const Tensor &t, vec sizes, vec strides, int64_t off)
{
	auto *p = new TensorImpl;
	p->st = t.I().st;
	p->off = off;
	p->sizes = std::move(sizes);
	p->strides = std::move(strides);
	p->dt = t.I().dt;
	p->rg = t.I().rg;
	return Tensor(intrusive_ptr<TensorImpl>(p));
}
namespace impl_
{
Tensor makeTensor(std::vector<int64_t> sizes, ScalarType dt) { return mk(sizes, dt); }
Tensor emptyT(IntArrayRef s, TensorOptions o) { return mk(s, dtOf(o)); }
} // namespace impl_
// storage offsets of the elements of t expanded to shape s, row major
static vec offs(const TensorImpl &t, IntArrayRef s)
{
	size_t n = s.size(), m = t.sizes.size();
	int64_t tot = prodv(s);
	vec r;
	r.reserve(tot);
	if (tot == 0) return r;
	if (m > n) err("cannot broadcast to fewer dimensions");
	vec st(n, 0);
	for (size_t i = 0; i < m; i++)
	{
		size_t j = n - m + i;
		if (t.sizes[i] == s[j]) st[j] = t.strides[i];
		else if (t.sizes[i] == 1)
			st[j] = 0;
		else
			err("The size of tensor must match the existing size at non-singleton dimension");
	}
	r.push_back(t.off);
	for (size_t j = 0; j < n; j++)
	{
		int64_t k = s[j];
		if (k == 1) continue;
		vec q;
		q.reserve(r.size() * k);
		for (auto b : r)
			for (int64_t x = 0; x < k; x++) q.push_back(b + x * st[j]);
		r.swap(q);
	}
	return r;
}
static vec offs(const Tensor &t) { return offs(t.I(), t.sizes()); }
static double *dat(const Tensor &t) { return t.I().st->d.data(); }
static vec bshape(IntArrayRef a, IntArrayRef b)
{
	size_t n = a.size() > b.size() ? a.size() : b.size();
	vec r(n);
	for (size_t i = 0; i < n; i++)
	{
		int64_t x = i + a.size() >= n ? a[i + a.size() - n] : 1;
		int64_t y = i + b.size() >= n ? b[i + b.size() - n] : 1;
		if (x == y || y == 1) r[i] = x;
		else if (x == 1)
			r[i] = y;
		else
			err("The size of tensor a must match the size of tensor b");
	}
	return r;
}
int64_t maybe_wrap_dim(int64_t d, int64_t n, bool wrap_scalar)
{
	if (n == 0)
	{
		if (!wrap_scalar) throw IndexError("dimension specified but tensor has no dimensions");
		n = 1;
	}
	if (d < -n || d >= n) throw IndexError("Dimension out of range");
	return d < 0 ? d + n : d;
}
std::bitset<dim_bitset_size> dim_list_to_bitset(IntArrayRef dims, int64_t ndims)
{
	if (ndims > (int64_t)dim_bitset_size) err("too many dims");
	std::bitset<dim_bitset_size> seen;
	for (auto d : dims)
	{
		size_t x = maybe_wrap_dim(d, ndims);
		if (seen[x]) err("dim appears multiple times in the list of dims");
		seen[x] = true;
	}
	return seen;
}
int64_t Tensor::size(int64_t d) const { return I().sizes[maybe_wrap_dim(d, dim(), false)]; }
int64_t Tensor::stride(int64_t d) const { return I().strides[maybe_wrap_dim(d, dim(), false)]; }
int64_t Tensor::numel() const { return prodv(sizes()); }
bool Tensor::is_contiguous() const
{
	int64_t k = 1;
	auto &t = I();
	if (numel() == 0) return true;
	for (size_t i = t.sizes.size(); i-- > 0;)
	{
		if (t.sizes[i] == 1) continue;
		if (t.strides[i] != k) return false;
		k *= t.sizes[i];
	}
	return true;
}
Tensor Tensor::detach() const
{
	auto r = mkView(*this, I().sizes, I().strides, I().off);
	r.impl->rg = false;
	return r;
}
Tensor Tensor::clone() const
{
	Tensor r = mk(sizes(), scalar_type());
	auto o = offs(*this);
	double *d = dat(*this), *q = dat(r);
	for (size_t i = 0; i < o.size(); i++) q[i] = d[o[i]];
	r.impl->rg = I().rg;
	return r;
}
Tensor Tensor::contiguous() const { return is_contiguous() ? *this : clone(); }
Tensor Tensor::expand(IntArrayRef s, bool) const
{
	vec sz(s.begin(), s.end()), st(s.size());
	size_t n = s.size(), m = dim();
	if (m > n) err("expand: the number of sizes provided must be greater or equal to the number of dimensions in the tensor");
	for (size_t j = 0; j < n; j++)
	{
		if (j < n - m)
		{
			if (sz[j] < 0) err("expand: -1 in a leading dimension");
			st[j] = 0;
			continue;
		}
		size_t i = j - (n - m);
		if (sz[j] == -1) sz[j] = I().sizes[i];
		if (sz[j] == I().sizes[i]) st[j] = I().strides[i];
		else if (I().sizes[i] == 1)
			st[j] = 0;
		else
			err("expand: incompatible size");
	}
	return mkView(*this, sz, st, I().off);
}
Tensor Tensor::permute(IntArrayRef d) const
{
	size_t n = dim();
	if (d.size() != n) err("permute: number of dims don't match");
	vec sz(n), st(n);
	std::vector<char> seen(n);
	for (size_t i = 0; i < n; i++)
	{
		auto k = maybe_wrap_dim(d[i], n);
		if (seen[k]) err("permute: repeated dim");
		seen[k] = 1;
		sz[i] = I().sizes[k];
		st[i] = I().strides[k];
	}
	return mkView(*this, sz, st, I().off);
}
Tensor Tensor::transpose(int64_t a, int64_t b) const
{
	a = maybe_wrap_dim(a, dim());
	b = maybe_wrap_dim(b, dim());
	vec sz = I().sizes, st = I().strides;
	if (dim())
	{
		std::swap(sz[a], sz[b]);
		std::swap(st[a], st[b]);
	}
	return mkView(*this, sz, st, I().off);
}
Tensor &Tensor::transpose_(int64_t a, int64_t b)
{
	a = maybe_wrap_dim(a, dim());
	b = maybe_wrap_dim(b, dim());
	if (dim())
	{
		std::swap(impl->sizes[a], impl->sizes[b]);
		std::swap(impl->strides[a], impl->strides[b]);
	}
	return *this;
}
Tensor Tensor::t() const
{
	if (dim() > 2) err("t() expects a tensor with <= 2 dimensions");
	if (dim() < 2) return *this;
	return transpose(0, 1);
}
static vec inferSize(IntArrayRef s, int64_t numel)
{
	vec r(s.begin(), s.end());
	int64_t k = 1, inf = -1;
	for (size_t i = 0; i < r.size(); i++)
	{
		if (r[i] == -1)
		{
			if (inf >= 0) err("only one dimension can be inferred");
			inf = (int64_t)i;
		}
		else if (r[i] < 0)
			err("invalid shape dimension");
		else
			k *= r[i];
	}
	if (inf >= 0)
	{
		if (k == 0 || numel % k) err("shape is invalid for input");
		r[inf] = numel / k;
	}
	else if (k != numel)
		err("shape is invalid for input of size");
	return r;
}
static bool viewStrides(const TensorImpl &t, const vec &s, vec &out)
{
	int64_t numel = prodv(t.sizes);
	if (numel == 0)
	{
		out = contigStrides(s);
		return true;
	}
	// as at::detail::computeStride
	out.assign(s.size(), 0);
	int64_t view_d = (int64_t)s.size() - 1;
	int64_t n = (int64_t)t.sizes.size();
	if (n == 0)
	{
		for (auto &x : out) x = 1;
		return true;
	}
	int64_t base = t.strides.back(), tn = 1, vn = 1;
	for (int64_t d = n - 1; d >= 0; d--)
	{
		tn *= t.sizes[d];
		if (d == 0 || (t.sizes[d - 1] != 1 && t.strides[d - 1] != tn * base))
		{
			while (view_d >= 0 && (vn < tn || s[view_d] == 1))
			{
				out[view_d] = vn * base;
				vn *= s[view_d];
				view_d--;
			}
			if (vn != tn) return false;
			if (d > 0)
			{
				base = t.strides[d - 1];
				tn = 1;
				vn = 1;
			}
		}
	}
	return view_d == -1;
}
Tensor Tensor::view(IntArrayRef s) const
{
	auto r = inferSize(s, numel());
	vec st;
	if (!viewStrides(I(), r, st)) err("view size is not compatible with input tensor's size and stride");
	return mkView(*this, r, st, I().off);
}
Tensor Tensor::reshape(IntArrayRef s) const
{
	auto r = inferSize(s, numel());
	vec st;
	if (viewStrides(I(), r, st)) return mkView(*this, r, st, I().off);
	return clone().view(r);
}
Tensor Tensor::flatten(int64_t a, int64_t b) const
{
	a = maybe_wrap_dim(a, dim());
	b = maybe_wrap_dim(b, dim());
	if (a > b) err("flatten() has invalid args");
	if (dim() == 0) return reshape({1});
	vec s;
	int64_t k = 1;
	for (int64_t i = 0; i < dim(); i++)
	{
		if (i < a || i > b) s.push_back(size(i));
		else
		{
			k *= size(i);
			if (i == b) s.push_back(k);
		}
	}
	return reshape(s);
}
Tensor Tensor::squeeze() const
{
	vec sz, st;
	for (int64_t i = 0; i < dim(); i++)
		if (I().sizes[i] != 1)
		{
			sz.push_back(I().sizes[i]);
			st.push_back(I().strides[i]);
		}
	return mkView(*this, sz, st, I().off);
}
Tensor Tensor::squeeze(int64_t d) const
{
	d = maybe_wrap_dim(d, dim());
	vec sz = I().sizes, st = I().strides;
	if (dim() && sz[d] == 1)
	{
		sz.erase(sz.begin() + d);
		st.erase(st.begin() + d);
	}
	return mkView(*this, sz, st, I().off);
}
const Tensor &Tensor::squeeze_() const
{
	auto r = squeeze();
	impl->sizes = r.impl->sizes;
	impl->strides = r.impl->strides;
	return *this;
}
const Tensor &Tensor::squeeze_(int64_t d) const
{
	auto r = squeeze(d);
	impl->sizes = r.impl->sizes;
	impl->strides = r.impl->strides;
	return *this;
}
Tensor Tensor::unsqueeze(int64_t d) const
{
	d = maybe_wrap_dim(d, dim() + 1);
	vec sz = I().sizes, st = I().strides;
	int64_t k = d < dim() ? sz[d] * st[d] : 1;
	sz.insert(sz.begin() + d, 1);
	st.insert(st.begin() + d, k);
	return mkView(*this, sz, st, I().off);
}
const Tensor &Tensor::unsqueeze_(int64_t d) const
{
	auto r = unsqueeze(d);
	impl->sizes = r.impl->sizes;
	impl->strides = r.impl->strides;
	return *this;
}
const Tensor &Tensor::resize_(IntArrayRef s) const
{
	impl->sizes.assign(s.begin(), s.end());
	impl->strides = contigStrides(s);
	size_t need = (size_t)(impl->off + prodv(s));
	if (impl->st->d.size() < need) impl->st->d.resize(need);
	return *this;
}
Tensor Tensor::as_strided(IntArrayRef s, IntArrayRef st, optional<int64_t> off) const { return mkView(*this, s.vec(), st.vec(), off.value_or(I().off)); }
const Tensor &Tensor::as_strided_(IntArrayRef s, IntArrayRef st, optional<int64_t> off) const
{
	impl->sizes = s.vec();
	impl->strides = st.vec();
	if (off) impl->off = *off;
	return *this;
}
Tensor Tensor::select(int64_t d, int64_t i) const
{
	if (dim() == 0) throw IndexError("select() cannot be applied to a 0-dim tensor.");
	d = maybe_wrap_dim(d, dim());
	int64_t n = I().sizes[d];
	if (i < -n || i >= n) throw IndexError("select(): index out of range");
	if (i < 0) i += n;
	vec sz = I().sizes, st = I().strides;
	int64_t off = I().off + i * st[d];
	sz.erase(sz.begin() + d);
	st.erase(st.begin() + d);
	return mkView(*this, sz, st, off);
}
Tensor Tensor::slice(int64_t d, optional<int64_t> b_, optional<int64_t> e_, int64_t s) const
{
	if (dim() == 0) err("slice() cannot be applied to a 0-dim tensor.");
	d = maybe_wrap_dim(d, dim());
	if (s <= 0) err("slice step must be positive");
	int64_t n = I().sizes[d];
	int64_t b = b_.value_or(0), e = e_.value_or(INT64_MAX);
	if (b < 0) b += n;
	if (e < 0) e += n;
	if (b < 0) b = 0;
	else if (b >= n)
		b = n;
	if (e < b) e = b;
	else if (e >= n)
		e = n;
	vec sz = I().sizes, st = I().strides;
	int64_t off = I().off + b * st[d];
	sz[d] = (e - b + s - 1) / s;
	st[d] *= s;
	return mkView(*this, sz, st, off);
}
Tensor Tensor::narrow(int64_t d, int64_t s, int64_t l) const
{
	d = maybe_wrap_dim(d, dim());
	if (l < 0 || s < 0 || s + l > size(d)) err("narrow: out of range");
	return slice(d, s, s + l, 1);
}
Tensor Tensor::index_select(int64_t d, const Tensor &idx) const
{
	d = maybe_wrap_dim(d, dim());
	vec sz = I().sizes;
	if (dim() == 0) sz = {1};
	sz[d] = idx.numel();
	Tensor r = mk(sz, scalar_type());
	auto o = offs(idx);
	for (size_t k = 0; k < o.size(); k++)
	{
		Tensor src = (dim() ? *this : reshape({1})).select(d, (int64_t)dat(idx)[o[k]]);
		r.select(d, (int64_t)k).copy_(src);
	}
	return r;
}
static Tensor indexImpl(const Tensor &self, ArrayRef<indexing::TensorIndex> ix, bool &advanced)
{
	using indexing::TensorIndexType;
	Tensor r = self;
	int64_t d = 0;
	int64_t spec = 0;
	for (auto &i : ix)
		if (i.ty != TensorIndexType::None && i.ty != TensorIndexType::Ellipsis && i.ty != TensorIndexType::Boolean) spec += (i.ty == TensorIndexType::Tensor && i.t.scalar_type() == ScalarType::Bool) ? i.t.dim() : 1;
	if (spec > self.dim()) throw IndexError("too many indices for tensor");
	int64_t done = 0;
	for (auto &i : ix)
	{
		switch (i.ty)
		{
		case TensorIndexType::Integer:
			r = r.select(d, i.i);
			done++;
			break;
		case TensorIndexType::Slice:
			r = r.slice(d, i.s.b, i.s.e, i.s.s.value_or(1));
			d++;
			done++;
			break;
		case TensorIndexType::Ellipsis: d += self.dim() - spec; break;
		case TensorIndexType::None:
			r = r.unsqueeze(d);
			d++;
			break;
		case TensorIndexType::Tensor:
			advanced = true;
			if (i.t.scalar_type() == ScalarType::Bool)
			{
				// boolean mask over one dimension
				if (i.t.dim() != 1) err("mini torch: only 1d masks");
				vec keep;
				auto o = offs(i.t);
				for (size_t k = 0; k < o.size(); k++)
					if (dat(i.t)[o[k]] != 0) keep.push_back((int64_t)k);
				Tensor kt = mk({(int64_t)keep.size()}, ScalarType::Long);
				for (size_t k = 0; k < keep.size(); k++) dat(kt)[k] = (double)keep[k];
				r = r.index_select(d, kt);
			}
			else
			{
				if (i.t.dim() > 1) err("mini torch: only 1d index tensors");
				r = r.index_select(d, i.t);
				if (i.t.dim() == 0) r = r.squeeze(d), d--;
			}
			d++;
			break;
		default: err("mini torch: boolean index");
		}
	}
	return r;
}
Tensor Tensor::index(ArrayRef<indexing::TensorIndex> ix) const
{
	bool adv = false;
	return indexImpl(*this, ix, adv);
}
Tensor Tensor::index(std::initializer_list<indexing::TensorIndex> i) const { return index(ArrayRef<indexing::TensorIndex>(i)); }
Tensor Tensor::index(const std::vector<indexing::TensorIndex> &i) const { return index(ArrayRef<indexing::TensorIndex>(i)); }
const Tensor &Tensor::index_put_(ArrayRef<indexing::TensorIndex> ix, const Tensor &v) const
{
	bool adv = false;
	Tensor w = indexImpl(*this, ix, adv);
	if (adv) err("mini torch: index_put_ with tensor indices");
	Tensor x = v;
	while (x.dim() > w.dim() && x.size(0) == 1) x = x.squeeze(0);
	w.copy_(x);
	return *this;
}
const Tensor &Tensor::index_put_(std::initializer_list<indexing::TensorIndex> i, const Tensor &v) const { return index_put_(ArrayRef<indexing::TensorIndex>(i), v); }
const Tensor &Tensor::index_put_(const std::vector<indexing::TensorIndex> &i, const Tensor &v) const { return index_put_(ArrayRef<indexing::TensorIndex>(i), v); }
const Tensor &Tensor::index_put_(ArrayRef<indexing::TensorIndex> ix, const Scalar &v) const
{
	bool adv = false;
	Tensor w = indexImpl(*this, ix, adv);
	if (adv) err("mini torch: index_put_ with tensor indices");
	w.fill_(v);
	return *this;
}
const Tensor &Tensor::index_put_(std::initializer_list<indexing::TensorIndex> i, const Scalar &v) const { return index_put_(ArrayRef<indexing::TensorIndex>(i), v); }
const Tensor &Tensor::index_put_(const std::vector<indexing::TensorIndex> &i, const Scalar &v) const { return index_put_(ArrayRef<indexing::TensorIndex>(i), v); }
static double castTo(double x, ScalarType from, ScalarType to)
{
	int cf = c10::category(from), ct = c10::category(to);
	if (cf == ct) return x;
	if (ct == 0) return x != 0 ? 1. : 0.;
	if (ct == 1 && cf >= 2) return (double)(int64_t)x;
	return x;
}
const Tensor &Tensor::copy_(const Tensor &o, bool) const
{
	auto a = offs(*this);
	auto b = offs(o.I(), sizes());
	double *p = dat(*this), *q = dat(o);
	std::vector<double> tmp(a.size());
	for (size_t i = 0; i < a.size(); i++) tmp[i] = castTo(q[b[i]], o.scalar_type(), scalar_type());
	for (size_t i = 0; i < a.size(); i++) p[a[i]] = tmp[i];
	return *this;
}
const Tensor &Tensor::fill_(const Scalar &s) const
{
	auto a = offs(*this);
	double *p = dat(*this);
	double v = castTo(s.raw(), s.type(), scalar_type());
	for (auto x : a) p[x] = v;
	return *this;
}
const Tensor &Tensor::fill_(const Tensor &s) const
{
	if (s.dim() != 0) err("fill_ only supports 0-dimension value tensor");
	return fill_(s.item());
}
Scalar Tensor::item() const
{
	if (numel() != 1) err("only one element tensors can be converted to Scalars");
	auto dt = scalar_type();
	int c = c10::category(dt);
	return Scalar::make(dat(*this)[I().off], c == 0 ? ScalarType::Bool : c == 1 ? ScalarType::Long : c == 2 ? ScalarType::Double : ScalarType::ComplexDouble);
}
Tensor Tensor::to(ScalarType s, bool, bool copy, optional<MemoryFormat>) const
{
	if (s == scalar_type() && !copy) return *this;
	Tensor r = mk(sizes(), s);
	r.copy_(*this);
	r.impl->rg = I().rg;
	return r;
}
Tensor Tensor::to(TensorOptions o, bool, bool copy, optional<MemoryFormat>) const { return to(o.has_dt ? o.dt : scalar_type(), false, copy); }
ScalarType result_type(const Tensor &a, const Tensor &b)
{
	auto x = a.scalar_type(), y = b.scalar_type();
	if ((a.dim() == 0) == (b.dim() == 0)) return promoteTypes(x, y);
	auto z = a.dim() == 0 ? x : y, d = a.dim() == 0 ? y : x;
	if (c10::category(z) > c10::category(d)) return promoteTypes(z, d);
	return d;
}
static ScalarType result_type(const Tensor &a, const Scalar &b)
{
	auto x = a.scalar_type();
	int cb = c10::category(b.type());
	if (cb > c10::category(x)) return cb == 2 ? g_default : cb == 3 ? (x == ScalarType::Double ? ScalarType::ComplexDouble : ScalarType::ComplexFloat) : b.type();
	return x;
}
bool is_complex(const Tensor &a) { return a.is_complex(); }
template <class F>
static Tensor bin(const Tensor &a, const Tensor &b, ScalarType dt, F f)
{
	auto s = bshape(a.sizes(), b.sizes());
	Tensor r = mk(s, dt);
	auto oa = offs(a.I(), s), ob = offs(b.I(), s);
	double *p = dat(a), *q = dat(b), *w = dat(r);
	for (size_t i = 0; i < oa.size(); i++) w[i] = f(p[oa[i]], q[ob[i]]);
	r.impl->rg = (a.I().rg || b.I().rg) && c10::category(dt) >= 2;
	return r;
}
template <class F>
static Tensor un(const Tensor &a, ScalarType dt, F f)
{
	Tensor r = mk(a.sizes(), dt);
	auto oa = offs(a);
	double *p = dat(a), *w = dat(r);
	for (size_t i = 0; i < oa.size(); i++) w[i] = f(p[oa[i]]);
	r.impl->rg = a.I().rg && c10::category(dt) >= 2;
	return r;
}
static Tensor &into(const Tensor &self, const Tensor &r)
{
	if (r.sizes() != self.sizes()) err("output with shape doesn't match the broadcast shape");
	if (c10::category(r.scalar_type()) > c10::category(self.scalar_type())) err("result type can't be cast to the desired output type");
	self.copy_(r);
	return const_cast<Tensor &>(self);
}
static ScalarType floatOf(ScalarType t) { return c10::category(t) < 2 ? g_default : t; }
static Tensor scal(const Scalar &s)
{
	Tensor t = mk(IntArrayRef(), s.type());
	dat(t)[0] = s.raw();
	return t;
}
Tensor Tensor::add(const Tensor &o, const Scalar &al) const
{
	double k = al.raw();
	if (c10::category(al.type()) > 1 && c10::category(result_type(*this, o)) < 2) err("For integral input tensors, argument alpha must not be a floating point number.");
	return bin(*this, o, result_type(*this, o), [k](double x, double y) { return x + k * y; });
}
Tensor Tensor::add(const Scalar &o, const Scalar &al) const { return bin(*this, scal(o), at::result_type(*this, o), [k = al.raw()](double x, double y) { return x + k * y; }); }
Tensor Tensor::sub(const Tensor &o, const Scalar &al) const { return bin(*this, o, result_type(*this, o), [k = al.raw()](double x, double y) { return x - k * y; }); }
Tensor Tensor::sub(const Scalar &o, const Scalar &al) const { return bin(*this, scal(o), at::result_type(*this, o), [k = al.raw()](double x, double y) { return x - k * y; }); }
Tensor &Tensor::add_(const Tensor &o, const Scalar &a) const { return into(*this, add(o, a)); }
Tensor &Tensor::add_(const Scalar &o, const Scalar &a) const { return into(*this, add(o, a)); }
Tensor &Tensor::sub_(const Tensor &o, const Scalar &a) const { return into(*this, sub(o, a)); }
Tensor &Tensor::sub_(const Scalar &o, const Scalar &a) const { return into(*this, sub(o, a)); }
#define DEFBIN(name, dtx, expr)                                                                                   \
	Tensor Tensor::name(const Tensor &o) const                                                                    \
	{                                                                                                             \
		auto rt = result_type(*this, o);                                                                          \
		return bin(*this, o, dtx, [](double x, double y) -> double { return expr; });                             \
	}                                                                                                             \
	Tensor Tensor::name(const Scalar &o) const                                                                    \
	{                                                                                                             \
		auto rt = at::result_type(*this, o);                                                                      \
		return bin(*this, scal(o), dtx, [](double x, double y) -> double { return expr; });                       \
	}                                                                                                             \
	Tensor &Tensor::name##_(const Tensor &o) const { return into(*this, name(o)); }                               \
	Tensor &Tensor::name##_(const Scalar &o) const { return into(*this, name(o)); }
DEFBIN(mul, rt, x *y)
DEFBIN(div, floatOf(rt), x / y)
DEFBIN(pow, rt, std::pow(x, y))
DEFBIN(fmod, rt, std::fmod(x, y))
DEFBIN(remainder, rt, (x - y * std::floor(x / y)))
#define DEFCMP(name, expr)                                                                                                          \
	Tensor Tensor::name(const Tensor &o) const                                                                                      \
	{                                                                                                                               \
		return bin(*this, o, ScalarType::Bool, [](double x, double y) -> double { return (expr) ? 1. : 0.; });                      \
	}                                                                                                                               \
	Tensor Tensor::name(const Scalar &o) const                                                                                      \
	{                                                                                                                               \
		return bin(*this, scal(o), ScalarType::Bool, [](double x, double y) -> double { return (expr) ? 1. : 0.; });                \
	}                                                                                                                               \
	Tensor &Tensor::name##_(const Tensor &o) const { return into(*this, name(o)); }                                                 \
	Tensor &Tensor::name##_(const Scalar &o) const { return into(*this, name(o)); }
DEFCMP(eq, x == y)
DEFCMP(ne, x != y)
DEFCMP(lt, x < y)
DEFCMP(le, x <= y)
DEFCMP(gt, x > y)
DEFCMP(ge, x >= y)
Tensor Tensor::logical_and(const Tensor &o) const
{
	return bin(*this, o, ScalarType::Bool, [](double x, double y) -> double { return (x != 0 && y != 0) ? 1. : 0.; });
}
Tensor Tensor::logical_or(const Tensor &o) const
{
	return bin(*this, o, ScalarType::Bool, [](double x, double y) -> double { return (x != 0 || y != 0) ? 1. : 0.; });
}
Tensor &Tensor::operator&=(const Tensor &o) { return into(*this, logical_and(o)); }
Tensor &Tensor::operator|=(const Tensor &o) { return into(*this, logical_or(o)); }
#define DEFUN(name, dtx, expr)                                                                      \
	Tensor Tensor::name() const                                                                     \
	{                                                                                               \
		auto rt = scalar_type();                                                                    \
		return un(*this, dtx, [](double x) -> double { return expr; });                             \
	}                                                                                               \
	Tensor &Tensor::name##_() const { return into(*this, name()); }
DEFUN(neg, rt, -x)
DEFUN(abs, rt, std::fabs(x))
DEFUN(sqrt, floatOf(rt), std::sqrt(x))
DEFUN(square, rt, x *x)
DEFUN(exp, floatOf(rt), std::exp(x))
DEFUN(log, floatOf(rt), std::log(x))
DEFUN(sin, floatOf(rt), std::sin(x))
DEFUN(cos, floatOf(rt), std::cos(x))
DEFUN(reciprocal, floatOf(rt), 1. / x)
DEFUN(rsqrt, floatOf(rt), 1. / std::sqrt(x))
DEFUN(sign, rt, (x > 0 ? 1. : x < 0 ? -1. : 0.))
DEFUN(logical_not, ScalarType::Bool, (x == 0 ? 1. : 0.))
DEFUN(relu, rt, (x > 0 ? x : 0.))
static bool finiteD(double x) { return sym_is_symbolic(x) || std::fabs(x) < std::numeric_limits<double>::infinity(); }
Tensor Tensor::isnan() const
{
	return un(*this, ScalarType::Bool, [](double x) -> double { return sym_is_symbolic(x) ? 0. : (x != x ? 1. : 0.); });
}
Tensor Tensor::isinf() const
{
	return un(*this, ScalarType::Bool, [](double x) -> double { return (finiteD(x) || x != x) ? 0. : 1.; });
}
Tensor Tensor::isfinite() const
{
	return un(*this, ScalarType::Bool, [](double x) -> double { return finiteD(x) ? 1. : 0.; });
}
bool Tensor::equal(const Tensor &o) const
{
	if (sizes() != o.sizes()) return false;
	auto a = offs(*this), b = offs(o);
	for (size_t i = 0; i < a.size(); i++)
		if (dat(*this)[a[i]] != dat(o)[b[i]]) return false;
	return true;
}
static double closeD(double x, double y, double rt, double at_)
{
	if (!sym_is_symbolic(x) && !sym_is_symbolic(y) && x == y) return 1.;
	return std::fabs(x - y) <= at_ + rt * std::fabs(y) ? 1. : 0.;
}
Tensor Tensor::isclose(const Tensor &o, double rtol, double atol, bool eqn) const
{
	if (scalar_type() != o.scalar_type()) err("isclose: dtypes differ");
	return bin(*this, o, ScalarType::Bool, [rtol, atol, eqn](double x, double y) -> double {
		if (eqn && !sym_is_symbolic(x) && !sym_is_symbolic(y) && x != x && y != y) return 1.;
		return closeD(x, y, rtol, atol);
	});
}
bool Tensor::allclose(const Tensor &o, double rtol, double atol, bool eqn) const { return isclose(o, rtol, atol, eqn).all().item().toBool(); }
Tensor Tensor::any() const
{
	Tensor r = mk(IntArrayRef(), ScalarType::Bool);
	bool v = false;
	for (auto x : offs(*this)) v |= dat(*this)[x] != 0;
	dat(r)[0] = v;
	return r;
}
Tensor Tensor::all() const
{
	Tensor r = mk(IntArrayRef(), ScalarType::Bool);
	bool v = true;
	for (auto x : offs(*this)) v &= dat(*this)[x] != 0;
	dat(r)[0] = v;
	return r;
}
static ScalarType sumT(ScalarType t) { return c10::category(t) < 2 ? ScalarType::Long : t; }
Tensor Tensor::sum(optional<ScalarType> d) const
{
	Tensor r = mk(IntArrayRef(), d ? *d : sumT(scalar_type()));
	double v = 0;
	for (auto x : offs(*this)) v += castTo(dat(*this)[x], scalar_type(), d ? *d : scalar_type());
	dat(r)[0] = v;
	return r;
}
Tensor Tensor::sum(IntArrayRef d, bool keep, optional<ScalarType> dt) const
{
	auto mask = dim_list_to_bitset(d, dim());
	if (d.size() == 0)
		for (int64_t i = 0; i < dim(); i++) mask[i] = true;
	vec ks;
	for (int64_t i = 0; i < dim(); i++) ks.push_back(mask[i] ? 1 : size(i));
	Tensor r = mk(ks, dt ? *dt : sumT(scalar_type()));
	auto w = offs(r.expand(sizes()));
	auto o = offs(*this);
	for (size_t i = 0; i < o.size(); i++) dat(r)[w[i]] += dat(*this)[o[i]];
	if (!keep)
	{
		vec s;
		for (int64_t i = 0; i < dim(); i++)
			if (!mask[i]) s.push_back(size(i));
		r = r.reshape(s);
	}
	return r;
}
Tensor Tensor::prod() const
{
	Tensor r = mk(IntArrayRef(), sumT(scalar_type()));
	double v = 1;
	for (auto x : offs(*this)) v *= dat(*this)[x];
	dat(r)[0] = v;
	return r;
}
Tensor Tensor::mean() const { return sum().div(Scalar((double)numel())); }
Tensor Tensor::max() const
{
	auto o = offs(*this);
	if (o.empty()) err("max of empty tensor");
	Tensor r = mk(IntArrayRef(), scalar_type());
	double v = dat(*this)[o[0]];
	for (auto x : o)
	{
		double y = dat(*this)[x];
		v = y > v ? y : v;
	}
	dat(r)[0] = v;
	return r;
}
Tensor Tensor::min() const { return neg().max().neg(); }
Tensor Tensor::norm(const Scalar &p) const
{
	Tensor r = mk(IntArrayRef(), scalar_type());
	double k = p.raw(), v = 0;
	for (auto x : offs(*this))
	{
		double y = dat(*this)[x];
		v += k == 2 ? y * y : k == 1 ? std::fabs(y) : std::pow(std::fabs(y), k);
	}
	dat(r)[0] = k == 2 ? std::sqrt(v) : k == 1 ? v : std::pow(v, 1 / k);
	return r;
}
Tensor Tensor::trace() const { return diagonal().sum(); }
Tensor Tensor::cumsum(int64_t d) const
{
	d = maybe_wrap_dim(d, dim());
	Tensor r = to(sumT(scalar_type()), false, true);
	if (dim() == 0) return r;
	for (int64_t i = 1; i < size(d); i++) r.select(d, i).add_(r.select(d, i - 1));
	return r;
}
Tensor Tensor::flip(IntArrayRef d) const
{
	auto m = dim_list_to_bitset(d, dim());
	vec st = I().strides;
	Tensor r = *this;
	Tensor out = mk(sizes(), scalar_type());
	vec so = out.I().strides;
	int64_t off = 0;
	for (int64_t i = 0; i < dim(); i++)
		if (m[i])
		{
			off += so[i] * (size(i) - 1);
			so[i] = -so[i];
		}
	if (numel()) mkView(out, I().sizes, so, off).copy_(*this);
	return out;
}
std::tuple<Tensor, Tensor> Tensor::sort(int64_t d, bool desc) const
{
	d = maybe_wrap_dim(d, dim());
	Tensor v = clone(), ix = mk(sizes(), ScalarType::Long);
	if (dim() == 0 || numel() == 0) return {v, ix};
	Tensor a = v.transpose(d, dim() - 1), b = ix.transpose(d, dim() - 1);
	vec bs(a.sizes().begin(), a.sizes().end() - 1);
	int64_t n = size(d), as = a.stride(-1), bst = b.stride(-1);
	auto oa = offs(a.select(-1, 0)), ob = offs(b.select(-1, 0));
	for (size_t k = 0; k < oa.size(); k++)
	{
		double *p = dat(a) + oa[k], *q = dat(b) + ob[k];
		for (int64_t i = 0; i < n; i++) q[i * bst] = (double)i;
		for (int64_t i = 1; i < n; i++)
			for (int64_t j = i; j > 0; j--)
			{
				double x = p[(j - 1) * as], y = p[j * as];
				if (!(desc ? x < y : y < x)) break;
				p[(j - 1) * as] = y;
				p[j * as] = x;
				std::swap(q[(j - 1) * bst], q[j * bst]);
			}
	}
	return {v, ix};
}
Tensor Tensor::argsort(int64_t d, bool desc) const { return std::get<1>(sort(d, desc)); }
Tensor Tensor::mm(const Tensor &o) const
{
	if (dim() != 2 || o.dim() != 2) err("mm: matrices expected");
	if (size(1) != o.size(0)) err("mat1 and mat2 shapes cannot be multiplied");
	if (scalar_type() != o.scalar_type()) err("mm: expected scalar type to match");
	int64_t m = size(0), k = size(1), n = o.size(1);
	Tensor r = mk({m, n}, scalar_type());
	double *p = dat(*this) + I().off, *q = dat(o) + o.I().off, *w = dat(r);
	int64_t p0 = I().strides[0], p1 = I().strides[1], q0 = o.I().strides[0], q1 = o.I().strides[1];
	for (int64_t i = 0; i < m; i++)
		for (int64_t j = 0; j < n; j++)
		{
			double s = 0;
			for (int64_t l = 0; l < k; l++) s += p[i * p0 + l * p1] * q[l * q0 + j * q1];
			w[i * n + j] = s;
		}
	r.impl->rg = I().rg || o.I().rg;
	return r;
}
Tensor Tensor::bmm(const Tensor &o) const
{
	if (dim() != 3 || o.dim() != 3) err("batch1 must be a 3D tensor");
	if (size(0) != o.size(0) || size(2) != o.size(1)) err("bmm: size mismatch");
	Tensor r = mk({size(0), size(1), o.size(2)}, scalar_type());
	for (int64_t b = 0; b < size(0); b++) r.select(0, b).copy_(select(0, b).mm(o.select(0, b)));
	return r;
}
Tensor Tensor::matmul(const Tensor &o) const
{
	if (dim() == 0 || o.dim() == 0) err("both arguments to matmul need to be at least 1D");
	if (dim() == 1 && o.dim() == 1)
	{
		if (size(0) != o.size(0)) err("inconsistent tensor size");
		return reshape({1, size(0)}).mm(o.reshape({o.size(0), 1})).reshape(IntArrayRef());
	}
	if (dim() == 1)
	{
		auto r = unsqueeze(0).matmul(o);
		return r.squeeze(-2);
	}
	if (o.dim() == 1) return matmul(o.unsqueeze(1)).squeeze(-1);
	if (dim() == 2 && o.dim() == 2) return mm(o);
	vec sa(sizes().begin(), sizes().end() - 2), sb(o.sizes().begin(), o.sizes().end() - 2);
	vec s = bshape(sa, sb);
	int64_t B = prodv(s), m = size(-2), k = size(-1), n = o.size(-1);
	vec ea = s, eb = s, er = s;
	ea.insert(ea.end(), {m, k});
	eb.insert(eb.end(), {o.size(-2), n});
	er.insert(er.end(), {m, n});
	return expand(ea).reshape({B, m, k}).bmm(o.expand(eb).reshape({B, o.size(-2), n})).reshape(er);
}
Tensor Tensor::addmm(const Tensor &a, const Tensor &b, const Scalar &beta, const Scalar &alpha) const
{
	Tensor p = a.mm(b);
	if (scalar_type() != p.scalar_type()) err("addmm: expected scalar types to match");
	Tensor e = expand(p.sizes());
	return bin(e, p, result_type(e, p), [x = beta.raw(), y = alpha.raw()](double u, double v) { return x * u + y * v; });
}
Tensor &Tensor::addmm_(const Tensor &a, const Tensor &b, const Scalar &beta, const Scalar &alpha) const { return into(*this, addmm(a, b, beta, alpha)); }
Tensor Tensor::baddbmm(const Tensor &a, const Tensor &b, const Scalar &beta, const Scalar &alpha) const
{
	Tensor p = a.bmm(b);
	Tensor e = expand(p.sizes());
	return bin(e, p, result_type(e, p), [x = beta.raw(), y = alpha.raw()](double u, double v) { return x * u + y * v; });
}
Tensor &Tensor::baddbmm_(const Tensor &a, const Tensor &b, const Scalar &beta, const Scalar &alpha) const { return into(*this, baddbmm(a, b, beta, alpha)); }
Tensor &addmm_out(Tensor &out, const Tensor &c, const Tensor &a, const Tensor &b, const Scalar &beta, const Scalar &alpha)
{
	Tensor r = c.addmm(a, b, beta, alpha);
	if (out.sizes() != r.sizes())
	{
		if (out.numel() == 0) out.resize_(r.sizes());
		else
			out.resize_(r.sizes());
	}
	return into(out, r);
}
Tensor &mm_out(Tensor &out, const Tensor &a, const Tensor &b)
{
	Tensor r = a.mm(b);
	if (out.sizes() != r.sizes()) out.resize_(r.sizes());
	return into(out, r);
}
Tensor &bmm_out(Tensor &out, const Tensor &a, const Tensor &b)
{
	Tensor r = a.bmm(b);
	if (out.sizes() != r.sizes()) out.resize_(r.sizes());
	return into(out, r);
}
Tensor Tensor::diagonal(int64_t k, int64_t a, int64_t b) const
{
	a = maybe_wrap_dim(a, dim());
	b = maybe_wrap_dim(b, dim());
	if (a == b) err("diagonal dimensions cannot be identical");
	int64_t n, off = I().off;
	if (k >= 0)
	{
		n = std::max<int64_t>(std::min(size(a), size(b) - k), 0);
		if (n) off += k * stride(b);
	}
	else
	{
		n = std::max<int64_t>(std::min(size(a) + k, size(b)), 0);
		if (n) off -= k * stride(a);
	}
	vec sz, st;
	for (int64_t i = 0; i < dim(); i++)
		if (i != a && i != b)
		{
			sz.push_back(size(i));
			st.push_back(stride(i));
		}
	sz.push_back(n);
	st.push_back(stride(a) + stride(b));
	return mkView(*this, sz, st, off);
}
Tensor Tensor::diag(int64_t k) const
{
	if (dim() == 2) return diagonal(k).clone();
	if (dim() != 1) err("diag: matrix or a vector expected");
	int64_t n = size(0) + (k < 0 ? -k : k);
	Tensor r = mk({n, n}, scalar_type());
	r.diagonal(k).copy_(*this);
	return r;
}
Tensor Tensor::masked_fill(const Tensor &m, const Scalar &v) const
{
	return bin(*this, m, scalar_type(), [x = v.raw()](double a, double b) { return b != 0 ? x : a; });
}
Tensor Tensor::nonzero() const
{
	std::vector<vec> hits;
	auto o = offs(*this);
	for (size_t i = 0; i < o.size(); i++)
		if (dat(*this)[o[i]] != 0)
		{
			vec ix(dim());
			int64_t k = (int64_t)i;
			for (int64_t d = dim() - 1; d >= 0; d--)
			{
				ix[d] = k % size(d);
				k /= size(d);
			}
			hits.push_back(ix);
		}
	Tensor r = mk({(int64_t)hits.size(), dim()}, ScalarType::Long);
	for (size_t i = 0; i < hits.size(); i++)
		for (int64_t d = 0; d < dim(); d++) dat(r)[i * dim() + d] = (double)hits[i][d];
	return r;
}
Tensor Tensor::clamp_min(const Scalar &s) const
{
	return un(*this, scalar_type(), [k = s.raw()](double x) { return x < k ? k : x; });
}
std::vector<Tensor> Tensor::split(int64_t n, int64_t d) const
{
	std::vector<Tensor> r;
	for (int64_t i = 0; i < size(d); i += n) r.push_back(slice(d, i, i + n));
	return r;
}
Tensor Tensor::repeat(IntArrayRef k) const
{
	Tensor r = *this;
	while (r.dim() < (int64_t)k.size()) r = r.unsqueeze(0);
	for (size_t d = 0; d < k.size(); d++)
	{
		std::vector<Tensor> l(k[d], r);
		r = cat(l, d);
	}
	return r;
}
// factories
static Tensor opt(Tensor t, const TensorOptions &o)
{
	if (o.has_rg) t.impl->rg = o.rg;
	return t;
}
static double garbage()
{
	// content of uninitialised tensors
	return 7.25;
}
Tensor empty(IntArrayRef s, TensorOptions o, optional<MemoryFormat>)
{
	Tensor t = mk(s, dtOf(o));
	for (auto &x : t.impl->st->d) x = c10::category(t.impl->dt) >= 2 ? garbage() : 3;
	return opt(t, o);
}
Tensor zeros(IntArrayRef s, TensorOptions o) { return opt(mk(s, dtOf(o)), o); }
Tensor full(IntArrayRef s, const Scalar &v, TensorOptions o)
{
	Tensor t = mk(s, o.has_dt ? o.dt : (c10::category(v.type()) == 2 ? g_default : v.type()));
	t.fill_(v);
	return opt(t, o);
}
Tensor ones(IntArrayRef s, TensorOptions o) { return full(s, 1, o.dtype(dtOf(o))); }
static double rnd()
{
	if (minitorch::symbolic_random && !sym_native())
	{
		double x = sym_real("rand");
		sym_assume_real(x >= 0);
		sym_assume_real(x < 1);
		return x;
	}
	if (minitorch::symbolic_random)
	{
		double x = sym_real("rand");
		return x;
	}
	static uint64_t s = 88172645463325252ull;
	s ^= s << 13;
	s ^= s >> 7;
	s ^= s << 17;
	return (double)(s >> 40) / (double)(1 << 24);
}
Tensor rand(IntArrayRef s, TensorOptions o)
{
	Tensor t = mk(s, dtOf(o));
	for (auto &x : t.impl->st->d) x = rnd();
	return opt(t, o);
}
Tensor randn(IntArrayRef s, TensorOptions o)
{
	Tensor t = mk(s, dtOf(o));
	for (auto &x : t.impl->st->d) x = 2 * rnd() - 1;
	return opt(t, o);
}
Tensor randint(int64_t lo, int64_t hi, IntArrayRef s, TensorOptions o)
{
	if (hi <= lo) err("random_ expects 'from' to be less than 'to'");
	Tensor t = mk(s, o.has_dt ? o.dt : ScalarType::Long);
	for (auto &x : t.impl->st->d) x = minitorch::symbolic_random ? (double)(lo + sym_choose("randint", (int)(hi - lo))) : (double)(lo + (int64_t)(rnd() * (double)(hi - lo)));
	return opt(t, o);
}
Tensor randint(int64_t hi, IntArrayRef s, TensorOptions o) { return randint(0, hi, s, o); }
Tensor eye(int64_t n, int64_t m, TensorOptions o)
{
	Tensor t = mk({n, m}, dtOf(o));
	t.diagonal().fill_(1);
	return opt(t, o);
}
Tensor eye(int64_t n, TensorOptions o) { return eye(n, n, o); }
Tensor arange(const Scalar &a, const Scalar &b, const Scalar &st, TensorOptions o)
{
	double x = a.raw(), y = b.raw(), h = st.raw();
	int64_t n = (int64_t)std::ceil((y - x) / h);
	if (n < 0) err("arange bounds");
	bool allint = c10::category(a.type()) <= 1 && c10::category(b.type()) <= 1 && c10::category(st.type()) <= 1;
	Tensor t = mk({n}, o.has_dt ? o.dt : allint ? ScalarType::Long : g_default);
	for (int64_t i = 0; i < n; i++) dat(t)[i] = x + h * (double)i;
	return opt(t, o);
}
Tensor arange(const Scalar &a, const Scalar &b, TensorOptions o) { return arange(a, b, 1, o); }
Tensor arange(const Scalar &b, TensorOptions o) { return arange(0, b, 1, o); }
Tensor linspace(const Scalar &a, const Scalar &b, int64_t n, TensorOptions o)
{
	Tensor t = mk({n}, dtOf(o));
	for (int64_t i = 0; i < n; i++) dat(t)[i] = a.raw() + (b.raw() - a.raw()) * (double)i / (double)(n > 1 ? n - 1 : 1);
	return t;
}
Tensor scalar_tensor(const Scalar &s, TensorOptions o) { return full(IntArrayRef(), s, o.dtype(dtOf(o))); }
static TensorOptions like(const Tensor &t, TensorOptions o) { return o.has_dt ? o : o.dtype(t.scalar_type()); }
Tensor empty_like(const Tensor &t, TensorOptions o, optional<MemoryFormat>) { return empty(t.sizes(), like(t, o)); }
Tensor zeros_like(const Tensor &t, TensorOptions o, optional<MemoryFormat>) { return zeros(t.sizes(), like(t, o)); }
Tensor ones_like(const Tensor &t, TensorOptions o, optional<MemoryFormat>) { return ones(t.sizes(), like(t, o)); }
Tensor full_like(const Tensor &t, const Scalar &v, TensorOptions o, optional<MemoryFormat>) { return full(t.sizes(), v, like(t, o)); }
Tensor rand_like(const Tensor &t, TensorOptions o, optional<MemoryFormat>) { return rand(t.sizes(), like(t, o)); }
Tensor randn_like(const Tensor &t, TensorOptions o, optional<MemoryFormat>) { return randn(t.sizes(), like(t, o)); }
Tensor randint_like(const Tensor &t, int64_t hi, TensorOptions o, optional<MemoryFormat>) { return randint(0, hi, t.sizes(), like(t, o)); }
Tensor randint_like(const Tensor &t, int64_t lo, int64_t hi, TensorOptions o, optional<MemoryFormat>) { return randint(lo, hi, t.sizes(), like(t, o)); }
Tensor empty_strided(IntArrayRef s, IntArrayRef st, TensorOptions o)
{
	int64_t n = 1;
	for (size_t i = 0; i < s.size(); i++) n += (s[i] - 1) * st[i];
	Tensor t = empty({prodv(s) ? n : 0}, o);
	return mkView(t, s.vec(), st.vec(), 0);
}
Tensor cat(TensorList l, int64_t d)
{
	if (l.empty()) err("expected a non-empty list of Tensors");
	d = maybe_wrap_dim(d, l[0].dim());
	vec s = l[0].I().sizes;
	s[d] = 0;
	ScalarType dt = l[0].scalar_type();
	for (auto &t : l)
	{
		if (t.dim() != l[0].dim()) err("cat: ranks differ");
		for (int64_t i = 0; i < t.dim(); i++)
			if (i != d && t.size(i) != s[i]) err("cat: sizes differ");
		s[d] += t.size(d);
		dt = promoteTypes(dt, t.scalar_type());
	}
	Tensor r = mk(s, dt);
	int64_t p = 0;
	for (auto &t : l)
	{
		r.narrow(d, p, t.size(d)).copy_(t);
		p += t.size(d);
	}
	return r;
}
Tensor stack(TensorList l, int64_t d)
{
	std::vector<Tensor> u;
	for (auto &t : l) u.push_back(t.unsqueeze(d));
	return cat(u, d);
}
Tensor tensordot(const Tensor &a, const Tensor &b, IntArrayRef da, IntArrayRef db)
{
	if (da.size() != db.size()) err("both dimension lists should have same length");
	auto ma = dim_list_to_bitset(da, a.dim()), mb = dim_list_to_bitset(db, b.dim());
	vec pa, pb, so;
	int64_t m = 1, k = 1, n = 1;
	for (int64_t i = 0; i < a.dim(); i++)
		if (!ma[i])
		{
			pa.push_back(i);
			m *= a.size(i);
			so.push_back(a.size(i));
		}
	for (size_t i = 0; i < da.size(); i++)
	{
		int64_t x = maybe_wrap_dim(da[i], a.dim()), y = maybe_wrap_dim(db[i], b.dim());
		if (a.size(x) != b.size(y)) err("contracted dimensions need to match");
		k *= a.size(x);
		pa.push_back(x);
		pb.push_back(y);
	}
	for (int64_t i = 0; i < b.dim(); i++)
		if (!mb[i])
		{
			pb.push_back(i);
			n *= b.size(i);
			so.push_back(b.size(i));
		}
	return a.permute(pa).reshape({m, k}).mm(b.permute(pb).reshape({k, n})).reshape(so);
}
Tensor where(const Tensor &c, const Tensor &a, const Tensor &b)
{
	auto s = bshape(bshape(c.sizes(), a.sizes()), b.sizes());
	Tensor r = mk(s, result_type(a, b));
	auto oc = offs(c.I(), s), oa = offs(a.I(), s), ob = offs(b.I(), s);
	for (size_t i = 0; i < oc.size(); i++) dat(r)[i] = dat(c)[oc[i]] != 0 ? dat(a)[oa[i]] : dat(b)[ob[i]];
	return r;
}
Tensor pow(const Scalar &a, const Tensor &b) { return scal(a).pow(b); }
Tensor operator-(const Scalar &a, const Tensor &b)
{
	return bin(b, scal(a), result_type(b, a), [](double x, double y) { return y - x; });
}
Tensor operator/(const Scalar &a, const Tensor &b)
{
	return bin(b, scal(a), floatOf(result_type(b, a)), [](double x, double y) { return y / x; });
}
std::ostream &operator<<(std::ostream &o, const Tensor &) { return o; }
std::ostream &print(std::ostream &o, const Tensor &, int64_t) { return o; }
void print(const Tensor &, int64_t) {}
// ---- decompositions -------------------------------------------------------
// numeric: cyclic Jacobi on plain doubles
static void jacobiEigh(std::vector<double> &a, std::vector<double> &v, int64_t n)
{
	v.assign(n * n, 0);
	for (int64_t i = 0; i < n; i++) v[i * n + i] = 1;
	for (int sweep = 0; sweep < 60; sweep++)
	{
		double off = 0;
		for (int64_t i = 0; i < n; i++)
			for (int64_t j = 0; j < n; j++)
				if (i != j) off += a[i * n + j] * a[i * n + j];
		if (off < 1e-300) break;
		for (int64_t p = 0; p < n; p++)
			for (int64_t q = p + 1; q < n; q++)
			{
				double apq = a[p * n + q];
				if (apq == 0) continue;
				double th = (a[q * n + q] - a[p * n + p]) / (2 * apq);
				double t = (th >= 0 ? 1. : -1.) / (std::fabs(th) + std::sqrt(th * th + 1));
				double c = 1 / std::sqrt(t * t + 1), s = t * c;
				for (int64_t k = 0; k < n; k++)
				{
					double x = a[k * n + p], y = a[k * n + q];
					a[k * n + p] = c * x - s * y;
					a[k * n + q] = s * x + c * y;
				}
				for (int64_t k = 0; k < n; k++)
				{
					double x = a[p * n + k], y = a[q * n + k];
					a[p * n + k] = c * x - s * y;
					a[q * n + k] = s * x + c * y;
				}
				for (int64_t k = 0; k < n; k++)
				{
					double x = v[k * n + p], y = v[k * n + q];
					v[k * n + p] = c * x - s * y;
					v[k * n + q] = s * x + c * y;
				}
			}
	}
}
static std::tuple<Tensor, Tensor> numericEigh(const Tensor &A)
{
	int64_t n = A.size(0);
	std::vector<double> a(n * n), v;
	auto o = offs(A);
	for (int64_t i = 0; i < n; i++)
		for (int64_t j = 0; j < n; j++) a[i * n + j] = dat(A)[o[i >= j ? i * n + j : j * n + i]];
	jacobiEigh(a, v, n);
	vec ord(n);
	for (int64_t i = 0; i < n; i++) ord[i] = i;
	std::sort(ord.begin(), ord.end(), [&](int64_t x, int64_t y) { return a[x * n + x] < a[y * n + y]; });
	Tensor e = mk({n}, A.scalar_type()), u = mk({n, n}, A.scalar_type());
	for (int64_t i = 0; i < n; i++)
	{
		dat(e)[i] = a[ord[i] * n + ord[i]];
		for (int64_t k = 0; k < n; k++) dat(u)[k * n + i] = v[k * n + ord[i]];
	}
	return {e, u};
}
static std::tuple<Tensor, Tensor, Tensor> numericSvd(const Tensor &A)
{
	int64_t m = A.size(0), n = A.size(1);
	if (m < n)
	{
		auto [u, d, v] = numericSvd(A.transpose(0, 1));
		return {v, d, u};
	}
	// one sided Jacobi, m >= n
	std::vector<double> w(m * n), v(n * n, 0);
	auto o = offs(A);
	for (int64_t i = 0; i < m * n; i++) w[i] = dat(A)[o[i]];
	for (int64_t i = 0; i < n; i++) v[i * n + i] = 1;
	for (int sweep = 0; sweep < 60; sweep++)
	{
		bool rot = false;
		for (int64_t p = 0; p < n; p++)
			for (int64_t q = p + 1; q < n; q++)
			{
				double al = 0, be = 0, ga = 0;
				for (int64_t k = 0; k < m; k++)
				{
					al += w[k * n + p] * w[k * n + p];
					be += w[k * n + q] * w[k * n + q];
					ga += w[k * n + p] * w[k * n + q];
				}
				if (std::fabs(ga) <= 1e-16 * std::sqrt(al * be) || ga == 0) continue;
				rot = true;
				double ze = (be - al) / (2 * ga);
				double t = (ze >= 0 ? 1. : -1.) / (std::fabs(ze) + std::sqrt(1 + ze * ze));
				double c = 1 / std::sqrt(1 + t * t), s = c * t;
				for (int64_t k = 0; k < m; k++)
				{
					double x = w[k * n + p], y = w[k * n + q];
					w[k * n + p] = c * x - s * y;
					w[k * n + q] = s * x + c * y;
				}
				for (int64_t k = 0; k < n; k++)
				{
					double x = v[k * n + p], y = v[k * n + q];
					v[k * n + p] = c * x - s * y;
					v[k * n + q] = s * x + c * y;
				}
			}
		if (!rot) break;
	}
	std::vector<double> d(n);
	for (int64_t j = 0; j < n; j++)
	{
		double s = 0;
		for (int64_t k = 0; k < m; k++) s += w[k * n + j] * w[k * n + j];
		d[j] = std::sqrt(s);
	}
	vec ord(n);
	for (int64_t i = 0; i < n; i++) ord[i] = i;
	std::sort(ord.begin(), ord.end(), [&](int64_t x, int64_t y) { return d[x] > d[y]; });
	Tensor U = mk({m, n}, A.scalar_type()), D = mk({n}, A.scalar_type()), V = mk({n, n}, A.scalar_type());
	double *u = dat(U);
	for (int64_t j = 0; j < n; j++)
	{
		int64_t c = ord[j];
		dat(D)[j] = d[c];
		for (int64_t k = 0; k < n; k++) dat(V)[k * n + j] = v[k * n + c];
		if (d[c] > 1e-14 * (1 + d[ord[0]]))
			for (int64_t k = 0; k < m; k++) u[k * n + j] = w[k * n + c] / d[c];
		else
		{
			// complete with a unit vector orthogonal to the previous ones
			for (int64_t e = 0; e < m; e++)
			{
				std::vector<double> x(m, 0);
				x[e] = 1;
				for (int pass = 0; pass < 2; pass++)
					for (int64_t l = 0; l < j; l++)
					{
						double s = 0;
						for (int64_t k = 0; k < m; k++) s += x[k] * u[k * n + l];
						for (int64_t k = 0; k < m; k++) x[k] -= s * u[k * n + l];
					}
				double s = 0;
				for (double y : x) s += y * y;
				if (s > 0.1 / (double)m)
				{
					for (int64_t k = 0; k < m; k++) u[k * n + j] = x[k] / std::sqrt(s);
					break;
				}
			}
		}
	}
	return {U, D, V};
}
static Tensor fresh(IntArrayRef s, const char *name, ScalarType dt)
{
	Tensor t = mk(s, dt);
	for (auto &x : t.impl->st->d) x = sym_real(name);
	return t;
}
static void assumeOrtho(const Tensor &u)
{
	int64_t m = u.size(0), k = u.size(1);
	double *p = dat(u);
	for (int64_t i = 0; i < k; i++)
		for (int64_t j = i; j < k; j++)
		{
			double s = 0;
			for (int64_t r = 0; r < m; r++) s += p[r * k + i] * p[r * k + j];
			sym_assume_real(s == (i == j ? 1. : 0.));
		}
}
std::tuple<Tensor, Tensor, Tensor> svd(const Tensor &a, bool, bool)
{
	if (a.dim() < 2) err("svd: a matrix or a batch of matrices expected");
	if (a.dim() > 2)
	{
		vec bs(a.sizes().begin(), a.sizes().end() - 2), su = bs, sd = bs, sv = bs;
		int64_t m = a.size(-2), n = a.size(-1), k = m < n ? m : n, B = prodv(bs);
		Tensor f = a.reshape({B, m, n});
		su.insert(su.end(), {m, k});
		sd.insert(sd.end(), {k});
		sv.insert(sv.end(), {n, k});
		Tensor U = mk({B, m, k}, a.scalar_type()), D = mk({B, k}, a.scalar_type()), V = mk({B, n, k}, a.scalar_type());
		for (int64_t i = 0; i < B; i++)
		{
			auto [u, d, v] = svd(f.select(0, i));
			U.select(0, i).copy_(u);
			D.select(0, i).copy_(d);
			V.select(0, i).copy_(v);
		}
		return {U.reshape(su), D.reshape(sd), V.reshape(sv)};
	}
	minitorch::svd_calls++;
	auto log = [](std::tuple<Tensor, Tensor, Tensor> r) {
		minitorch::svd_log.push_back({std::get<0>(r).clone(), std::get<1>(r).clone(), std::get<2>(r).clone()});
		return r;
	};
	if (minitorch::svd_mode == minitorch::decomposition::numeric) return log(numericSvd(a));
	int64_t m = a.size(0), n = a.size(1), k = m < n ? m : n;
	Tensor u = fresh({m, k}, "svd_u", a.scalar_type()), d = fresh({k}, "svd_d", a.scalar_type()), v = fresh({n, k}, "svd_v", a.scalar_type());
	if (minitorch::concrete_spectrum)
		for (int64_t i = 0; i < k; i++) dat(d)[i] = (double)(k - i);
	else if (minitorch::sorted_spectrum)
		for (int64_t i = 0; i < k; i++) sym_assume_real(i + 1 < k ? dat(d)[i] >= dat(d)[i + 1] : dat(d)[i] >= 0);
	if (minitorch::contract_product)
	{
		auto o = offs(a);
		for (int64_t i = 0; i < m; i++)
			for (int64_t j = 0; j < n; j++)
			{
				double s = 0;
				for (int64_t l = 0; l < k; l++) s += dat(u)[i * k + l] * dat(d)[l] * dat(v)[j * k + l];
				sym_assume_real(dat(a)[o[i * n + j]] == s);
			}
	}
	if (minitorch::contract_ortho)
	{
		assumeOrtho(u);
		assumeOrtho(v);
	}
	return log({u, d, v});
}
std::tuple<Tensor, Tensor> symeig(const Tensor &a, bool, bool) { return linalg::eigh(a, "U"); }
std::tuple<Tensor, Tensor, Tensor> Tensor::svd(bool s, bool c) const { return at::svd(*this, s, c); }
namespace linalg
{
std::tuple<Tensor, Tensor> eigh(const Tensor &a, std::string)
{
	if (a.dim() < 2 || a.size(-1) != a.size(-2)) err("linalg.eigh: square matrix expected");
	if (a.dim() > 2)
	{
		vec bs(a.sizes().begin(), a.sizes().end() - 2), se = bs, su = bs;
		int64_t n = a.size(-1), B = prodv(bs);
		Tensor f = a.reshape({B, n, n});
		se.insert(se.end(), {n});
		su.insert(su.end(), {n, n});
		Tensor E = mk({B, n}, a.scalar_type()), U = mk({B, n, n}, a.scalar_type());
		for (int64_t i = 0; i < B; i++)
		{
			auto [e, u] = eigh(f.select(0, i));
			E.select(0, i).copy_(e);
			U.select(0, i).copy_(u);
		}
		return {E.reshape(se), U.reshape(su)};
	}
	minitorch::eigh_calls++;
	auto log = [](std::tuple<Tensor, Tensor> r) {
		minitorch::svd_log.push_back({std::get<1>(r).clone(), std::get<0>(r).clone(), std::get<1>(r).clone()});
		return r;
	};
	if (minitorch::svd_mode == minitorch::decomposition::numeric) return log(numericEigh(a));
	int64_t n = a.size(0);
	Tensor e = fresh({n}, "eigh_e", a.scalar_type()), u = fresh({n, n}, "eigh_u", a.scalar_type());
	if (minitorch::sorted_spectrum)
		for (int64_t i = 0; i + 1 < n; i++) sym_assume_real(dat(e)[i] <= dat(e)[i + 1]);
	if (minitorch::contract_product)
	{
		auto o = offs(a);
		for (int64_t i = 0; i < n; i++)
			for (int64_t j = 0; j <= i; j++)
			{
				double s = 0;
				for (int64_t l = 0; l < n; l++) s += dat(u)[i * n + l] * dat(e)[l] * dat(u)[j * n + l];
				sym_assume_real(dat(a)[o[i * n + j]] == s);
			}
	}
	if (minitorch::contract_ortho) assumeOrtho(u);
	return log({e, u});
}
std::tuple<Tensor, Tensor, Tensor> svd(const Tensor &a, bool)
{
	auto [u, d, v] = at::svd(a);
	return {u, d, v.transpose(0, 1)};
}
Tensor vector_norm(const Tensor &a, const Scalar &ord, optional<IntArrayRef>, bool, optional<ScalarType>) { return a.norm(ord); }
Tensor norm(const Tensor &a) { return a.norm(2); }
} // namespace linalg
} // namespace at
namespace torch
{
void set_default_dtype(caffe2::TypeMeta t) { at::g_default = t.t; }
caffe2::TypeMeta get_default_dtype() { return caffe2::TypeMeta(at::g_default); }
Tensor mt_tensor(const mt_detail::TensorData &d, TensorOptions o)
{
	ScalarType t = o.has_dt ? o.dt : c10::isFloatingType(d.t) ? at::g_default : d.t == ScalarType::Bool ? ScalarType::Bool : d.t == ScalarType::Undefined ? at::g_default : ScalarType::Long;
	Tensor r = at::impl_::makeTensor(d.sizes, t);
	if ((int64_t)d.v.size() != r.numel()) throw Error("ragged list in torch::tensor");
	for (size_t i = 0; i < d.v.size(); i++) r.impl->st->d[i] = d.v[i];
	if (o.has_rg) r.impl->rg = o.rg;
	return r;
}
} // namespace torch
