// mini torch: a small reference implementation of the part of libtorch's C++
// interface that QuantiT uses, written so it can be executed symbolically.
// Elements are doubles whatever the dtype tag; storage is shared and strided
// exactly as in torch (views alias, reshape copies only when it must, in-place
// operations write through).
#pragma once
#include <algorithm>
#include <cassert>
#include <cmath>
#include <chrono>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <fstream>
#include <iomanip>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <set>
#include <string_view>
#include <typeinfo>
#include <unordered_map>
#include <atomic>
#include <bitset>
#include <complex>
#include <cstdint>
#include <initializer_list>
#include <iostream>
#include <limits>
#include <optional>
#include <sstream>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>
#include <array>
#include <functional>
#include <random>

namespace c10
{
struct Error : std::runtime_error
{
	Error(const std::string &s) : std::runtime_error(s) {}
	std::string msg() const { return what(); }
};
struct IndexError : Error
{
	using Error::Error;
};
template <class T>
struct complex
{
	T re, im;
	complex(T r = 0, T i = 0) : re(r), im(i) {}
	T real() const { return re; }
	T imag() const { return im; }
	operator std::complex<T>() const { return {re, im}; }
	friend complex operator+(complex a, complex b) { return {a.re + b.re, a.im + b.im}; }
	friend complex operator-(complex a, complex b) { return {a.re - b.re, a.im - b.im}; }
	friend complex operator*(complex a, complex b) { return {a.re * b.re - a.im * b.im, a.re * b.im + a.im * b.re}; }
	friend complex operator/(complex a, complex b)
	{
		T n = b.re * b.re + b.im * b.im;
		return {(a.re * b.re + a.im * b.im) / n, (a.im * b.re - a.re * b.im) / n};
	}
	using value_type = T;
};
struct Half
{
	float v;
};
struct BFloat16
{
	float v;
};
struct qint8
{
	int8_t v;
};
struct quint8
{
	uint8_t v;
};
struct qint32
{
	int32_t v;
};
struct quint4x2
{
	uint8_t v;
};
struct quint2x4
{
	uint8_t v;
};
template <class T>
using optional = std::optional<T>;
using nullopt_t = std::nullopt_t;
inline constexpr nullopt_t nullopt = std::nullopt;

enum class ScalarType : int8_t
{
	Byte, Char, Short, Int, Long, Half, Float, Double, ComplexHalf, ComplexFloat, ComplexDouble, Bool, QInt8, QUInt8, QInt32, BFloat16, QUInt4x2, QUInt2x4, Undefined, NumOptions
};
#define AT_FORALL_SCALAR_TYPES(_) \
	_(uint8_t, Byte) _(int8_t, Char) _(int16_t, Short) _(int, Int) _(int64_t, Long) _(float, Float) _(double, Double)
#define AT_FORALL_SCALAR_TYPES_WITH_COMPLEX_EXCEPT_COMPLEX_HALF(_) \
	_(uint8_t, Byte) _(int8_t, Char) _(int16_t, Short) _(int, Int) _(int64_t, Long) _(at::Half, Half) _(float, Float) _(double, Double) _(c10::complex<float>, ComplexFloat) _(c10::complex<double>, ComplexDouble) _(bool, Bool) _(at::BFloat16, BFloat16)
#define AT_FORALL_SCALAR_TYPES_WITH_COMPLEX(_) \
	_(uint8_t, Byte) _(int8_t, Char) _(int16_t, Short) _(int, Int) _(int64_t, Long) _(at::Half, Half) _(float, Float) _(double, Double) _(c10::complex<c10::Half>, ComplexHalf) _(c10::complex<float>, ComplexFloat) _(c10::complex<double>, ComplexDouble) _(bool, Bool) _(at::BFloat16, BFloat16)
#define AT_FORALL_SCALAR_TYPES_WITH_COMPLEX_AND_QINTS(_) \
	AT_FORALL_SCALAR_TYPES_WITH_COMPLEX(_) _(c10::qint8, QInt8) _(c10::quint8, QUInt8) _(c10::qint32, QInt32) _(c10::quint4x2, QUInt4x2) _(c10::quint2x4, QUInt2x4)
namespace impl
{
template <ScalarType S>
struct ScalarTypeToCPPType;
#define MT_ST(T, N)                          \
	template <>                              \
	struct ScalarTypeToCPPType<ScalarType::N> \
	{                                        \
		using type = T;                      \
		static type t;                       \
	};
MT_ST(uint8_t, Byte)
MT_ST(int8_t, Char)
MT_ST(int16_t, Short)
MT_ST(int, Int)
MT_ST(int64_t, Long)
MT_ST(c10::Half, Half)
MT_ST(float, Float)
MT_ST(double, Double)
MT_ST(c10::complex<c10::Half>, ComplexHalf)
MT_ST(c10::complex<float>, ComplexFloat)
MT_ST(c10::complex<double>, ComplexDouble)
MT_ST(bool, Bool)
MT_ST(c10::BFloat16, BFloat16)
MT_ST(c10::qint8, QInt8)
MT_ST(c10::quint8, QUInt8)
MT_ST(c10::qint32, QInt32)
MT_ST(c10::quint4x2, QUInt4x2)
MT_ST(c10::quint2x4, QUInt2x4)
#undef MT_ST
template <ScalarType S>
using ScalarTypeToCPPTypeT = typename ScalarTypeToCPPType<S>::type;
} // namespace impl
template <class T>
struct CppTypeToScalarType
{
	static constexpr ScalarType value = std::is_same_v<T, bool> ? ScalarType::Bool : std::is_same_v<T, float> ? ScalarType::Float : std::is_floating_point_v<T> ? ScalarType::Double : sizeof(T) == 8 ? ScalarType::Long : sizeof(T) == 4 ? ScalarType::Int : sizeof(T) == 2 ? ScalarType::Short : std::is_signed_v<T> ? ScalarType::Char : ScalarType::Byte;
};
inline bool isIntegralType(ScalarType t, bool includeBool) { return (t >= ScalarType::Byte && t <= ScalarType::Long) || (includeBool && t == ScalarType::Bool); }
inline bool isFloatingType(ScalarType t) { return t == ScalarType::Double || t == ScalarType::Float || t == ScalarType::Half || t == ScalarType::BFloat16; }
inline bool isComplexType(ScalarType t) { return t >= ScalarType::ComplexHalf && t <= ScalarType::ComplexDouble; }
ScalarType promoteTypes(ScalarType a, ScalarType b);
inline ScalarType promote_types(ScalarType a, ScalarType b) { return promoteTypes(a, b); }
inline const char *toString(ScalarType) { return ""; }
std::ostream &operator<<(std::ostream &, ScalarType);

enum class DeviceType : int8_t { CPU, CUDA };
inline constexpr DeviceType kCPU = DeviceType::CPU;
inline constexpr DeviceType kCUDA = DeviceType::CUDA;
inline std::string DeviceTypeName(DeviceType, bool = false) { return {}; }
struct Device
{
	DeviceType t;
	Device(DeviceType d = DeviceType::CPU, int = -1) : t(d) {}
	DeviceType type() const { return t; }
	bool operator==(const Device &o) const { return t == o.t; }
	bool operator!=(const Device &o) const { return t != o.t; }
	std::string str() const { return {}; }
	bool is_cpu() const { return t == DeviceType::CPU; }
	bool is_cuda() const { return t == DeviceType::CUDA; }
	int8_t index() const { return -1; }
};
enum class Layout : int8_t { Strided, Sparse };
enum class MemoryFormat : int8_t { Contiguous, Preserve, ChannelsLast, ChannelsLast3d };
template <class T>
using OptionalRef = optional<T>;
} // namespace c10
namespace caffe2
{
struct TypeMeta
{
	c10::ScalarType t = c10::ScalarType::Undefined;
	TypeMeta() = default;
	TypeMeta(c10::ScalarType s) : t(s) {}
	c10::ScalarType toScalarType() const { return t; }
	bool operator==(const TypeMeta &o) const { return t == o.t; }
	bool operator!=(const TypeMeta &o) const { return t != o.t; }
	bool operator==(c10::ScalarType o) const { return t == o; }
	bool operator!=(c10::ScalarType o) const { return t != o; }
	static TypeMeta fromScalarType(c10::ScalarType s) { return TypeMeta(s); }
	size_t itemsize() const { return 8; }
	template <class T>
	static TypeMeta Make() { return TypeMeta(c10::CppTypeToScalarType<T>::value); }
	template <class T>
	bool Match() const { return t == c10::CppTypeToScalarType<T>::value; }
	std::string_view name() const { return {}; }
};
inline bool operator==(c10::ScalarType a, const TypeMeta &b) { return b.t == a; }
inline bool operator!=(c10::ScalarType a, const TypeMeta &b) { return b.t != a; }
} // namespace caffe2
namespace c10
{
inline ScalarType typeMetaToScalarType(caffe2::TypeMeta m) { return m.t; }
inline caffe2::TypeMeta scalarTypeToTypeMeta(ScalarType s) { return caffe2::TypeMeta(s); }
template <class T>
class ArrayRef
{
	const T *d;
	size_t n;

  public:
	using iterator = const T *;
	using const_iterator = const T *;
	using size_type = size_t;
	using value_type = T;
	using reverse_iterator = std::reverse_iterator<iterator>;
	constexpr ArrayRef() : d(nullptr), n(0) {}
	constexpr ArrayRef(const T &x) : d(&x), n(1) {}
	constexpr ArrayRef(const T *p, size_t k) : d(p), n(k) {}
	constexpr ArrayRef(const T *b, const T *e) : d(b), n(e - b) {}
	template <class A>
	ArrayRef(const std::vector<T, A> &v) : d(v.data()), n(v.size())
	{
		static_assert(!std::is_same<T, bool>::value, "");
	}
	template <size_t N>
	constexpr ArrayRef(const std::array<T, N> &a) : d(a.data()), n(N) {}
	template <size_t N>
	constexpr ArrayRef(const T (&a)[N]) : d(a), n(N) {}
	constexpr ArrayRef(const std::initializer_list<T> &v) : d(v.begin() == v.end() ? nullptr : v.begin()), n(v.size()) {}
	constexpr iterator begin() const { return d; }
	constexpr iterator end() const { return d + n; }
	constexpr iterator cbegin() const { return d; }
	constexpr iterator cend() const { return d + n; }
	reverse_iterator rbegin() const { return reverse_iterator(end()); }
	reverse_iterator rend() const { return reverse_iterator(begin()); }
	constexpr bool empty() const { return n == 0; }
	constexpr const T *data() const { return d; }
	constexpr size_t size() const { return n; }
	const T &front() const
	{
		if (!n) throw Error("front of empty ArrayRef");
		return d[0];
	}
	const T &back() const
	{
		if (!n) throw Error("back of empty ArrayRef");
		return d[n - 1];
	}
	constexpr bool equals(ArrayRef o) const
	{
		if (n != o.n) return false;
		for (size_t i = 0; i < n; i++)
			if (!(d[i] == o.d[i])) return false;
		return true;
	}
	ArrayRef slice(size_t N, size_t M) const
	{
		if (N + M > n) throw Error("ArrayRef: invalid slice");
		return ArrayRef(d + N, M);
	}
	ArrayRef slice(size_t N) const
	{
		if (N > n) throw Error("ArrayRef: invalid slice");
		return slice(N, n - N);
	}
	constexpr const T &operator[](size_t i) const { return d[i]; }
	const T &at(size_t i) const
	{
		if (i >= n) throw Error("ArrayRef: invalid index");
		return d[i];
	}
	std::vector<T> vec() const { return std::vector<T>(d, d + n); }
};
template <class T>
bool operator==(ArrayRef<T> a, ArrayRef<T> b) { return a.equals(b); }
template <class T>
bool operator!=(ArrayRef<T> a, ArrayRef<T> b) { return !a.equals(b); }
template <class T>
bool operator==(const std::vector<T> &a, ArrayRef<T> b) { return ArrayRef<T>(a).equals(b); }
template <class T>
bool operator!=(const std::vector<T> &a, ArrayRef<T> b) { return !ArrayRef<T>(a).equals(b); }
template <class T>
bool operator==(ArrayRef<T> a, const std::vector<T> &b) { return a.equals(ArrayRef<T>(b)); }
template <class T>
bool operator!=(ArrayRef<T> a, const std::vector<T> &b) { return !a.equals(ArrayRef<T>(b)); }
template <class T>
std::ostream &operator<<(std::ostream &o, ArrayRef<T>) { return o; }
using IntArrayRef = ArrayRef<int64_t>;
template <class T>
ArrayRef<T> makeArrayRef(const std::vector<T> &v) { return v; }

class intrusive_ptr_target
{
	mutable std::atomic<size_t> refcount_;
	mutable std::atomic<size_t> weakcount_;
	template <class T>
	friend class intrusive_ptr;

  public:
	intrusive_ptr_target() : refcount_(0), weakcount_(0) {}
	virtual ~intrusive_ptr_target() {}
};
template <class T>
class intrusive_ptr
{
	T *p = nullptr;

  public:
	intrusive_ptr() = default;
	explicit intrusive_ptr(T *q) : p(q)
	{
		if (p) p->refcount_.fetch_add(1);
	}
	intrusive_ptr(const intrusive_ptr &o) : p(o.p)
	{
		if (p) p->refcount_.fetch_add(1);
	}
	intrusive_ptr(intrusive_ptr &&o) noexcept : p(o.p) { o.p = nullptr; }
	intrusive_ptr &operator=(intrusive_ptr o) noexcept
	{
		std::swap(p, o.p);
		return *this;
	}
	~intrusive_ptr()
	{
		if (p && p->refcount_.fetch_sub(1) == 1) delete p;
	}
	T *get() const { return p; }
	T *operator->() const { return p; }
	T &operator*() const { return *p; }
	explicit operator bool() const { return p != nullptr; }
	size_t use_count() const { return p ? p->refcount_.load() : 0; }
	void reset() { *this = intrusive_ptr(); }
};
template <class T>
struct SmallVecAlias
{
};
class Scalar
{
	double v;
	ScalarType t;

  public:
	Scalar() : v(0), t(ScalarType::Long) {}
	Scalar(bool x) : v(x), t(ScalarType::Bool) {}
	template <class T, std::enable_if_t<std::is_integral<T>::value && !std::is_same<T, bool>::value, int> = 0>
	Scalar(T x) : v((double)x), t(ScalarType::Long) {}
	Scalar(float x) : v(x), t(ScalarType::Double) {}
	Scalar(double x) : v(x), t(ScalarType::Double) {}
	template <class T>
	Scalar(c10::complex<T> x) : v(x.re), t(ScalarType::ComplexDouble) {}
	template <class T>
	Scalar(std::complex<T> x) : v(x.real()), t(ScalarType::ComplexDouble) {}
	Scalar(Half x) : v(x.v), t(ScalarType::Double) {}
	Scalar(BFloat16 x) : v(x.v), t(ScalarType::Double) {}
	Scalar(qint8) : v(0), t(ScalarType::Long) {}
	Scalar(quint8) : v(0), t(ScalarType::Long) {}
	Scalar(qint32) : v(0), t(ScalarType::Long) {}
	Scalar(quint4x2) : v(0), t(ScalarType::Long) {}
	Scalar(quint2x4) : v(0), t(ScalarType::Long) {}
	ScalarType type() const { return t; }
	double raw() const { return v; }
	double toDouble() const { return v; }
	float toFloat() const { return (float)v; }
	int toInt() const { return (int)v; }
	int64_t toLong() const { return (int64_t)v; }
	bool toBool() const { return v != 0; }
	template <class T>
	T to() const
	{
		if constexpr (std::is_same_v<T, bool>) return v != 0;
		else if constexpr (std::is_arithmetic_v<T>) return (T)v;
		else if constexpr (std::is_constructible_v<T, double>) return T(v);
		else return T{};
	}
	bool isFloatingPoint() const { return t == ScalarType::Double; }
	bool isIntegral(bool b) const { return t == ScalarType::Long || (b && t == ScalarType::Bool); }
	bool isIntegral() const { return t == ScalarType::Long; }
	bool isBoolean() const { return t == ScalarType::Bool; }
	bool isComplex() const { return t == ScalarType::ComplexDouble; }
	Scalar operator-() const;
	Scalar conj() const { return *this; }
	Scalar log() const;
	template <class T, std::enable_if_t<std::is_arithmetic<T>::value, int> = 0>
	bool equal(T x) const { return v == (double)x; }
	bool equal(bool x) const { return t == ScalarType::Bool && toBool() == x; }
	static Scalar make(double x, ScalarType ty)
	{
		Scalar s;
		s.v = x;
		s.t = ty;
		return s;
	}
};
inline Scalar Scalar::operator-() const { return make(-v, t); }
struct TensorOptions
{
	ScalarType dt = ScalarType::Undefined;
	bool has_dt = false, has_rg = false, rg = false, has_dev = false;
	DeviceType dev = DeviceType::CPU;
	TensorOptions() = default;
	TensorOptions(ScalarType s) : dt(s), has_dt(true) {}
	TensorOptions(caffe2::TypeMeta s) : dt(s.t), has_dt(true) {}
	TensorOptions(Device d) : has_dev(true), dev(d.t) {}
	TensorOptions(DeviceType d) : has_dev(true), dev(d) {}
	TensorOptions(Layout) {}
	TensorOptions(MemoryFormat) {}
	TensorOptions dtype(ScalarType s) const
	{
		auto r = *this;
		r.dt = s;
		r.has_dt = true;
		return r;
	}
	TensorOptions dtype(optional<ScalarType> s) const
	{
		auto r = *this;
		r.has_dt = s.has_value();
		if (s) r.dt = *s;
		return r;
	}
	TensorOptions dtype(caffe2::TypeMeta s) const { return dtype(s.t); }
	TensorOptions dtype(optional<caffe2::TypeMeta> s) const
	{
		auto r = *this;
		r.has_dt = s.has_value();
		if (s) r.dt = s->t;
		return r;
	}
	template <class T>
	TensorOptions dtype() const { return dtype(CppTypeToScalarType<T>::value); }
	caffe2::TypeMeta dtype() const;
	bool has_dtype() const { return has_dt; }
	optional<caffe2::TypeMeta> dtype_opt() const { return has_dt ? optional<caffe2::TypeMeta>(caffe2::TypeMeta(dt)) : nullopt; }
	bool has_device() const { return has_dev; }
	bool has_requires_grad() const { return has_rg; }
	bool requires_grad() const { return rg; }
	TensorOptions requires_grad(optional<bool> b) const
	{
		auto r = *this;
		r.has_rg = b.has_value();
		r.rg = b.value_or(false);
		return r;
	}
	TensorOptions device(optional<Device> d) const
	{
		auto r = *this;
		r.has_dev = d.has_value();
		if (d) r.dev = d->t;
		return r;
	}
	TensorOptions device(Device d) const { return device(optional<Device>(d)); }
	TensorOptions device(DeviceType d) const { return device(optional<Device>(Device(d))); }
	TensorOptions device(DeviceType d, int) const { return device(optional<Device>(Device(d))); }
	Device device() const { return Device(dev); }
	optional<Device> device_opt() const { return has_dev ? optional<Device>(Device(dev)) : nullopt; }
	TensorOptions layout(optional<Layout>) const { return *this; }
	Layout layout() const { return Layout::Strided; }
	TensorOptions pinned_memory(optional<bool>) const { return *this; }
	TensorOptions memory_format(optional<MemoryFormat>) const { return *this; }
	optional<MemoryFormat> memory_format_opt() const { return nullopt; }
	TensorOptions merge_in(TensorOptions o) const
	{
		auto r = *this;
		if (o.has_dt) r = r.dtype(o.dt);
		if (o.has_rg) r = r.requires_grad(o.rg);
		if (o.has_dev) r = r.device(o.dev);
		return r;
	}
	TensorOptions merge_memory_format(optional<MemoryFormat>) const { return *this; }
};
struct Storage_ : intrusive_ptr_target
{
	std::vector<double> d;
};
struct TensorImpl : intrusive_ptr_target
{
	intrusive_ptr<Storage_> st;
	int64_t off = 0;
	std::vector<int64_t> sizes, strides;
	ScalarType dt = ScalarType::Double;
	bool rg = false;
};
} // namespace c10
namespace at
{
using namespace c10;
class Tensor;
namespace indexing
{
constexpr int64_t INDEX_MAX = INT64_MAX, INDEX_MIN = INT64_MIN;
enum class TensorIndexType { None, Ellipsis, Integer, Boolean, Slice, Tensor };
struct EllipsisIndexType
{
};
inline constexpr EllipsisIndexType Ellipsis{};
inline constexpr nullopt_t None = nullopt;
struct Slice
{
	optional<int64_t> b, e, s;
	Slice(optional<int64_t> start = nullopt, optional<int64_t> stop = nullopt, optional<int64_t> step = nullopt) : b(start), e(stop), s(step)
	{
		if (s && *s == 0) throw Error("slice step cannot be zero");
	}
	int64_t start() const { return b.value_or(0); }
	int64_t stop() const { return e.value_or(INDEX_MAX); }
	int64_t step() const { return s.value_or(1); }
};
struct TensorIndex;
} // namespace indexing
template <class T, size_t N>
struct TensorAccessor
{
	double *p;
	const int64_t *sz, *st;
	auto operator[](int64_t i) const
	{
		if constexpr (N == 1) return (double &)p[i * st[0]];
		else return TensorAccessor<T, N - 1>{p + i * st[0], sz + 1, st + 1};
	}
	int64_t size(int64_t i) const { return sz[i]; }
};
template <class T>
struct TensorAccessor<T, 1>
{
	double *p;
	const int64_t *sz, *st;
	struct Ref
	{
		double *q;
		operator T() const
		{
			if constexpr (std::is_same_v<T, bool>) return *q != 0;
			else return (T)*q;
		}
		Ref &operator=(T x)
		{
			*q = (double)x;
			return *this;
		}
		Ref &operator=(const Ref &o)
		{
			*q = *o.q;
			return *this;
		}
	};
	Ref operator[](int64_t i) const { return Ref{p + i * st[0]}; }
	int64_t size(int64_t i) const { return sz[i]; }
};
class Tensor
{
  public:
	intrusive_ptr<TensorImpl> impl;
	Tensor() = default;
	explicit Tensor(intrusive_ptr<TensorImpl> p) : impl(std::move(p)) {}
	TensorImpl *unsafeGetTensorImpl() const { return impl.get(); }
	bool defined() const { return (bool)impl; }
	size_t use_count() const { return impl.use_count(); }
	bool is_same(const Tensor &o) const { return impl.get() == o.impl.get(); }
	const TensorImpl &I() const
	{
		if (!impl) throw Error("undefined tensor");
		return *impl;
	}
	IntArrayRef sizes() const { return I().sizes; }
	IntArrayRef strides() const { return I().strides; }
	int64_t dim() const { return (int64_t)I().sizes.size(); }
	int64_t ndimension() const { return dim(); }
	int64_t size(int64_t d) const;
	int64_t stride(int64_t d) const;
	int64_t numel() const;
	int64_t storage_offset() const { return I().off; }
	caffe2::TypeMeta dtype() const { return caffe2::TypeMeta(I().dt); }
	ScalarType scalar_type() const { return I().dt; }
	Device device() const { return Device(); }
	TensorOptions options() const
	{
		TensorOptions o;
		o = o.dtype(I().dt).device(DeviceType::CPU).requires_grad(optional<bool>(I().rg));
		return o;
	}
	bool is_floating_point() const { return isFloatingType(I().dt); }
	bool is_complex() const { return isComplexType(I().dt); }
	bool is_sparse() const { return false; }
	bool is_cuda() const { return false; }
	bool is_cpu() const { return true; }
	bool is_contiguous() const;
	bool requires_grad() const { return I().rg; }
	const Tensor &requires_grad_(bool b = true) const
	{
		impl->rg = b;
		return *this;
	}
	const Tensor &set_requires_grad(bool b) const { return requires_grad_(b); }
	void backward() const {}
	Tensor detach() const;
	Tensor grad() const { return Tensor(); }
	Tensor contiguous() const;
	Tensor clone() const;
	Tensor clone(optional<MemoryFormat>) const { return clone(); }
	Tensor expand(IntArrayRef s, bool = false) const;
	Tensor expand_as(const Tensor &o) const { return expand(o.sizes()); }
	Tensor broadcast_to(IntArrayRef s) const { return expand(s); }
	Tensor permute(IntArrayRef d) const;
	Tensor transpose(int64_t a, int64_t b) const;
	Tensor &transpose_(int64_t a, int64_t b);
	Tensor t() const;
	Tensor &t_() { return *this = t(); }
	Tensor mT() const { return transpose(-2, -1); }
	Tensor reshape(IntArrayRef s) const;
	Tensor reshape_as(const Tensor &o) const { return reshape(o.sizes()); }
	Tensor view(IntArrayRef s) const;
	Tensor view_as(const Tensor &o) const { return view(o.sizes()); }
	Tensor flatten(int64_t a = 0, int64_t b = -1) const;
	Tensor squeeze() const;
	Tensor squeeze(int64_t d) const;
	const Tensor &squeeze_() const;
	const Tensor &squeeze_(int64_t d) const;
	Tensor unsqueeze(int64_t d) const;
	const Tensor &unsqueeze_(int64_t d) const;
	const Tensor &resize_(IntArrayRef s) const;
	Tensor as_strided(IntArrayRef s, IntArrayRef st, optional<int64_t> off = nullopt) const;
	const Tensor &as_strided_(IntArrayRef s, IntArrayRef st, optional<int64_t> off = nullopt) const;
	Tensor narrow(int64_t d, int64_t s, int64_t l) const;
	Tensor select(int64_t d, int64_t i) const;
	Tensor slice(int64_t d = 0, optional<int64_t> b = nullopt, optional<int64_t> e = nullopt, int64_t s = 1) const;
	Tensor operator[](int64_t i) const { return select(0, i); }
	Tensor index_select(int64_t d, const Tensor &i) const;
	Tensor index(ArrayRef<indexing::TensorIndex> i) const;
	Tensor index(std::initializer_list<indexing::TensorIndex> i) const;
	Tensor index(const std::vector<indexing::TensorIndex> &i) const;
	const Tensor &index_put_(ArrayRef<indexing::TensorIndex> i, const Tensor &v) const;
	const Tensor &index_put_(std::initializer_list<indexing::TensorIndex> i, const Tensor &v) const;
	const Tensor &index_put_(const std::vector<indexing::TensorIndex> &i, const Tensor &v) const;
	const Tensor &index_put_(ArrayRef<indexing::TensorIndex> i, const Scalar &v) const;
	const Tensor &index_put_(std::initializer_list<indexing::TensorIndex> i, const Scalar &v) const;
	const Tensor &index_put_(const std::vector<indexing::TensorIndex> &i, const Scalar &v) const;
	const Tensor &copy_(const Tensor &o, bool = false) const;
	const Tensor &fill_(const Scalar &s) const;
	const Tensor &fill_(const Tensor &s) const;
	const Tensor &zero_() const { return fill_(Scalar(0)); }
	Scalar item() const;
	template <class T>
	T item() const { return item().to<T>(); }
	Tensor to(ScalarType s, bool = false, bool copy = false, optional<MemoryFormat> = nullopt) const;
	Tensor to(TensorOptions o, bool = false, bool copy = false, optional<MemoryFormat> = nullopt) const;
	Tensor to(Device, ScalarType s, bool = false, bool copy = false, optional<MemoryFormat> = nullopt) const { return to(s, false, copy); }
	Tensor to(const Tensor &o, bool = false, bool copy = false, optional<MemoryFormat> = nullopt) const { return to(o.scalar_type(), false, copy); }
	Tensor toType(ScalarType s) const { return to(s); }
	Tensor cpu() const { return *this; }
	Tensor type_as(const Tensor &o) const { return to(o.scalar_type()); }
	bool is_alias_of(const Tensor &o) const { return &*impl->st == &*o.impl->st; }
	template <class T>
	T *data_ptr() const;
	template <class T, size_t N>
	TensorAccessor<T, N> accessor() const &
	{
		if (dim() != (int64_t)N) throw Error("accessor: wrong rank");
		return TensorAccessor<T, N>{impl->st->d.data() + impl->off, impl->sizes.data(), impl->strides.data()};
	}
	template <class T, size_t N>
	TensorAccessor<T, N> packed_accessor32() const & { return accessor<T, N>(); }
	template <class T, size_t N>
	TensorAccessor<T, N> packed_accessor64() const & { return accessor<T, N>(); }
	// arithmetic
#define MT_BIN(name)                               \
	Tensor name(const Tensor &o) const;            \
	Tensor name(const Scalar &o) const;            \
	Tensor &name##_(const Tensor &o) const;        \
	Tensor &name##_(const Scalar &o) const;
	MT_BIN(mul)
	MT_BIN(div)
	MT_BIN(pow)
	MT_BIN(fmod)
	MT_BIN(remainder)
#undef MT_BIN
	Tensor add(const Tensor &o, const Scalar &a = 1) const;
	Tensor add(const Scalar &o, const Scalar &a = 1) const;
	Tensor &add_(const Tensor &o, const Scalar &a = 1) const;
	Tensor &add_(const Scalar &o, const Scalar &a = 1) const;
	Tensor sub(const Tensor &o, const Scalar &a = 1) const;
	Tensor sub(const Scalar &o, const Scalar &a = 1) const;
	Tensor &sub_(const Tensor &o, const Scalar &a = 1) const;
	Tensor &sub_(const Scalar &o, const Scalar &a = 1) const;
	Tensor multiply(const Tensor &o) const { return mul(o); }
	Tensor divide(const Tensor &o) const { return div(o); }
	Tensor true_divide(const Tensor &o) const { return div(o); }
	Tensor &operator+=(const Tensor &o) { return add_(o); }
	Tensor &operator+=(const Scalar &o) { return add_(o); }
	Tensor &operator-=(const Tensor &o) { return sub_(o); }
	Tensor &operator-=(const Scalar &o) { return sub_(o); }
	Tensor &operator*=(const Tensor &o) { return mul_(o); }
	Tensor &operator*=(const Scalar &o) { return mul_(o); }
	Tensor &operator/=(const Tensor &o) { return div_(o); }
	Tensor &operator/=(const Scalar &o) { return div_(o); }
	Tensor &operator&=(const Tensor &o);
	Tensor &operator|=(const Tensor &o);
	Tensor operator-() const { return neg(); }
	Tensor operator~() const { return logical_not(); }
	Tensor operator!() const { return logical_not(); }
#define MT_UN(name)      \
	Tensor name() const; \
	Tensor &name##_() const;
	MT_UN(neg)
	MT_UN(abs)
	MT_UN(sqrt)
	MT_UN(square)
	MT_UN(exp)
	MT_UN(log)
	MT_UN(sin)
	MT_UN(cos)
	MT_UN(reciprocal)
	MT_UN(rsqrt)
	MT_UN(sign)
	MT_UN(logical_not)
	MT_UN(relu)
#undef MT_UN
	Tensor isnan() const;
	Tensor isinf() const;
	Tensor isfinite() const;
	Tensor conj() const { return *this; }
	Tensor conj_physical() const { return clone(); }
	Tensor resolve_conj() const { return *this; }
	Tensor real_() const { return *this; }
#define MT_CMP(name)                    \
	Tensor name(const Tensor &o) const; \
	Tensor name(const Scalar &o) const; \
	Tensor &name##_(const Tensor &o) const; \
	Tensor &name##_(const Scalar &o) const;
	MT_CMP(eq)
	MT_CMP(ne)
	MT_CMP(lt)
	MT_CMP(le)
	MT_CMP(gt)
	MT_CMP(ge)
#undef MT_CMP
	Tensor equal_to(const Tensor &o) const { return eq(o); }
	Tensor not_equal(const Tensor &o) const { return ne(o); }
	Tensor less(const Tensor &o) const { return lt(o); }
	Tensor less_equal(const Tensor &o) const { return le(o); }
	Tensor greater(const Tensor &o) const { return gt(o); }
	Tensor greater_equal(const Tensor &o) const { return ge(o); }
	Tensor not_equal(const Scalar &o) const { return ne(o); }
	Tensor less(const Scalar &o) const { return lt(o); }
	Tensor less_equal(const Scalar &o) const { return le(o); }
	Tensor greater(const Scalar &o) const { return gt(o); }
	Tensor greater_equal(const Scalar &o) const { return ge(o); }
	Tensor &not_equal_(const Tensor &o) const { return ne_(o); }
	Tensor &less_(const Tensor &o) const { return lt_(o); }
	Tensor &less_equal_(const Tensor &o) const { return le_(o); }
	Tensor &greater_(const Tensor &o) const { return gt_(o); }
	Tensor &greater_equal_(const Tensor &o) const { return ge_(o); }
	Tensor &not_equal_(const Scalar &o) const { return ne_(o); }
	Tensor &less_(const Scalar &o) const { return lt_(o); }
	Tensor &less_equal_(const Scalar &o) const { return le_(o); }
	Tensor &greater_(const Scalar &o) const { return gt_(o); }
	Tensor &greater_equal_(const Scalar &o) const { return ge_(o); }
	Tensor logical_and(const Tensor &o) const;
	Tensor logical_or(const Tensor &o) const;
	bool equal(const Tensor &o) const;
	bool allclose(const Tensor &o, double rtol = 1e-5, double atol = 1e-8, bool eqn = false) const;
	Tensor isclose(const Tensor &o, double rtol = 1e-5, double atol = 1e-8, bool eqn = false) const;
	Tensor any() const;
	Tensor all() const;
	Tensor sum(optional<ScalarType> = nullopt) const;
	Tensor sum(IntArrayRef d, bool keep = false, optional<ScalarType> = nullopt) const;
	Tensor prod() const;
	Tensor mean() const;
	Tensor max() const;
	Tensor min() const;
	Tensor norm(const Scalar &p = 2) const;
	Tensor trace() const;
	Tensor cumsum(int64_t d) const;
	Tensor flip(IntArrayRef d) const;
	std::tuple<Tensor, Tensor> sort(int64_t d = -1, bool descending = false) const;
	Tensor argsort(int64_t d = -1, bool descending = false) const;
	Tensor matmul(const Tensor &o) const;
	Tensor mm(const Tensor &o) const;
	Tensor bmm(const Tensor &o) const;
	Tensor mv(const Tensor &o) const { return matmul(o); }
	Tensor dot(const Tensor &o) const { return matmul(o); }
	Tensor addmm(const Tensor &a, const Tensor &b, const Scalar &beta = 1, const Scalar &alpha = 1) const;
	Tensor &addmm_(const Tensor &a, const Tensor &b, const Scalar &beta = 1, const Scalar &alpha = 1) const;
	Tensor baddbmm(const Tensor &a, const Tensor &b, const Scalar &beta = 1, const Scalar &alpha = 1) const;
	Tensor &baddbmm_(const Tensor &a, const Tensor &b, const Scalar &beta = 1, const Scalar &alpha = 1) const;
	Tensor diag(int64_t k = 0) const;
	Tensor diagonal(int64_t k = 0, int64_t a = 0, int64_t b = 1) const;
	std::tuple<Tensor, Tensor, Tensor> svd(bool some = true, bool compute_uv = true) const;
	Tensor bitwise_and(const Tensor &o) const { return logical_and(o); }
	Tensor bitwise_or(const Tensor &o) const { return logical_or(o); }
	Tensor masked_fill(const Tensor &m, const Scalar &v) const;
	Tensor nonzero() const;
	Tensor clamp_min(const Scalar &s) const;
	std::vector<Tensor> split(int64_t n, int64_t d = 0) const;
	Tensor repeat(IntArrayRef r) const;
	const Tensor &swap_contents(Tensor &o) { std::swap(impl, o.impl); return *this; }
};
template <class T>
T *Tensor::data_ptr() const
{
	if constexpr (std::is_same_v<T, double>) return impl->st->d.data() + impl->off;
	else
	{
		// values are doubles whatever the tag: hand out a converted copy
		static std::vector<std::vector<T>> *keep = new std::vector<std::vector<T>>;
		Tensor c = contiguous();
		auto *v = new T[c.numel() + 1];
		for (int64_t i = 0; i < c.numel(); i++)
		{
			double x = c.impl->st->d[c.impl->off + i];
			if constexpr (std::is_same_v<T, bool>) v[i] = x != 0;
			else if constexpr (std::is_arithmetic_v<T>) v[i] = (T)x;
		}
		(void)keep;
		return v;
	}
}
namespace indexing
{
struct TensorIndex
{
	TensorIndexType ty;
	int64_t i = 0;
	bool bv = false;
	Slice s;
	Tensor t;
	TensorIndex(nullopt_t) : ty(TensorIndexType::None) {}
	TensorIndex(EllipsisIndexType) : ty(TensorIndexType::Ellipsis) {}
	TensorIndex(const char *s_) : ty(TensorIndexType::Ellipsis) { (void)s_; }
	TensorIndex(int64_t x) : ty(TensorIndexType::Integer), i(x) {}
	TensorIndex(int x) : ty(TensorIndexType::Integer), i(x) {}
	TensorIndex(size_t x) : ty(TensorIndexType::Integer), i((int64_t)x) {}
	template <class T, class = std::enable_if_t<std::is_same<bool, T>::value>>
	TensorIndex(T b) : ty(TensorIndexType::Boolean), bv(b) {}
	TensorIndex(Slice x) : ty(TensorIndexType::Slice), s(x) {}
	TensorIndex(Tensor x) : ty(TensorIndexType::Tensor), t(std::move(x)) {}
	bool is_none() const { return ty == TensorIndexType::None; }
	bool is_ellipsis() const { return ty == TensorIndexType::Ellipsis; }
	bool is_integer() const { return ty == TensorIndexType::Integer; }
	bool is_boolean() const { return ty == TensorIndexType::Boolean; }
	bool is_slice() const { return ty == TensorIndexType::Slice; }
	bool is_tensor() const { return ty == TensorIndexType::Tensor; }
	int64_t integer() const { return i; }
	bool boolean() const { return bv; }
	const Slice &slice() const { return s; }
	const Tensor &tensor() const { return t; }
};
} // namespace indexing
using TensorList = ArrayRef<Tensor>;
using TensorOptions = c10::TensorOptions;
struct Generator
{
};
struct Dimname
{
};
namespace impl_
{
Tensor makeTensor(std::vector<int64_t> sizes, ScalarType dt);
Tensor emptyT(IntArrayRef s, TensorOptions o);
} // namespace impl_
ScalarType get_default_dtype_as_scalartype();
Tensor empty(IntArrayRef s, TensorOptions o = {}, optional<MemoryFormat> = nullopt);
Tensor zeros(IntArrayRef s, TensorOptions o = {});
Tensor ones(IntArrayRef s, TensorOptions o = {});
Tensor full(IntArrayRef s, const Scalar &v, TensorOptions o = {});
Tensor rand(IntArrayRef s, TensorOptions o = {});
Tensor randn(IntArrayRef s, TensorOptions o = {});
Tensor randint(int64_t high, IntArrayRef s, TensorOptions o = {});
Tensor randint(int64_t low, int64_t high, IntArrayRef s, TensorOptions o = {});
Tensor eye(int64_t n, TensorOptions o = {});
Tensor eye(int64_t n, int64_t m, TensorOptions o = {});
Tensor arange(const Scalar &end, TensorOptions o = {});
Tensor arange(const Scalar &start, const Scalar &end, TensorOptions o = {});
Tensor arange(const Scalar &start, const Scalar &end, const Scalar &step, TensorOptions o = {});
Tensor linspace(const Scalar &start, const Scalar &end, int64_t steps, TensorOptions o = {});
Tensor scalar_tensor(const Scalar &s, TensorOptions o = {});
Tensor empty_like(const Tensor &t, TensorOptions o = {}, optional<MemoryFormat> = nullopt);
Tensor zeros_like(const Tensor &t, TensorOptions o = {}, optional<MemoryFormat> = nullopt);
Tensor ones_like(const Tensor &t, TensorOptions o = {}, optional<MemoryFormat> = nullopt);
Tensor full_like(const Tensor &t, const Scalar &v, TensorOptions o = {}, optional<MemoryFormat> = nullopt);
Tensor rand_like(const Tensor &t, TensorOptions o = {}, optional<MemoryFormat> = nullopt);
Tensor randn_like(const Tensor &t, TensorOptions o = {}, optional<MemoryFormat> = nullopt);
Tensor randint_like(const Tensor &t, int64_t high, TensorOptions o = {}, optional<MemoryFormat> = nullopt);
Tensor randint_like(const Tensor &t, int64_t low, int64_t high, TensorOptions o = {}, optional<MemoryFormat> = nullopt);
Tensor empty_strided(IntArrayRef s, IntArrayRef st, TensorOptions o = {});
Tensor cat(TensorList l, int64_t d = 0);
Tensor stack(TensorList l, int64_t d = 0);
Tensor tensordot(const Tensor &a, const Tensor &b, IntArrayRef da, IntArrayRef db);
Tensor &addmm_out(Tensor &out, const Tensor &c, const Tensor &a, const Tensor &b, const Scalar &beta = 1, const Scalar &alpha = 1);
Tensor &mm_out(Tensor &out, const Tensor &a, const Tensor &b);
Tensor &bmm_out(Tensor &out, const Tensor &a, const Tensor &b);
Tensor where(const Tensor &c, const Tensor &a, const Tensor &b);
std::tuple<Tensor, Tensor, Tensor> svd(const Tensor &a, bool some = true, bool compute_uv = true);
std::tuple<Tensor, Tensor> symeig(const Tensor &a, bool eigenvectors = false, bool upper = true);
Tensor einsum(std::string, TensorList);
ScalarType result_type(const Tensor &a, const Tensor &b);
bool equal(const Tensor &a, const Tensor &b);
bool is_complex(const Tensor &a);
inline bool equal(const Tensor &a, const Tensor &b) { return a.equal(b); }
inline bool allclose(const Tensor &a, const Tensor &b, double rtol = 1e-5, double atol = 1e-8, bool eqn = false) { return a.allclose(b, rtol, atol, eqn); }
inline Tensor isclose(const Tensor &a, const Tensor &b, double rtol = 1e-5, double atol = 1e-8, bool eqn = false) { return a.isclose(b, rtol, atol, eqn); }
#define MT_F1(n) \
	inline Tensor n(const Tensor &a) { return a.n(); }
MT_F1(neg) MT_F1(abs) MT_F1(sqrt) MT_F1(square) MT_F1(exp) MT_F1(log) MT_F1(sin) MT_F1(cos) MT_F1(reciprocal) MT_F1(rsqrt) MT_F1(sign) MT_F1(logical_not) MT_F1(isnan) MT_F1(isinf) MT_F1(isfinite) MT_F1(conj) MT_F1(conj_physical) MT_F1(any) MT_F1(all) MT_F1(prod) MT_F1(mean) MT_F1(max) MT_F1(min) MT_F1(trace) MT_F1(squeeze) MT_F1(t) MT_F1(clone) MT_F1(nonzero)
#undef MT_F1
inline Tensor &abs_(Tensor &a) { return a.abs_(); }
inline Tensor &sqrt_(Tensor &a) { return a.sqrt_(); }
inline Tensor real(const Tensor &a) { return a; }
inline Tensor imag(const Tensor &a);
#define MT_F2(n)                                                       \
	inline Tensor n(const Tensor &a, const Tensor &b) { return a.n(b); } \
	inline Tensor n(const Tensor &a, const Scalar &b) { return a.n(b); }
MT_F2(mul) MT_F2(div) MT_F2(pow) MT_F2(fmod) MT_F2(remainder) MT_F2(eq) MT_F2(ne) MT_F2(lt) MT_F2(le) MT_F2(gt) MT_F2(ge) MT_F2(not_equal) MT_F2(less) MT_F2(less_equal) MT_F2(greater) MT_F2(greater_equal)
#undef MT_F2
Tensor pow(const Scalar &a, const Tensor &b);
inline Tensor &pow_(Tensor &a, const Tensor &b) { return a.pow_(b); }
inline Tensor &pow_(Tensor &a, const Scalar &b) { return a.pow_(b); }
inline Tensor add(const Tensor &a, const Tensor &b, const Scalar &al = 1) { return a.add(b, al); }
inline Tensor add(const Tensor &a, const Scalar &b, const Scalar &al = 1) { return a.add(b, al); }
inline Tensor sub(const Tensor &a, const Tensor &b, const Scalar &al = 1) { return a.sub(b, al); }
inline Tensor sub(const Tensor &a, const Scalar &b, const Scalar &al = 1) { return a.sub(b, al); }
inline Tensor matmul(const Tensor &a, const Tensor &b) { return a.matmul(b); }
inline Tensor mm(const Tensor &a, const Tensor &b) { return a.mm(b); }
inline Tensor bmm(const Tensor &a, const Tensor &b) { return a.bmm(b); }
inline Tensor dot(const Tensor &a, const Tensor &b) { return a.dot(b); }
inline Tensor logical_and(const Tensor &a, const Tensor &b) { return a.logical_and(b); }
inline Tensor logical_or(const Tensor &a, const Tensor &b) { return a.logical_or(b); }
inline Tensor addmm(const Tensor &c, const Tensor &a, const Tensor &b, const Scalar &beta = 1, const Scalar &alpha = 1) { return c.addmm(a, b, beta, alpha); }
inline Tensor baddbmm(const Tensor &c, const Tensor &a, const Tensor &b, const Scalar &beta = 1, const Scalar &alpha = 1) { return c.baddbmm(a, b, beta, alpha); }
inline Tensor permute(const Tensor &a, IntArrayRef d) { return a.permute(d); }
inline Tensor transpose(const Tensor &a, int64_t x, int64_t y) { return a.transpose(x, y); }
inline Tensor reshape(const Tensor &a, IntArrayRef d) { return a.reshape(d); }
inline Tensor squeeze(const Tensor &a, int64_t d) { return a.squeeze(d); }
inline Tensor unsqueeze(const Tensor &a, int64_t d) { return a.unsqueeze(d); }
inline Tensor sum(const Tensor &a, optional<ScalarType> = nullopt) { return a.sum(); }
inline Tensor sum(const Tensor &a, IntArrayRef d, bool k = false) { return a.sum(d, k); }
inline Tensor norm(const Tensor &a, const Scalar &p = 2) { return a.norm(p); }
inline Tensor diag(const Tensor &a, int64_t k = 0) { return a.diag(k); }
inline Tensor flip(const Tensor &a, IntArrayRef d) { return a.flip(d); }
inline Tensor flatten(const Tensor &a, int64_t s = 0, int64_t e = -1) { return a.flatten(s, e); }
inline Tensor cumsum(const Tensor &a, int64_t d) { return a.cumsum(d); }
inline std::tuple<Tensor, Tensor> sort(const Tensor &a, int64_t d = -1, bool desc = false) { return a.sort(d, desc); }
inline Tensor argsort(const Tensor &a, int64_t d = -1, bool desc = false) { return a.argsort(d, desc); }
#define MT_OP(op, n)                                                             \
	inline Tensor operator op(const Tensor &a, const Tensor &b) { return a.n(b); } \
	inline Tensor operator op(const Tensor &a, const Scalar &b) { return a.n(b); }
MT_OP(+, add) MT_OP(-, sub) MT_OP(*, mul) MT_OP(/, div) MT_OP(%, remainder) MT_OP(==, eq) MT_OP(!=, ne) MT_OP(<, lt) MT_OP(<=, le) MT_OP(>, gt) MT_OP(>=, ge)
#undef MT_OP
inline Tensor operator&(const Tensor &a, const Tensor &b) { return a.logical_and(b); }
inline Tensor operator|(const Tensor &a, const Tensor &b) { return a.logical_or(b); }
inline Tensor operator&&(const Tensor &a, const Tensor &b) { return a.logical_and(b); }
inline Tensor operator||(const Tensor &a, const Tensor &b) { return a.logical_or(b); }
inline Tensor operator+(const Scalar &a, const Tensor &b) { return b.add(a); }
inline Tensor operator*(const Scalar &a, const Tensor &b) { return b.mul(a); }
Tensor operator-(const Scalar &a, const Tensor &b);
Tensor operator/(const Scalar &a, const Tensor &b);
inline Tensor operator<(const Scalar &a, const Tensor &b) { return b.gt(a); }
inline Tensor operator>(const Scalar &a, const Tensor &b) { return b.lt(a); }
inline Tensor operator<=(const Scalar &a, const Tensor &b) { return b.ge(a); }
inline Tensor operator>=(const Scalar &a, const Tensor &b) { return b.le(a); }
std::ostream &operator<<(std::ostream &, const Tensor &);
std::ostream &print(std::ostream &, const Tensor &, int64_t linesize);
void print(const Tensor &, int64_t linesize = 80);
constexpr size_t dim_bitset_size = 64;
std::bitset<dim_bitset_size> dim_list_to_bitset(IntArrayRef dims, int64_t ndims);
int64_t maybe_wrap_dim(int64_t d, int64_t n, bool wrap_scalar = true);
inline void maybe_wrap_dims_n(int64_t *dims, int64_t n, int64_t rank)
{
	for (int64_t i = 0; i < n; i++) dims[i] = maybe_wrap_dim(dims[i], rank);
}
inline void maybe_wrap_dims(std::vector<int64_t> &d, int64_t rank) { maybe_wrap_dims_n(d.data(), (int64_t)d.size(), rank); }
namespace linalg_
{
}
constexpr auto kByte = ScalarType::Byte;
constexpr auto kChar = ScalarType::Char;
constexpr auto kShort = ScalarType::Short;
constexpr auto kInt = ScalarType::Int;
constexpr auto kLong = ScalarType::Long;
constexpr auto kHalf = ScalarType::Half;
constexpr auto kFloat = ScalarType::Float;
constexpr auto kDouble = ScalarType::Double;
constexpr auto kBool = ScalarType::Bool;
constexpr auto kFloat32 = ScalarType::Float;
constexpr auto kFloat64 = ScalarType::Double;
constexpr auto kInt8 = ScalarType::Char;
constexpr auto kUInt8 = ScalarType::Byte;
constexpr auto kInt16 = ScalarType::Short;
constexpr auto kInt32 = ScalarType::Int;
constexpr auto kInt64 = ScalarType::Long;
constexpr auto kComplexFloat = ScalarType::ComplexFloat;
constexpr auto kComplexDouble = ScalarType::ComplexDouble;
constexpr auto kBFloat16 = ScalarType::BFloat16;
inline void manual_seed(uint64_t) {}
} // namespace at
namespace at
{
namespace linalg
{
std::tuple<Tensor, Tensor> eigh(const Tensor &a, std::string uplo = "L");
std::tuple<Tensor, Tensor, Tensor> svd(const Tensor &a, bool full = true);
Tensor vector_norm(const Tensor &a, const Scalar &ord = 2, optional<IntArrayRef> = nullopt, bool keep = false, optional<ScalarType> = nullopt);
Tensor norm(const Tensor &a);
} // namespace linalg
} // namespace at
// harness hooks of the model
namespace minitorch
{
extern bool symbolic_random; // rand() gives unconstrained values in [0,1)
extern std::vector<std::tuple<at::Tensor, at::Tensor, at::Tensor>> svd_log;
extern int svd_calls, eigh_calls;
enum class decomposition { numeric, contract };
extern decomposition svd_mode;
extern bool contract_product, contract_ortho; // contract mode: a = u d v^T / orthonormal columns
extern bool concrete_spectrum; // contract mode: the singular values are k, k-1, .. 1
extern bool sorted_spectrum; // contract mode: assume d non increasing and non negative
} // namespace minitorch
namespace torch
{
using namespace at;
using at::Tensor;
using Dtype = at::ScalarType;
using caffe2::TypeMeta;
namespace linalg
{
using namespace at::linalg;
inline std::tuple<Tensor, Tensor> eigh(const Tensor &a) { return at::linalg::eigh(a, "L"); }
inline std::tuple<Tensor, Tensor> eigh(const Tensor &a, std::string u) { return at::linalg::eigh(a, u); }
} // namespace linalg
void set_default_dtype(caffe2::TypeMeta t);
caffe2::TypeMeta get_default_dtype();
inline TensorOptions dtype(ScalarType s) { return TensorOptions(s); }
inline TensorOptions dtype(caffe2::TypeMeta s) { return TensorOptions(s); }
inline TensorOptions device(Device d) { return TensorOptions(d); }
inline TensorOptions requires_grad(bool b = true) { return TensorOptions().requires_grad(optional<bool>(b)); }
namespace mt_detail
{
struct TensorData
{
	std::vector<int64_t> sizes;
	std::vector<double> v;
	ScalarType t = ScalarType::Undefined;
	template <class T, std::enable_if_t<std::is_arithmetic<T>::value, int> = 0>
	TensorData(T x) : v{(double)x}, t(CppTypeToScalarType<T>::value)
	{
	}
	TensorData(const Scalar &x) : v{x.raw()}, t(x.type()) {}
	template <class T, std::enable_if_t<std::is_arithmetic<T>::value, int> = 0>
	TensorData(const std::vector<T> &x) : sizes{(int64_t)x.size()}, v(x.begin(), x.end()), t(CppTypeToScalarType<T>::value)
	{
	}
	template <class T, std::enable_if_t<std::is_arithmetic<T>::value, int> = 0>
	TensorData(ArrayRef<T> x) : sizes{(int64_t)x.size()}, v(x.begin(), x.end()), t(CppTypeToScalarType<T>::value)
	{
	}
	TensorData(std::initializer_list<TensorData> l)
	{
		sizes.push_back((int64_t)l.size());
		for (auto &x : l)
		{
			if (&x == l.begin())
			{
				sizes.insert(sizes.end(), x.sizes.begin(), x.sizes.end());
				t = x.t;
			}
			v.insert(v.end(), x.v.begin(), x.v.end());
		}
	}
};
} // namespace mt_detail
Tensor mt_tensor(const mt_detail::TensorData &d, TensorOptions o);
inline Tensor tensor(mt_detail::TensorData d, TensorOptions o = {}) { return mt_tensor(d, o); }
inline Tensor from_blob(void *p, IntArrayRef s, TensorOptions o = {})
{
	Tensor r = at::empty(s, o);
	for (int64_t i = 0; i < r.numel(); i++) r.impl->st->d[i] = ((double *)p)[i];
	return r;
}
struct NoGradGuard
{
	NoGradGuard() {}
	~NoGradGuard() {}
};
struct AutoGradMode
{
	AutoGradMode(bool) {}
};
struct InferenceMode
{
	InferenceMode(bool = true) {}
};
struct cuda_ns
{
};
namespace cuda
{
inline bool is_available() { return false; }
inline size_t device_count() { return 0; }
} // namespace cuda
namespace autograd
{
using variable_list = std::vector<Tensor>;
}
template <typename F>
struct variadic_placeholder
{
};
// torch/csrc/utils/variadic.h
template <bool... bs>
struct mt_bool_pack
{
};
template <bool... bs>
using all_true = std::is_same<mt_bool_pack<bs..., true>, mt_bool_pack<true, bs...>>;
template <class... T>
using enable_if_all = std::enable_if_t<(T::value && ...)>;
template <typename... Values>
constexpr size_t pack_elems(Values...) { return sizeof...(Values); }
} // namespace torch
#define TORCH_CHECK(cond, ...)                                      \
	if (!(cond))                                                    \
	{                                                               \
		throw ::c10::Error(std::string());                          \
	}
#define TORCH_CHECK_INDEX TORCH_CHECK
#define TORCH_CHECK_VALUE TORCH_CHECK
#define TORCH_INTERNAL_ASSERT TORCH_CHECK
#define TORCH_INTERNAL_ASSERT_DEBUG_ONLY TORCH_CHECK
#define TORCH_WARN(...)
#define TORCH_WARN_ONCE(...)
#define AT_ASSERT TORCH_CHECK
#define AT_ASSERTM TORCH_CHECK
#define TORCH_API
#define C10_UNUSED
#define AT_ERROR(...) throw ::c10::Error(std::string())
