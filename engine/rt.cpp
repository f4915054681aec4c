// Out-of-line pieces of the C++ runtime the interpreted code needs, as bitcode.
#include <bits/functexcept.h>
#include <cstring>
#include <exception>
#include <functional>
#include <ios>
#include <map>
#include <new>
#include <optional>
#include <stdexcept>
#include <string>
#include <typeinfo>
#include <variant>
namespace std
{
exception::~exception() noexcept {}
const char *exception::what() const noexcept { return "std::exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char *bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char *bad_array_new_length::what() const noexcept { return "bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char *bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {}
const char *bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_function_call::~bad_function_call() noexcept {}
const char *bad_function_call::what() const noexcept { return "bad_function_call"; }
#define EXC(T, B)                                            \
	T::T(const string &) : B() {}                            \
	T::T(const char *) : B() {}                              \
	T::~T() noexcept {}                                      \
	T::T(const T &o) noexcept : B(o) {}                      \
	T &T::operator=(const T &) noexcept { return *this; }    \
	T::T(T &&o) noexcept : B(o) {}                           \
	T &T::operator=(T &&) noexcept { return *this; }
#define EXC2(T, B)                                           \
	T::T(const string &s) : B(s) {}                          \
	T::T(const char *s) : B(s) {}                            \
	T::~T() noexcept {}
__cow_string::__cow_string() {}
__cow_string::__cow_string(const std::string &) {}
__cow_string::__cow_string(const char *, size_t) {}
__cow_string::__cow_string(const __cow_string &) noexcept {}
__cow_string &__cow_string::operator=(const __cow_string &) noexcept { return *this; }
__cow_string::~__cow_string() {}
__cow_string::__cow_string(__cow_string &&) noexcept {}
__cow_string &__cow_string::operator=(__cow_string &&) noexcept { return *this; }
EXC(logic_error, exception)
EXC(runtime_error, exception)
const char *logic_error::what() const noexcept { return "logic_error"; }
const char *runtime_error::what() const noexcept { return "runtime_error"; }
EXC2(domain_error, logic_error)
EXC2(invalid_argument, logic_error)
EXC2(length_error, logic_error)
EXC2(out_of_range, logic_error)
EXC2(range_error, runtime_error)
EXC2(overflow_error, runtime_error)
EXC2(underflow_error, runtime_error)
void __throw_bad_exception() { throw bad_exception(); }
bad_exception::~bad_exception() noexcept {}
const char *bad_exception::what() const noexcept { return "bad_exception"; }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_typeid() { throw bad_typeid(); }
void __throw_logic_error(const char *s) { throw logic_error(s); }
void __throw_domain_error(const char *s) { throw domain_error(s); }
void __throw_invalid_argument(const char *s) { throw invalid_argument(s); }
void __throw_length_error(const char *s) { throw length_error(s); }
void __throw_out_of_range(const char *s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char *s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char *s) { throw runtime_error(s); }
void __throw_range_error(const char *s) { throw range_error(s); }
void __throw_overflow_error(const char *s) { throw overflow_error(s); }
void __throw_underflow_error(const char *s) { throw underflow_error(s); }
void __throw_bad_function_call() { throw bad_function_call(); }
type_info::~type_info() {}
bool type_info::__is_pointer_p() const { return false; }
bool type_info::__is_function_p() const { return false; }
bool type_info::__do_catch(const type_info *, void **, unsigned) const { return false; }
bool type_info::__do_upcast(const __cxxabiv1::__class_type_info *, void **) const { return false; }
// red-black tree helpers (unbalanced: order is all that matters here)
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) throw()
{
	if (x->_M_right)
	{
		x = x->_M_right;
		while (x->_M_left) x = x->_M_left;
	}
	else
	{
		_Rb_tree_node_base *y = x->_M_parent;
		while (x == y->_M_right)
		{
			x = y;
			y = y->_M_parent;
		}
		if (x->_M_right != y) x = y;
	}
	return x;
}
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base *>(x)); }
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) throw()
{
	if (x->_M_color == _S_red && x->_M_parent->_M_parent == x)
		x = x->_M_right;
	else if (x->_M_left)
	{
		_Rb_tree_node_base *y = x->_M_left;
		while (y->_M_right) y = y->_M_right;
		x = y;
	}
	else
	{
		_Rb_tree_node_base *y = x->_M_parent;
		while (x == y->_M_left)
		{
			x = y;
			y = y->_M_parent;
		}
		x = y;
	}
	return x;
}
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base *>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &header) throw()
{
	x->_M_parent = p;
	x->_M_left = 0;
	x->_M_right = 0;
	x->_M_color = _S_black; // the header stays red
	if (left)
	{
		p->_M_left = x;
		if (p == &header)
		{
			header._M_parent = x;
			header._M_right = x;
		}
		else if (p == header._M_left)
			header._M_left = x;
	}
	else
	{
		p->_M_right = x;
		if (p == header._M_right) header._M_right = x;
	}
}
_Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const z, _Rb_tree_node_base &header) throw()
{
	_Rb_tree_node_base *&root = header._M_parent;
	_Rb_tree_node_base *y = z, *x = 0, *xp = 0;
	if (!y->_M_left) x = y->_M_right;
	else if (!y->_M_right) x = y->_M_left;
	else
	{
		y = y->_M_right;
		while (y->_M_left) y = y->_M_left;
		x = y->_M_right;
	}
	if (y != z)
	{
		z->_M_left->_M_parent = y;
		y->_M_left = z->_M_left;
		if (y != z->_M_right)
		{
			xp = y->_M_parent;
			if (x) x->_M_parent = y->_M_parent;
			y->_M_parent->_M_left = x;
			y->_M_right = z->_M_right;
			z->_M_right->_M_parent = y;
		}
		if (root == z) root = y;
		else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y;
		else z->_M_parent->_M_right = y;
		y->_M_parent = z->_M_parent;
	}
	else
	{
		xp = y->_M_parent;
		if (x) x->_M_parent = y->_M_parent;
		if (root == z) root = x;
		else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x;
		else z->_M_parent->_M_right = x;
		if (header._M_left == z)
		{
			if (!z->_M_right) header._M_left = z->_M_parent;
			else { _Rb_tree_node_base *m = x; while (m->_M_left) m = m->_M_left; header._M_left = m; }
		}
		if (header._M_right == z)
		{
			if (!z->_M_left) header._M_right = z->_M_parent;
			else { _Rb_tree_node_base *m = x; while (m->_M_right) m = m->_M_right; header._M_right = m; }
		}
	}
	(void)xp;
	return z;
}
} // namespace std
#include <list>
#include <unordered_map>
namespace std
{
namespace __detail
{
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const
{
	static const size_t p[] = {2, 5, 11, 23, 47, 97, 199, 409, 823, 1741, 3469, 6949, 14033};
	for (size_t x : p)
		if (x >= n)
		{
			_M_next_resize = x;
			return x;
		}
	return n | 1;
}
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t bkt, size_t elt, size_t ins) const
{
	if (elt + ins > bkt) return {true, _M_next_bkt(elt + ins > bkt * 2 ? elt + ins : bkt * 2)};
	return {false, 0};
}
void _List_node_base::_M_hook(_List_node_base *const p) noexcept
{
	_M_next = p;
	_M_prev = p->_M_prev;
	p->_M_prev->_M_next = this;
	p->_M_prev = this;
}
void _List_node_base::_M_unhook() noexcept
{
	_List_node_base *n = _M_next, *q = _M_prev;
	q->_M_next = n;
	n->_M_prev = q;
}
} // namespace __detail
size_t _Hash_bytes(const void *p, size_t n, size_t seed)
{
	const unsigned char *c = (const unsigned char *)p;
	for (size_t i = 0; i < n; i++) seed = seed * 131 + c[i];
	return seed;
}
} // namespace std
extern "C" void __cxa_bad_cast() { throw std::bad_cast(); }
extern "C" void __cxa_bad_typeid() { throw std::bad_typeid(); }
extern "C" void __cxa_throw_bad_array_new_length() { throw std::bad_array_new_length(); }
