// Stand-in for fmt: formatting has no effect on the properties checked, every
// formatted string is a placeholder (not empty: some checks report by a non empty message).
#pragma once
#include <iterator>
#include <ostream>
#include <sstream>
#include <stdexcept>
#include <string>
#include <string_view>
namespace fmt
{
struct format_error : std::runtime_error
{
	using std::runtime_error::runtime_error;
};
template <class Char>
struct basic_format_parse_context
{
	const Char *b = nullptr;
	constexpr const Char *begin() const { return b; }
	constexpr const Char *end() const { return b; }
	constexpr void advance_to(const Char *) {}
};
using format_parse_context = basic_format_parse_context<char>;
struct format_context
{
	using iterator = char *;
	using char_type = char;
	char *out() { return nullptr; }
	void advance_to(char *) {}
};
template <class T, class Char = char, class Enable = void>
struct formatter
{
	template <class C>
	constexpr auto parse(C &c) { return c.begin(); }
	template <class V, class C>
	auto format(const V &, C &c) const { return c.out(); }
};
struct ostream_formatter : formatter<std::string_view>
{
};
using string_view = std::string_view;
template <class... A>
using format_string = const char *;
template <class S>
const S &runtime(const S &s) { return s; }
template <class S, class... A>
inline std::string format(const S &, const A &...) { return "?"; }
template <class S, class... A>
inline void print(const S &, const A &...) {}
template <class S, class... A>
inline void print(std::ostream &, const S &, const A &...) {}
template <class O, class S, class... A>
inline O format_to(O o, const S &, const A &...) { return o; }
template <class T>
struct join_view
{
};
template <class R, class S>
inline join_view<R> join(const R &, const S &) { return {}; }
template <class I, class J, class S>
inline join_view<I> join(I, J, const S &) { return {}; }
template <class T>
inline std::string to_string(const T &) { return {}; }
template <class T>
const T &streamed(const T &t) { return t; }
template <class T>
const T *ptr(const T *p) { return p; }
} // namespace fmt
