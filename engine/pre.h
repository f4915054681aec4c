// forced include of every bitcode compilation: instantiate the standard
// library templates in the bitcode rather than expect them in libstdc++.so
#pragma once
#ifdef __cplusplus
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include <cmath>
#include <chrono>
#include <limits>
#include <cstddef>
#include <cstdint>
#include <vector>
#include <string>
using std::size_t;
#endif
