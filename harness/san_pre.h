#pragma once
// Included first in every sanitised translation unit: container assertions on, except in <complex>, where
// std::polar's "rho >= 0" is a statement about values (a NaN reaches it on degenerate data), not about memory.
#include <complex>
#undef _GLIBCXX_ASSERTIONS
#define _GLIBCXX_ASSERTIONS 1
#undef __glibcxx_assert
namespace std { extern "C++" __attribute__((__noreturn__)) void __glibcxx_assert_fail(const char*, int, const char*, const char*) noexcept; }
#define __glibcxx_assert(cond) do { if (__builtin_expect(!bool(cond), false)) std::__glibcxx_assert_fail(__FILE__, __LINE__, __PRETTY_FUNCTION__, #cond); } while (false)
