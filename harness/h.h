// common helpers of the harnesses
#pragma once
#include "qsym.h"
#include <exception>
#include <utility>
#define ENTRY(n) extern "C" void n(int a0, int a1, int a2, int a3)
#define UNUSED_ARGS (void)a0, (void)a1, (void)a2, (void)a3
template <class F>
bool throws(F f)
{
	try
	{
		f();
	}
	catch (std::exception &)
	{
		return true;
	}
	return false;
}
