// Native implementation of the harness interface: replays one solver model.
#include "qsym.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <map>
#include <string>
static std::map<std::string, std::string> inputs;
static std::map<std::string, int> uses;
static int failures = 0;
static std::string key(const char *n)
{
	int k = uses[n]++;
	return k ? std::string(n) + "#" + std::to_string(k) : std::string(n);
}
static const std::string *get(const char *n)
{
	auto it = inputs.find(key(n));
	return it == inputs.end() ? nullptr : &it->second;
}
extern "C" {
int sym_int(const char *name, int lo, int hi)
{
	auto s = get(name);
	if (!s) return lo;
	return (int)std::stoll(*s);
}
int16_t sym_i16(const char *name)
{
	auto s = get(name);
	return s ? (int16_t)std::stoll(*s) : 0;
}
uint16_t sym_u16(const char *name)
{
	auto s = get(name);
	return s ? (uint16_t)std::stoll(*s) : 0;
}
int64_t sym_i64(const char *name)
{
	auto s = get(name);
	return s ? (int64_t)std::stoll(*s) : 0;
}
double sym_real(const char *name)
{
	auto s = get(name);
	return s ? std::stod(*s) : 0.;
}
int sym_choose(const char *name, int n) { return sym_int(name, 0, n - 1); }
int64_t sym_concretize(int64_t v) { return v; }
void sym_assume(bool c)
{
	if (!c)
	{
		printf("ASSUME-FAILED\n");
		fflush(stdout);
		_Exit(failures ? 1 : 3);
	}
}
void sym_assume_real(bool) {}
void sym_check(bool c, const char *id)
{
	if (!c)
	{
		failures++;
		printf("FAILED %s\n", id);
		fflush(stdout);
	}
}
void sym_fail(const char *id) { sym_check(false, id); }
void sym_same(double a, double b, const char *id)
{
	double scale = 1 + std::fabs(a) + std::fabs(b);
	if (!(std::fabs(a - b) <= 1e-6 * scale))
	{
		failures++;
		printf("FAILED %s (%.17g vs %.17g)\n", id, a, b);
		fflush(stdout);
	}
}
void sym_cover(const char *) {}
void sym_observe(const char *id, int64_t v)
{
	printf("OBS %s %lld\n", id, (long long)v);
	fflush(stdout);
}
bool sym_is_symbolic(double) { return false; }
bool sym_native() { return true; }
}
#include <dlfcn.h>
int main(int argc, char **argv)
{
	if (argc < 3)
	{
		fprintf(stderr, "usage: replay <entry> <inputfile> [args]\n");
		return 2;
	}
	std::ifstream f(argv[2]);
	std::string line; // name and value separated by a tab: names contain blanks
	while (std::getline(f, line))
	{
		auto p = line.find('\t');
		if (p != std::string::npos) inputs[line.substr(0, p)] = line.substr(p + 1);
	}
	int args[8] = {0};
	for (int i = 3; i < argc && i < 11; i++) args[i - 3] = atoi(argv[i]);
	try
	{
		auto fn = (void (*)(int, int, int, int))dlsym(RTLD_DEFAULT, argv[1]);
		if (!fn)
		{
			fprintf(stderr, "no entry %s\n", argv[1]);
			return 2;
		}
		fn(args[0], args[1], args[2], args[3]);
	}
	catch (std::exception &e)
	{
		printf("FAILED uncaught exception: %s\n", e.what());
		return 1;
	}
	catch (...)
	{
		printf("FAILED uncaught exception\n");
		return 1;
	}
	if (failures) return 1;
	printf("REPLAY-OK\n");
	return 0;
}
