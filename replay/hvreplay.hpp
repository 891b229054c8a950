// Common part of the native replay harnesses: witness values and a seeded random source.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <string>
#include <map>
#include <vector>
#include <deque>
#include <set>
#include <sstream>
#include <iostream>
#include <functional>
#include <algorithm>
#include <unistd.h>
#include <pthread.h>
struct Witness {
	std::map<std::string, uint64_t> v;
	bool has(const std::string &k) const { return v.count(k); }
	uint64_t get(const std::string &k, uint64_t d = 0) const { auto i = v.find(k); return i == v.end() ? d : i->second; }
};
struct Rng {
	uint64_t s;
	Rng(uint64_t x) : s(x * 0x9E3779B97F4A7C15ull + 0x1234567) {}
	uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s; }
	uint64_t below(uint64_t n) { return n ? next() % n : 0; }
	bool chance(unsigned p) { return below(100) < p; }
	template <class T> T pick(std::initializer_list<T> l) { return *(l.begin() + below(l.size())); }
	template <class T> const T &pick(const std::vector<T> &l) { return l[below(l.size())]; }
};
#define FAIL(...) do { printf("FAILING: "); printf(__VA_ARGS__); printf("\n"); fflush(stdout); _exit(1); } while (0)
#define CHECK(c, ...) do { if (!(c)) { printf("FAILING (%s): ", #c); printf(__VA_ARGS__); printf("\n"); fflush(stdout); _exit(1); } } while (0)
void witness(const Witness &w);
void search(uint64_t seed);
#ifndef HV_NO_MAIN
int main(int argc, char **argv)
{
	setvbuf(stdout, 0, _IOLBF, 0);
	if (argc > 1 && !strcmp(argv[1], "--witness")) {
		Witness w;
		for (int i = 2; i < argc; i++) {
			const char *e = strchr(argv[i], '=');
			if (e) w.v[std::string(argv[i], e - argv[i])] = strtoull(e + 1, 0, 10);
		}
		witness(w);
	} else
		search(argc > 2 ? strtoull(argv[2], 0, 10) : 1);
	printf("no failure\n");
	fflush(stdout);
	_exit(0);
}
#endif
