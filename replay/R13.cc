// R13/R14/R16: registries of a real engine under interleaved operations.
#include "registry.hpp"
void search(uint64_t seed)
{
	registry_run(seed, 3, false);	// warm up
	for (unsigned i = 0; i < 1500; i++) registry_run(seed * 10007 + i, 4 + i % 40, i % 2);
}
void witness(const Witness &w) { for (unsigned i = 0; i < 300; i++) registry_run(w.get("name", 1) + i, 20, i % 2); }
