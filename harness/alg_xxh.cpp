#include "hobj.hpp"
static const bool reg = [] {
	vh::add_seeded<cthash::xxhash32, uint32_t>("xxh32");
	vh::add_seeded<cthash::xxhash64, uint64_t>("xxh64");
	return true;
}();
