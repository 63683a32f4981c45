#include "hobj.hpp"
static const bool reg = [] {
	vh::add<cthash::sha3_224>("sha3_224");
	vh::add<cthash::sha3_256>("sha3_256");
	vh::add<cthash::sha3_384>("sha3_384");
	vh::add<cthash::sha3_512>("sha3_512");
	return true;
}();
