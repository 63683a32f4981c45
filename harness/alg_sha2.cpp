#include "hobj.hpp"
static const bool reg = [] {
	vh::add<cthash::sha224>("sha224");
	vh::add<cthash::sha256>("sha256");
	vh::add<cthash::sha384>("sha384");
	vh::add<cthash::sha512>("sha512");
	return true;
}();
