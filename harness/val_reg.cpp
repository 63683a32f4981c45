// -DVERIF_GROUP=n selects the types of this unit
#include "valdrv.hpp"
namespace {
struct own_tag { static constexpr size_t digest_length = 11; using encoding = cthash::encoding::base32; };
struct own_tag2 { static constexpr size_t digest_length = 5; using encoding = cthash::encoding::base64; };
}
static const bool reg = [] {
	using namespace vv;
#if VERIF_GROUP == 0
	add<cthash::hash_value<1>>("hash_value<1>"); add<cthash::hash_value<2>>("hash_value<2>"); add<cthash::hash_value<3>>("hash_value<3>");
#elif VERIF_GROUP == 1
	add<cthash::hash_value<5>>("hash_value<5>"); add<cthash::hash_value<8>>("hash_value<8>"); add<cthash::hash_value<32>>("hash_value<32>");
#elif VERIF_GROUP == 2
	add<cthash::hash_value<20>>("hash_value<20>"); add<cthash::hash_value<64>>("hash_value<64>"); add<cthash::xxhash32_value>("xxhash32_value");
#elif VERIF_GROUP == 3
	add<cthash::sha224_value>("sha224_value"); add<cthash::sha256_value>("sha256_value"); add<cthash::xxhash64_value>("xxhash64_value");
#elif VERIF_GROUP == 4
	add<cthash::sha384_value>("sha384_value"); add<cthash::sha512_value>("sha512_value"); add<cthash::sha512t_value<56>>("sha512t_value<56>");
#elif VERIF_GROUP == 5
	add<cthash::sha3_224_value>("sha3_224_value"); add<cthash::sha3_256_value>("sha3_256_value"); add<cthash::shake128_value<8>>("shake128_value<8>");
#elif VERIF_GROUP == 6
	add<cthash::sha3_384_value>("sha3_384_value"); add<cthash::sha3_512_value>("sha3_512_value"); add<cthash::shake128_value<256>>("shake128_value<256>");
#elif VERIF_GROUP == 8
	add<cthash::hash_value<7>>("hash_value<7>"); add<cthash::hash_value<16>>("hash_value<16>"); add<cthash::hash_value<21>>("hash_value<21>"); add<cthash::hash_value<9>>("hash_value<9>");
#elif VERIF_GROUP == 9
	add<cthash::hash_value<17>>("hash_value<17>"); add<cthash::hash_value<33>>("hash_value<33>"); add<cthash::hash_value<12>>("hash_value<12>");
#elif VERIF_GROUP == 10
	add<cthash::hash_value<40>>("hash_value<40>"); add<cthash::hash_value<65>>("hash_value<65>");
#elif VERIF_GROUP == 11
	add<cthash::hash_value<257>>("hash_value<257>");
#elif VERIF_GROUP == 12
	add<cthash::shake128_value<2064>>("shake128_value<2064>");
#else
	add<cthash::shake256_value<64>>("shake256_value<64>"); add<cthash::tagged_hash_value<own_tag>>("own_tag_value", "base32"); add<cthash::tagged_hash_value<own_tag2>>("own_tag2_value", "base64"); add<cthash::sha512t_value<256>>("sha512t_value<256>");
#endif
	return true;
}();
