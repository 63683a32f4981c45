// What the type checker permits between the digest types (-DVERIF_GROUP=n: rows n, n+8, ...).
#include <array>
#include <cstdio>
#include <concepts>
#include <optional>
#include <string>
#include <type_traits>
#include <utility>
#ifdef VERIF_SINGLE_HEADER
#include <cthash-single-header.hpp>
#else
#include <cthash/cthash.hpp>
#endif
template <typename V> struct named { using type = V; const char * alg; unsigned bits; };
#define TYPES(X) \
	X(sha224_value, "sha224", 224) X(sha256_value, "sha256", 256) X(sha384_value, "sha384", 384) X(sha512_value, "sha512", 512) \
	X(sha512t_value<224>, "sha512t", 224) X(sha512t_value<256>, "sha512t", 256) X(sha512t_value<32>, "sha512t", 32) X(sha512t_value<64>, "sha512t", 64) X(sha512t_value<8>, "sha512t", 8) X(sha512t_value<504>, "sha512t", 504) \
	X(sha3_224_value, "sha3_224", 224) X(sha3_256_value, "sha3_256", 256) X(sha3_384_value, "sha3_384", 384) X(sha3_512_value, "sha3_512", 512) \
	X(shake128_value<8>, "shake128", 8) X(shake128_value<32>, "shake128", 32) X(shake128_value<64>, "shake128", 64) X(shake128_value<224>, "shake128", 224) X(shake128_value<256>, "shake128", 256) X(shake128_value<512>, "shake128", 512) X(shake128_value<1024>, "shake128", 1024) \
	X(shake256_value<8>, "shake256", 8) X(shake256_value<32>, "shake256", 32) X(shake256_value<64>, "shake256", 64) X(shake256_value<224>, "shake256", 224) X(shake256_value<256>, "shake256", 256) X(shake256_value<512>, "shake256", 512) X(shake256_value<1024>, "shake256", 1024) \
	X(xxhash32_value, "xxh32", 32) X(xxhash64_value, "xxh64", 64)
template <typename B> void take(B);
template <typename B> void take_cref(const B &);
template <typename B> void take_ref(B &);
template <typename B> void take_move(B &&);
template <typename A, typename B> concept convertlist = requires(A a) { take<B>({a}); };
template <typename A, typename B> concept calllist = requires(A a) { take_cref<B>({a}); };
template <typename A, typename B> concept call = requires(A a) { take<B>(a); };
template <typename A, typename B> concept callconst = requires(const A a) { take_cref<B>(a); };
template <typename A, typename B> concept callref = requires(A a) { take_ref<B>(a); };
template <typename A, typename B> concept callmove = requires(A a) { take_move<B>(std::move(a)); };
template <typename A, typename B> concept common = requires { typename std::common_type<A, B>::type; };
template <auto V> struct holder { };
template <typename B, B V> struct typed_holder { };
template <typename A, typename B> concept nttp = requires { typename typed_holder<B, A{}>; };
template <typename A, typename B> concept assigns = requires(A a, B b) { b = a; };
void say(const char * way, const char * an, unsigned ab, const char * bn, unsigned bb, bool ok) { std::printf("P %s %s %u %s %u %d\n", way, an, ab, bn, bb, int(ok)); }
template <typename A, typename B> void cell(const char * an, unsigned ab, const char * bn, unsigned bb) {
	say("same", an, ab, bn, bb, std::is_same_v<A, B>);
	say("convert", an, ab, bn, bb, std::is_convertible_v<A, B>);
	say("convertlist", an, ab, bn, bb, convertlist<A, B>);
	say("assign", an, ab, bn, bb, assigns<A, B>);
	say("assignconst", an, ab, bn, bb, std::is_assignable_v<B &, const A &>);
	say("assignmove", an, ab, bn, bb, std::is_assignable_v<B &, A &&>);
	say("call", an, ab, bn, bb, call<A, B>);
	say("callconst", an, ab, bn, bb, callconst<A, B>);
	say("callref", an, ab, bn, bb, callref<A, B>);
	say("callmove", an, ab, bn, bb, callmove<A, B>);
	say("calllist", an, ab, bn, bb, calllist<A, B>);
	say("optional", an, ab, bn, bb, std::is_convertible_v<A, std::optional<B>>);
	say("common", an, ab, bn, bb, common<A, B>);
	say("pointer", an, ab, bn, bb, std::is_convertible_v<A *, const B *>);
	say("reference", an, ab, bn, bb, std::is_convertible_v<A &, B &> || (std::is_convertible_v<const A &, const B &>));
	say("nttp", an, ab, bn, bb, nttp<A, B>);
	say("return", an, ab, bn, bb, std::is_convertible_v<A &, B> || std::is_convertible_v<const A &, B>);
	say("pair", an, ab, bn, bb, std::is_convertible_v<std::pair<A, int>, std::pair<B, int>>);
}
template <typename A> void row(const char * an, unsigned ab) {
	using namespace cthash;
#define CELL(T, N, L) cell<A, T>(an, ab, N, L);
	TYPES(CELL)
}
// producers
template <typename V> void yields(const char * what, const char * an, unsigned ab, const V & v) {
	using namespace cthash;
	std::printf("Y %s %s %u %zu", what, an, ab, v.size() == sizeof(V) ? size_t(v.size()) : size_t(0));
#define SAME(T, N, L) if (std::is_same_v<V, T>) std::printf(" %s %u", N, unsigned(L));
	TYPES(SAME)
	std::printf("\n");
}
template <typename H, unsigned Bits> void makes(const char * what, const char * an, unsigned ab) {
	const char d[] = "abc";
	if constexpr (Bits == 0) {
		H h{};
		h.update("abc");
		yields(what, an, ab, h.final());
		yields((std::string(what) + "-chain").c_str(), an, ab, H{}.update("abc").final());
		yields((std::string(what) + "-simple").c_str(), an, ab, cthash::simple<H>("abc"));
		yields((std::string(what) + "-simple-span").c_str(), an, ab, cthash::simple<H>(std::span<const char>(d, 3)));
	} else {
		H h{};
		h.update("abc");
		yields(what, an, ab, h.template final<Bits>());
		yields((std::string(what) + "-chain").c_str(), an, ab, H{}.update("abc").template final<Bits>());
	}
}
#define H8 "00112233"
#define H32 H8 H8
#define H56 H8 H8 H8 H8 H8 H8 H8
#define H64 H8 H8 H8 H8 H8 H8 H8 H8
int main() {
	using namespace cthash;
	using namespace cthash::literals;
	constexpr int base = __COUNTER__ + 1;
#define ROWC(T, N, L) []<int I>(std::integral_constant<int, I>) { if constexpr (I % 8 == VERIF_GROUP) row<T>(N, L); }(std::integral_constant<int, __COUNTER__ - base>{});
	TYPES(ROWC)
#if VERIF_GROUP == 0
	makes<sha224, 0>("sha224", "sha224", 224); makes<sha256, 0>("sha256", "sha256", 256); makes<sha384, 0>("sha384", "sha384", 384); makes<sha512, 0>("sha512", "sha512", 512);
	makes<sha512t<224>, 0>("sha512t<224>", "sha512t", 224); makes<sha512t<256>, 0>("sha512t<256>", "sha512t", 256); makes<sha512t<32>, 0>("sha512t<32>", "sha512t", 32); makes<sha512t<64>, 0>("sha512t<64>", "sha512t", 64);
	makes<sha512t<8>, 0>("sha512t<8>", "sha512t", 8); makes<sha512t<504>, 0>("sha512t<504>", "sha512t", 504);
#elif VERIF_GROUP == 1
	makes<sha3_224, 0>("sha3_224", "sha3_224", 224); makes<sha3_256, 0>("sha3_256", "sha3_256", 256); makes<sha3_384, 0>("sha3_384", "sha3_384", 384); makes<sha3_512, 0>("sha3_512", "sha3_512", 512);
	makes<xxhash32, 0>("xxhash32", "xxh32", 32); makes<xxhash64, 0>("xxhash64", "xxh64", 64);
#elif VERIF_GROUP == 2
	makes<shake128, 8>("shake128<8>", "shake128", 8); makes<shake128, 32>("shake128<32>", "shake128", 32); makes<shake128, 64>("shake128<64>", "shake128", 64); makes<shake128, 256>("shake128<256>", "shake128", 256); makes<shake128, 1024>("shake128<1024>", "shake128", 1024);
	makes<shake256, 8>("shake256<8>", "shake256", 8); makes<shake256, 32>("shake256<32>", "shake256", 32); makes<shake256, 64>("shake256<64>", "shake256", 64); makes<shake256, 256>("shake256<256>", "shake256", 256); makes<shake256, 1024>("shake256<1024>", "shake256", 1024);
#elif VERIF_GROUP == 3
#define LIT(P, PN) \
	yields("_sha224" PN, "sha224", 224, P H56 ""_sha224); yields("_sha256" PN, "sha256", 256, P H64 ""_sha256); yields("_sha384" PN, "sha384", 384, P H64 H32 H8 H8 ""_sha384); yields("_sha512" PN, "sha512", 512, P H64 H64 ""_sha512); \
	yields("_sha512_224" PN, "sha512t", 224, P H56 ""_sha512_224); yields("_sha512_256" PN, "sha512t", 256, P H64 ""_sha512_256); \
	yields("_sha3_224" PN, "sha3_224", 224, P H56 ""_sha3_224); yields("_sha3_256" PN, "sha3_256", 256, P H64 ""_sha3_256); yields("_sha3_384" PN, "sha3_384", 384, P H64 H32 H8 H8 ""_sha3_384); yields("_sha3_512" PN, "sha3_512", 512, P H64 H64 ""_sha3_512); \
	yields("_shake128" PN, "shake128", 32, P H8 ""_shake128); yields("_shake128" PN, "shake128", 64, P H8 H8 ""_shake128); yields("_shake128" PN, "shake128", 256, P H64 ""_shake128); yields("_shake128" PN, "shake128", 8, P "ab"_shake128); \
	yields("_shake256" PN, "shake256", 32, P H8 ""_shake256); yields("_shake256" PN, "shake256", 64, P H8 H8 ""_shake256); yields("_shake256" PN, "shake256", 256, P H64 ""_shake256); yields("_shake256" PN, "shake256", 8, P "ab"_shake256); \
	yields("_xxh32" PN, "xxh32", 32, P H8 ""_xxh32); yields("_xxh64" PN, "xxh64", 64, P H8 H8 ""_xxh64);
	LIT("", "") LIT(u8"", "-u8") LIT(u"", "-u") LIT(U"", "-U") LIT(L"", "-L")
#endif
}
