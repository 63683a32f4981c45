#include "hobj.hpp"
// the values of t are chosen by the build: -DVERIF_T=8,16,...
template <unsigned... T> void add_all(std::integer_sequence<unsigned, T...>) {
	(vh::add<cthash::sha512t<T>>(("sha512t_" + std::to_string(T)).c_str()), ...);
}
static const bool reg = [] {
	add_all(std::integer_sequence<unsigned, VERIF_T>{});
	return true;
}();
