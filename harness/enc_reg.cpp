// one encoding: -DVERIF_ENC=base64 -DVERIF_ENCNAME='"base64"'
#include "encdrv.hpp"
static const bool reg = [] {
	ve::registry()[VERIF_ENCNAME] = [](int form, int chart, bool cnst, const ve::bytes & b) { return ve::make_any<cthash::encoding::VERIF_ENC>(form, chart, cnst, b); };
	ve::sizes()[VERIF_ENCNAME] = ve::size_of<cthash::encoding::VERIF_ENC>;
	return true;
}();
