#include "hobj.hpp"
// output lengths in bytes are chosen by the check (-DVERIF_N128=..., -DVERIF_N256=...)
#ifndef VERIF_N128
#define VERIF_N128 1,7,8,16,32,64
#endif
#ifndef VERIF_N256
#define VERIF_N256 1,7,8,16,32,64
#endif
#ifndef VERIF_SHAKE_TAG
#define VERIF_SHAKE_TAG ""
#endif
static const bool reg = [] {
#ifndef VERIF_NO_128
	vh::add_xof<cthash::shake128, VERIF_N128>("shake128" VERIF_SHAKE_TAG);
#endif
#ifndef VERIF_NO_256
	vh::add_xof<cthash::shake256, VERIF_N256>("shake256" VERIF_SHAKE_TAG);
#endif
	return true;
}();
