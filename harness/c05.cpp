#include "lib.h"
// every ordered pair of types, every in-range color and alpha
ENTRY(convert, NT * NT)
{
	int s = shard / NT, t = shard % NT;
	rgbdef* d = SRGB();
	color_base* a = any(s, "a", d);
	float al = a->alpha() / amax(s);
	color_base* r = CC::convertTo(a, TY[t]);
	chk(r != nullptr, "non_null");
	if (!r) return;
	in_range(r, t, "r");
	chk_near(r->alpha() / amax(t), al, is255(t) ? 0.0021 : 1e-5, "alpha");
	chk(r->get_rgb_color_space() == d, "space");
}
// without an attached definition: the RGB family does not need one
ENTRY(convert_default, 9)
{
	int t = sym_choice("target", 9);
	color_base* a = any(shard, "a", nullptr);
	color_base* r = CC::convertTo(a, TY[t]);
	chk(r != nullptr, "default_non_null");
	if (!r) return;
	in_range(r, t, "def");
	chk(r->get_rgb_color_space() == nullptr, "default_space");
	chk_near(r->alpha() / amax(t), a->alpha() / amax(shard), is255(t) ? 0.0021 : 1e-5, "default_alpha");
}
