#include "lib.h"
#include "after.h"
#include <cmath>
static void rounds(float got, double want, const char* id)
{
	chk(got == floorf(got), nm(id, ".integer"));
	chk_near(got, want, 0.5 + 1e-4, id);
}
ENTRY(true_to_deep, 1)
{
	rgbdef* d = SRGB();
	color_base* a = any(T_TRUE, "a", d);
	color_base* r = CC::convertTo(a, color_type::RGB_DEEP);
	for (int i = 0; i < 3; ++i) chk_near(C(r, i), C(a, i) / 255.0, 3e-7, "scale");
	chk_near(r->alpha(), a->alpha() / 255.0, 3e-7, "scale_alpha");
	color_base* b = CC::convertTo(r, color_type::RGB_TRUE);
	for (int i = 0; i < 3; ++i) rounds(C(b, i), C(a, i), "back");
}
ENTRY(deep_to_true, 1)
{
	rgbdef* d = SRGB();
	color_base* a = any(T_DEEP, "a", d);
	color_base* r = CC::convertTo(a, color_type::RGB_TRUE);
	for (int i = 0; i < 3; ++i) rounds(C(r, i), C(a, i) * 255.0, "round");
	rounds(r->alpha(), a->alpha() * 255.0, "round_alpha");
	// and within half a step after returning
	color_base* b = CC::convertTo(r, color_type::RGB_DEEP);
	for (int i = 0; i < 3; ++i) chk_near(C(b, i), C(a, i), 0.501 / 255, "back");
}
// integer channels survive true -> deep -> true exactly
ENTRY(integers, 1)
{
	rgbdef* d = SRGB();
	int v[4];
	for (int i = 0; i < 4; ++i) v[i] = sym_int(nm("v", CN[i]), 0, 255);
	rgb_truecolor a((float)v[0], (float)v[1], (float)v[2], (float)v[3], d);
	color_base* r = CC::convertTo(&a, color_type::RGB_DEEP);
	color_base* b = CC::convertTo(r, color_type::RGB_TRUE);
	for (int i = 0; i < 3; ++i) chk_near(C(b, i), (double)v[i], 0, "identity");
	chk_near(b->alpha(), (double)v[3], 1e-4, "identity_alpha");
	grey_truecolor g((float)v[0], (float)v[3], d);
	color_base* gd = CC::convertTo(&g, color_type::GREY_DEEP);
	color_base* gt = CC::convertTo(gd, color_type::GREY_TRUE);
	chk_near(C(gt, 0), (double)v[0], 0, "identity_grey");
	color_base* rt = CC::convertTo(&g, color_type::RGB_TRUE);
	for (int i = 0; i < 3; ++i) chk_near(C(rt, i), (double)v[0], 0, "identity_grey_rgb");
}
ENTRY(greys, 1)
{
	rgbdef* d = SRGB();
	color_base* t = any(T_TRUE, "t", d);
	double mt = ((double)C(t, 0) + C(t, 1) + C(t, 2)) / 3;
	chk_near(C(CC::convertTo(t, color_type::GREY_TRUE), 0), mt, 1e-4, "true_grey_true");
	chk_near(C(CC::convertTo(t, color_type::GREY_DEEP), 0), mt / 255, 1e-6, "true_grey_deep");
	color_base* p = any(T_DEEP, "p", d);
	double mp = ((double)C(p, 0) + C(p, 1) + C(p, 2)) / 3;
	chk_near(C(CC::convertTo(p, color_type::GREY_DEEP), 0), mp, 1e-6, "deep_grey_deep");
	chk_near(C(CC::convertTo(p, color_type::GREY_TRUE), 0), mp * 255, 0.501, "deep_grey_true");
	color_base* g = any(T_GT, "g", d);
	color_base* q = any(T_GD, "q", d);
	color_base* x;
	x = CC::convertTo(g, color_type::RGB_TRUE); for (int i = 0; i < 3; ++i) chk_near(C(x, i), C(g, 0), 1e-4, "grey_true_rgb_true");
	x = CC::convertTo(g, color_type::RGB_DEEP); for (int i = 0; i < 3; ++i) chk_near(C(x, i), C(g, 0) / 255.0, 1e-6, "grey_true_rgb_deep");
	chk_near(C(CC::convertTo(g, color_type::GREY_DEEP), 0), C(g, 0) / 255.0, 1e-6, "grey_true_grey_deep");
	x = CC::convertTo(q, color_type::RGB_DEEP); for (int i = 0; i < 3; ++i) chk_near(C(x, i), C(q, 0), 1e-6, "grey_deep_rgb_deep");
	x = CC::convertTo(q, color_type::RGB_TRUE); for (int i = 0; i < 3; ++i) rounds(C(x, i), C(q, 0) * 255.0, "grey_deep_rgb_true");
	rounds(C(CC::convertTo(q, color_type::GREY_TRUE), 0), C(q, 0) * 255.0, "grey_deep_grey_true");
	// greys survive the other models that pass through RGB
	x = CC::convertTo(q, color_type::HSV); chk_near(C(x, 2), C(q, 0), 1e-6, "grey_hsv"); chk(C(x, 1) == 0, "grey_hsv_sat");
	x = CC::convertTo(q, color_type::HSL); chk_near(C(x, 2), C(q, 0), 1e-6, "grey_hsl"); chk(C(x, 1) == 0, "grey_hsl_sat");
	x = CC::convertTo(q, color_type::HSI); chk_near(C(x, 2), C(q, 0), 1e-6, "grey_hsi"); chk(C(x, 1) == 0, "grey_hsi_sat");
	x = CC::convertTo(q, color_type::HCY); chk_near(C(x, 2), C(q, 0), 1e-6, "grey_hcy"); chk(C(x, 1) == 0, "grey_hcy_sat");
}
// operands changed in place since their last use
ENTRY(after_change, 16) { static const int T[4] = { T_TRUE, T_DEEP, T_GT, T_GD }; if (shard / 4 != shard % 4) changed_conversions(T[shard / 4], T[shard % 4], true); }
