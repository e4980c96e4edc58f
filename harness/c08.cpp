#include "lib.h"
#include "after.h"
// RGB -> model -> RGB over the whole cube; the models saturate hues above 359 at 359, which may move one channel by at most
// 1/60 of the chroma there
ENTRY(round_trip, 5)
{
	static const int M[5] = { T_CMYK, T_HSI, T_HSV, T_HSL, T_HCY };
	int t = M[shard];
	color_base* a = any(T_DEEP, "a", SRGB());
	double r = C(a, 0), g = C(a, 1), b = C(a, 2);
	double mx = r > g ? r : g; if (b > mx) mx = b;
	double mn = r < g ? r : g; if (b < mn) mn = b;
	if (t == T_CMYK || t == T_HSI || t == T_HSL) if (mx != 0) sym_assume(mx >= 0.01);
	if (t == T_HSL) if (mn != 1) sym_assume(mn <= 0.99);
	color_base* m = CC::convertTo(a, TY[t]);
	color_base* x = CC::convertTo(m, color_type::RGB_DEEP);
	bool hue_clamped = t != T_CMYK && C(m, 0) > 358.98f;
	for (int i = 0; i < 3; ++i) {
		if (!hue_clamped) chk_near(C(x, i), C(a, i), 2e-4, nm("rgb", CN[i]));
		else chk_near(C(x, i), C(a, i), 0.0176, nm("rgb_hue359", CN[i]));
	}
	chk_near(x->alpha(), a->alpha(), 1e-6, "alpha");
}
// the same for dark colors (CMYK down to a hundred-thousandth, HSL to a ten-thousandth) and light ones (HSL)
ENTRY(dark_round_trip, 6)
{
	static const int M[6] = { T_CMYK, T_CMYK, T_CMYK, T_HSL, T_HSL, T_HSL }; static const float TOP[6] = { 1e-2f, 1e-3f, 1e-4f, 1e-2f, 1e-3f, 1e-2f };
	bool light = shard == 5; int t = M[shard]; float hi = TOP[shard], v[3];
	for (int i = 0; i < 3; ++i) v[i] = light ? sym_f32(nm("a", CN[i]), 1.f - hi, 1) : sym_f32(nm("a", CN[i]), 0, hi);
	int k = sym_choice("extreme", 3);
	if (light) sym_assume(v[k] <= 1.f - hi / 10); else sym_assume(v[k] >= hi / 10);
	color_base* a = new rgb_deepcolor(v[0], v[1], v[2], 1, SRGB());
	color_base* m = CC::convertTo(a, TY[t]);
	color_base* x = CC::convertTo(m, color_type::RGB_DEEP);
	for (int i = 0; i < 3; ++i) chk_near(C(x, i), C(a, i), 0.02 * hi + 1e-6, nm("rgb", CN[i]));	// hues above 359 included
}
// operands changed in place since their last use
ENTRY(after_change, 5) { static const int T[5] = { T_HSV, T_HSL, T_HSI, T_HCY, T_CMYK }; changed_conversions(T_DEEP, T[shard], true); changed_conversions(T[shard], T_DEEP, false); }
