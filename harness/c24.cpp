#include "lib.h"
#include "after.h"
#include "manipulation/color_combinations.h"
typedef color_combinations K;
typedef std::vector<color_base*> colors;
// r is the hue e (in -360..1080) wrapped into 0..360 and saturated at 359
static void hue_is(double r, double e, const char* id)
{
	if (e < 0) e += 360; else if (e >= 720) e -= 720; else if (e >= 360) e -= 360;
	if (e <= 0.0005) { if (r <= 1) chk_near(r, e, 1e-3, id); else chk_near(r, 359, 1e-3, id); }	// rounding may fall on either side of 360
	else if (e >= 359.9995) { if (r >= 1) chk_near(r, 359, 1e-3, id); else chk_near(r, 0, 1e-3, id); }
	else if (e >= 359) chk_near(r, 359, 1e-3, id);
	else chk_near(r, e, 1e-3, id);
}
static void rest_is(color_base* r, color_base* a, double s, double l)
{
	chk(r->get_color_type() == a->get_color_type(), "type");
	chk_near(C(r, 1), s, 1e-6, "saturation"); chk_near(C(r, 2), l, 1e-6, "lightness");
	chk_near(r->alpha(), a->alpha(), 1e-6, "alpha");
	chk(r->get_rgb_color_space() == a->get_rgb_color_space(), "space");
	chk(r != a, "distinct");
}
// evenly spaced hues
static const int COUNT[14] = { 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 16, 24, 36 };
ENTRY(combination, 14)
{
	int n = COUNT[shard];
	color_base* a = any(T_HSL, "a", SRGB());
	colors v = K::create_combination(a, n);
	chk((int)v.size() == n, "count");
	chk(v[0] == a, "input_first");
	int i = 1 + sym_choice("index", n - 1);
	rest_is(v[i], a, C(a, 1), C(a, 2));
	hue_is(C(v[i], 0), C(a, 0) + i * (360. / n), "hue");
}
// as many colors as asked for, up to 360
ENTRY(count, 1)
{
	static const int N[6] = { 2, 50, 90, 180, 359, 360 }; int n = N[sym_choice("n", 6)];
	float c[3] = { sym_f32("h", 0, 0.5f), 0.5f, 0.25f };
	color_base* a = build(T_HSL, c, 1, SRGB());
	colors v = K::create_combination(a, n);
	chk((int)v.size() == n, "count");
	for (int k = 1; k < n; k += 40) chk_near(C(v[k], 0), k * (360. / n) + c[0] > 359 ? 359 : k * (360. / n) + c[0], 1e-3, "hue");
}
// the named combinations
ENTRY(named_sets, 1)
{
	color_base* a = any(T_HSL, "a", SRGB());
	int which = sym_choice("set", 4), n = which + 2;
	colors v = K::create_combination(a, n), w;
	if (which == 0) { w.push_back(a); w.push_back(K::create_complimentary(a)); }
	else w = which == 1 ? K::create_triplet(a) : which == 2 ? K::create_quartet(a) : K::create_quintet(a);
	chk((int)w.size() == n, "count"); chk(w[0] == a, "input_first");
	for (int k = 1; k < n; ++k) { chk_near(C(w[k], 0), C(v[k], 0), 0, "hue"); rest_is(w[k], a, C(a, 1), C(a, 2)); }
}
ENTRY(analogous, 2)
{
	color_base* a = any(T_HSL, "a", SRGB());
	float d = sym_f32("distance", 0, 120); sym_assume(d >= 1e-4f);
	colors v = K::create_analogous(a, d);
	chk(v.size() == 3, "count"); chk(v[1] == a, "input_second");
	int i = shard ? 2 : 0;
	rest_is(v[i], a, C(a, 1), C(a, 2));
	hue_is(C(v[i], 0), shard ? (double)C(a, 0) + d : (double)C(a, 0) - d, "hue");
}
ENTRY(split, 2)
{
	color_base* a = any(T_HSL, "a", SRGB());
	float d = sym_f32("distance", 0, 120); sym_assume(d >= 1e-4f);
	double h = C(K::create_complimentary(a), 0);
	colors v = K::create_complimentary_split(a, d);
	chk(v.size() == 3, "count"); chk(v[1] == a, "input_second");
	int i = shard ? 2 : 0;
	rest_is(v[i], a, C(a, 1), C(a, 2));
	hue_is(C(v[i], 0), shard ? h + d : h - d, "hue");
}
// each color scales saturation, lightness or both of the one before by 1 - amount
ENTRY(monochromatic, 3)
{
	color_base* a = any(T_HSL, "a", SRGB());
	int n = 1 + sym_choice("count", 5); float p = sym_f32("amount", 0, 1);
	colors v = K::create_monochromatic(a, shard, p, n);
	chk((int)v.size() == n, "count"); chk(v[0] == a, "input_first");
	for (int k = 1; k < n; ++k) {
		rest_is(v[k], a, shard == 1 ? C(a, 1) : C(v[k - 1], 1) * (1. - p), shard == 0 ? C(a, 2) : C(v[k - 1], 2) * (1. - p));
		chk_near(C(v[k], 0), C(a, 0), 0, "hue");
	}
}
// colors of the other types are combined in HSL and converted back
static void via_hsl(int t, color_base* r, color_base* x, color_base* a)
{
	color_base* y = CC::convertTo(x, TY[t]);
	chk(r->get_color_type() == TY[t], "type"); chk(r != a, "distinct");
	for (int i = 0; i < NCOMP[t]; ++i) chk_near(C(r, i), C(y, i), 1e-6 * (HI[t][i] - LO[t][i]), "component");
	chk_near(r->alpha(), a->alpha(), is255(t) ? 0.501 : 1e-6, "alpha");	// whole numbers for the 0..255 types
	chk(r->get_rgb_color_space() == a->get_rgb_color_space(), "space");
}
static color_base* typical(int t, int k, rgbdef* d)
{
	// the way from XYZ based models to HSL and back takes too many paths for a free color
	float c[4]; bool all = t <= T_HCY;
	for (int i = 0; i < NCOMP[t]; ++i) c[i] = all ? sym_f32(nm("a", CN[i]), LO[t][i], HI[t][i]) : LO[t][i] + (HI[t][i] - LO[t][i]) * (k == 0 ? 0.3f + 0.15f * i : k == 1 ? 0.75f - 0.1875f * i : 0.2f + 0.25f * (i == 1));
	return build(t, c, sym_f32("aA", 0, amax(t)), d);
}
ENTRY(types, 45)
{
	int t = shard % 15, f = shard / 15; color_base* a = typical(t, t <= T_HCY ? 0 : sym_choice("color", 3), SRGB()); color_base* x = CC::convertTo(a, color_type::HSL);
	float p = sym_f32("amount", 0.125f, 0.875f); int mode = f == 2 ? sym_choice("mode", 3) : 0;
	colors v = f == 0 ? K::create_combination(a, 3) : f == 1 ? K::create_analogous(a, p * 100) : K::create_monochromatic(a, mode, p, 2);
	colors w = f == 0 ? K::create_combination(x, 3) : f == 1 ? K::create_analogous(x, p * 100) : K::create_monochromatic(x, mode, p, 2);
	chk(v.size() == w.size(), "count");
	chk(v[f == 1 ? 1 : 0] == a, "input");
	via_hsl(t, v[f == 1 ? 0 : 1], w[f == 1 ? 0 : 1], a);
	if (f < 2) via_hsl(t, v[2], w[2], a);
}
// invalid arguments
ENTRY(rejected, 1)
{
	int t = sym_choice("type", NT); float c[4] = { 0.5f, 0.25f, 0.125f, 0.375f }; color_base* a = build(t, c, 1, SRGB());
	int which = sym_choice("which", 9), n = sym_int("n", -1000000, 1000000), mode = sym_choice("mode", 3); float d = sym_f32_any("d");
	switch (which) {
	case 0: sym_assume(n < 2); chk(throws([&] { K::create_combination(a, n); }) == 1, "count"); break;
	case 1: sym_assume(n > 360); chk(throws([&] { K::create_combination(a, n); }) == 1, "count"); break;
	case 2: sym_assume(d > 120); chk(throws([&] { K::create_analogous(a, d); }) == 1, "distance"); break;
	case 3: chk(throws([&] { K::create_analogous(a, 0.f); }) == 1, "distance"); break;
	case 4: sym_assume(d < 0); chk(throws([&] { K::create_monochromatic(a, mode, d, 3); }) == 1, "amount"); break;
	case 5: sym_assume(d > 1); chk(throws([&] { K::create_monochromatic(a, mode, d, 3); }) == 1, "amount"); break;
	case 6: sym_assume(n < 1); chk(throws([&] { K::create_monochromatic(a, mode, 0.5f, n); }) == 1, "count"); break;
	case 7: sym_assume(n < 0); chk(throws([&] { K::create_monochromatic(a, n, 0.5f, 2); }) == 1, "mode"); break;
	default: sym_assume(n > 2); chk(throws([&] { K::create_monochromatic(a, n, 0.5f, 2); }) == 1, "mode");
	}
}
// all members of sets of other sizes
static const int MORE[20] = { 13, 14, 15, 17, 18, 19, 20, 25, 30, 40, 45, 60, 72, 100, 120, 200, 250, 300, 359, 360 };
ENTRY(sizes, 20)
{
	int n = MORE[shard]; float c[3] = { sym_f32("h", 0.25f, 0.5f), sym_f32("s", 0, 1), sym_f32("l", 0, 1) };
	color_base* a = build(T_HSL, c, sym_f32("A", 0, 1), SRGB());
	colors v = K::create_combination(a, n);
	chk((int)v.size() == n, "count");
	for (int k = 1; k < n; ++k) {
		double e = k * (360. / n) + c[0];
		if (e > 358.99) chk_near(C(v[k], 0), 359, 0.011, "hue"); else chk_near(C(v[k], 0), e, 1e-3, "hue");
		chk_near(C(v[k], 1), C(a, 1), 1e-6, "saturation"); chk_near(C(v[k], 2), C(a, 2), 1e-6, "lightness"); chk_near(v[k]->alpha(), a->alpha(), 1e-6, "alpha");
	}
}
ENTRY(monochromatic_many, 6)
{
	static const int N[2] = { 9, 24 }; int mode = shard % 3, n = N[shard / 3];
	float c[3] = { 40.5f, sym_f32("s", 0, 1), sym_f32("l", 0, 1) };
	color_base* a = build(T_HSL, c, sym_f32("A", 0, 1), SRGB()); static const float P[3] = { 0.1f, 0.3f, 0.55f }; float p = P[sym_choice("amount", 3)];
	colors v = K::create_monochromatic(a, mode, p, n);
	chk((int)v.size() == n, "count"); chk(v[0] == a, "input_first");
	for (int k = 1; k < n; ++k) {
		rest_is(v[k], a, mode == 1 ? C(a, 1) : C(v[k - 1], 1) * (1. - p), mode == 0 ? C(a, 2) : C(v[k - 1], 2) * (1. - p));
		chk_near(C(v[k], 0), C(a, 0), 0, "hue");
	}
}
// operands changed in place since their last use
ENTRY(after_change, 9)
{
	int t = shard == 8 ? T_TRUE : T_HSL;
	after_change(t, t == T_HSL && shard, [&](color_base* a) -> colors {
		switch (shard) {
		case 1: return colors{ a, K::create_complimentary(a) };
		case 2: return K::create_triplet(a);
		case 3: return K::create_quartet(a);
		case 4: return K::create_quintet(a);
		case 5: return K::create_combination(a, 5);
		case 6: return K::create_analogous(a, 20);
		case 7: return K::create_complimentary_split(a, 20);
		default: return K::create_monochromatic(a, 0, 0.25f, 3);
		}
	});
}
