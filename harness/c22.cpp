#include "lib.h"
#include "after.h"
#include "manipulation/color_distance.h"
typedef color_distance D;
enum { SQ, EU, SQLUV, EULUV, WEIGHTED, D76, D94, DCMC, D00, NF };
// parameters: graphic arts or textiles for CIE94 / CIEDE2000, 2:1 or 1:1 for CMC
static float dist(int f, color_base* a, color_base* b, int par)
{
	switch (f) {
	case SQ: return D::euclidean_distance_squared(a, b, color_type::RGB_DEEP);
	case EU: return D::euclidean_distance(a, b, color_type::RGB_DEEP);
	case SQLUV: return D::euclidean_distance_squared(a, b, color_type::CIELUV);
	case EULUV: return D::euclidean_distance(a, b, color_type::CIELUV);
	case WEIGHTED: return D::euclidean_distance_weighted(a, b);
	case D76: return D::cielab_delta_e_cie76(a, b);
	case D94: return par ? D::cielab_delta_e_cie94(a, b, 2.f, 0.048f, 0.014f) : D::cielab_delta_e_cie94(a, b);
	case DCMC: return par ? D::cmc_delta_e_lc84(a, b, 1.f, 1.f) : D::cmc_delta_e_lc84(a, b);
	default: return par ? D::cielab_delta_e_cie00(a, b, 2.f, 0.048f, 0.014f) : D::cielab_delta_e_cie00(a, b);
	}
}
// the space a distance is calculated in
static int space(int f) { return f < SQLUV || f == WEIGHTED ? T_DEEP : f < WEIGHTED ? T_LUV : T_LAB; }
static int params(int f) { return f >= D94 ? sym_choice("params", 2) : 0; }
static color_base* copy(int t, color_base* a, rgbdef* d) { float c[4]; for (int i = 0; i < NCOMP[t]; ++i) c[i] = C(a, i); return build(t, c, a->alpha(), d); }
static color_base* fixed(int t, int k, float alpha, rgbdef* d)
{
	float c[4];
	for (int i = 0; i < NCOMP[t]; ++i) c[i] = LO[t][i] + (HI[t][i] - LO[t][i]) * (k == 0 ? 0.25f + 0.125f * i : k == 1 ? 0.75f - 0.1875f * i : i ? 0.3f : 0.01f);
	return build(t, c, alpha, d);
}
// finite and not negative (all pairs in the space of the calculation)
ENTRY(finite, 8)
{
	rgbdef* d = SRGB(); int f = shard, t = space(f);
	chk_range(dist(f, any(t, "a", d), any(t, "b", d), params(f)), 0, 1e6f, "finite");
}
// colors of any type are measured after conversion to that space, whichever side they are on
ENTRY(converted, 135)
{
	rgbdef* d = SRGB(); int f = shard / 15, t = shard % 15;
	color_base* a = any(t, "a", d); color_base* b = fixed(t, t % 3, 1, t & 1 ? rgb_color_space_definition_presets().adobeRGB() : d);
	bool swap = sym_choice("swap", 2);
	if (swap) { color_base* z = a; a = b; b = z; }
	float r = dist(f, a, b, 0);
	color_base* x = CC::convertTo(a, TY[space(f)]); color_base* y = CC::convertTo(b, TY[space(f)]);
	chk_same(r, dist(f, x, y, 0), "same_as_converted");
}
// equal colors have no distance, neither do two objects with the same components
ENTRY(equal, 8)
{
	rgbdef* d = SRGB(); int f = shard, t = space(f), p = params(f);
	color_base* a = any(t, "a", d);
	chk_near(dist(f, a, a, p), 0, 0, "identical");
	chk_near(dist(f, a, copy(t, a, d), p), 0, 0, "equal");
}
ENTRY(identical, 9)
{
	rgbdef* d = SRGB(); int f = shard, t = sym_choice("type", NT), p = params(f);
	color_base* a = any(t, "a", d);
	chk_near(dist(f, a, a, p), 0, 0, "identical");
}
// CIEDE2000: the hue of both colors decides the rotation term; boxes of the a/b plane that cover all hues but those around red
ENTRY(equal_00, 1)
{
	rgbdef* d = SRGB(); int p = params(D00), box = sym_choice("box", 15);
	color_base* a = any(T_LAB, "a", d);
	float u = C(a, 1), v = C(a, 2); bool red = false;
	if (box == 0) sym_assume(v <= -3.5f);
	else if (box == 1) { sym_assume(v >= 1e-10f); sym_assume(u <= -0.01f); }
	else if (box == 2) { sym_assume(v < 0); sym_assume(u <= -0.01f); }
	else if (box < 14) { float V = 128.f / (1 << (box - 2)); sym_assume(v >= V); sym_assume(v <= 2 * V); sym_assume(u <= 0.5f * V); sym_assume(u >= -0.01f); }
	else { red = true; sym_assume(u >= -0.01f); sym_assume(v > -3.5f); }
	chk_near(dist(D00, a, a, p), 0, 0, "identical");
	float r = dist(D00, a, copy(T_LAB, a, d), p);
	if (red) chk_near(r, 0, 0, "equal_red_hues"); else chk_near(r, 0, 0, "equal");
}
// CIEDE2000 of different colors: hues and chromas of a grid (mean hue at least 46 degrees), every lightness
ENTRY(light_00, 12)
{
	static const float CH[3] = { 4, 40, 120 };
	rgbdef* d = SRGB(); int h1 = 5 + 30 * shard, h2 = 8 + 30 * sym_choice("h2", 12), p = params(D00);
	float c1 = CH[sym_choice("c1", 3)], c2 = CH[sym_choice("c2", 3)], mean = (h1 + h2 + (std::abs(h1 - h2) > 180 ? 360 : 0)) / 2.f;
	if (mean < 60) return;	// the rotation term overflows (known finding F4)
	float r1 = h1 * 3.14159265f / 180, r2 = h2 * 3.14159265f / 180;
	lab a(sym_f32("L1", 0, 100), c1 * std::cos(r1), c1 * std::sin(r1), 1, d), b(sym_f32("L2", 0, 100), c2 * std::cos(r2), c2 * std::sin(r2), 1, d);
	float x = dist(D00, &a, &b, p);
	chk_range(x, 0, 1000, "finite");
	chk(x > 0, "different");
}
// CIEDE2000 in both orders: hue and chroma of the grid, every pair of lightnesses
ENTRY(symmetric_00, 12)
{
	static const float CH[3] = { 4, 40, 120 };
	rgbdef* d = SRGB(); int h1 = 5 + 30 * shard, h2 = 8 + 30 * sym_choice("h2", 12), p = params(D00);
	float c1 = CH[sym_choice("c1", 3)], c2 = CH[sym_choice("c2", 3)], mean = (h1 + h2 + (std::abs(h1 - h2) > 180 ? 360 : 0)) / 2.f;
	if (mean < 60) return;	// the rotation term overflows (known finding F4)
	float r1 = h1 * 3.14159265f / 180, r2 = h2 * 3.14159265f / 180, L1 = sym_f32("L1", 0, 100), L2 = sym_f32("L2", 0, 100);
	lab a(L1, c1 * std::cos(r1), c1 * std::sin(r1), 1, d), b(L2, c2 * std::cos(r2), c2 * std::sin(r2), 1, d);
	float x = dist(D00, &a, &b, p), y = dist(D00, &b, &a, p);
	chk_near((double)x * x, (double)y * y, 0.3, "symmetric");
}
// symmetric formulas
ENTRY(symmetric, 6)
{
	rgbdef* d = SRGB(); int f = shard, t = space(f);
	color_base* a = any(t, "a", d); color_base* b = any(t, "b", d);
	double x = dist(f, a, b, 0), y = dist(f, b, a, 0);
	if (f == WEIGHTED) chk_near(x * x, y * y, 1e-4, "symmetric");
	else chk_near(x, y, 1e-5 * (t == T_DEEP ? 1 : f == SQLUV ? 1e4 : 100), "symmetric");
}
// both operands stay as they are
ENTRY(operands, 135)
{
	rgbdef* d = SRGB(); int f = shard / 15, t = shard % 15;
	color_base* a = any(t, "a", d); color_base* b = fixed(t, t % 3, sym_f32("bA", 0, amax(t)), d);
	bool swap = t & 1;
	float x[4], y[4], xa = a->alpha(), ya = b->alpha();
	for (int i = 0; i < NCOMP[t]; ++i) { x[i] = C(a, i); y[i] = C(b, i); }
	dist(f, swap ? b : a, swap ? a : b, 0);
	for (int i = 0; i < NCOMP[t]; ++i) { chk_near(C(a, i), x[i], 0, "component"); chk_near(C(b, i), y[i], 0, "component"); }
	chk_near(a->alpha(), xa, 0, "alpha"); chk_near(b->alpha(), ya, 0, "alpha");
}
// operands changed in place since their last use
ENTRY(after_change, 27) { int f = shard / 3, t = shard % 3 == 0 ? T_DEEP : shard % 3 == 1 ? T_LAB : T_HSL, p = 0; after_change(t, t, false, [&](color_base* a, color_base* b) { return dist(f, a, b, p); }); }
