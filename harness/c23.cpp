#include "lib.h"
#include "after.h"
#include "manipulation/color_distance.h"
typedef color_distance D;
// The references are the published formulas. Where a formula ends in a root or divides by a term of its operands it is
// evaluated in the library's precision, so that close colors are compared closely as well.
static double sq(double x) { return x * x; }
static float sqf(float x) { return x * x; }
static float squares(color_base* a, color_base* b) { return sqf(C(a, 0) - C(b, 0)) + sqf(C(a, 1) - C(b, 1)) + sqf(C(a, 2) - C(b, 2)); }
// euclidean distances are the (root of the) sum of squared component differences in RGB or Luv
ENTRY(euclid, 4)
{
	rgbdef* d = SRGB(); bool luv = shard & 1, root = shard & 2; int t = luv ? T_LUV : T_DEEP;
	color_type space = luv ? color_type::CIELUV : TY[sym_choice("space", NT)];
	sym_assume(luv || space != color_type::CIELUV);
	color_base* a = any(t, "a", d); color_base* b = any(t, "b", d);
	double x = root ? D::euclidean_distance(a, b, space) : D::euclidean_distance_squared(a, b, space), y = 0;
	if (root) y = sqrtf(squares(a, b));
	else for (int i = 0; i < 3; ++i) y += sq((double)C(a, i) - C(b, i));
	chk_near(x, y, root ? 1e-5 * HI[t][2] : luv ? 0.05 : 2e-6, "formula");
	if (!luv) chk_near(root ? D::euclidean_distance(a, b) : D::euclidean_distance_squared(a, b), y, root ? 1e-5 : 2e-6, "default_space");
}
// www.compuphase.com/cmetric.htm, scaled to 0..1
ENTRY(weighted, 1)
{
	rgbdef* d = SRGB();
	color_base* a = any(T_DEEP, "a", d); color_base* b = any(T_DEEP, "b", d);
	double x = D::euclidean_distance_weighted(a, b), r = (C(a, 0) + (double)C(b, 0)) / 2 * 255;
	double y = (2 + r / 256) * sq((double)C(a, 0) - C(b, 0)) + 4 * sq((double)C(a, 1) - C(b, 1)) + (2 + (255 - r) / 256) * sq((double)C(a, 2) - C(b, 2));
	chk_near(x * x, y, 1e-5, "formula");
}
ENTRY(cie76, 1)
{
	rgbdef* d = SRGB();
	color_base* a = any(T_LAB, "a", d); color_base* b = any(T_LAB, "b", d);
	chk_near(D::cielab_delta_e_cie76(a, b), sqrtf(squares(a, b)), 1e-3, "formula");
}
static float chroma(color_base* a) { return sqrtf(C(a, 1) * C(a, 1) + C(a, 2) * C(a, 2)); }
// graphic arts, textiles and other application factors
static const float PAR[3][5] = { { 1.f, 0.045f, 0.015f, 1.f, 1.f }, { 2.f, 0.048f, 0.014f, 1.f, 1.f }, { 1.5f, 0.04f, 0.02f, 2.f, 0.5f } };
ENTRY(cie94, 3)
{
	rgbdef* d = SRGB(); const float* p = PAR[shard];
	color_base* a = any(T_LAB, "a", d); color_base* b = any(T_LAB, "b", d);
	double x = shard == 0 ? D::cielab_delta_e_cie94(a, b) : D::cielab_delta_e_cie94(a, b, p[0], p[1], p[2], p[3], p[4]);
	float c1 = chroma(a), c2 = chroma(b), dc = c1 - c2, dl = C(a, 0) - C(b, 0), da = C(a, 1) - C(b, 1), db = C(a, 2) - C(b, 2);
	float dh = sqrtf(fmaxf(da * da + db * db - dc * dc, 0.f));
	chk_near(x, sqrtf(sqf(dl / p[0]) + sqf(dc / (p[3] * (1.f + p[1] * c1))) + sqf(dh / (p[4] * (1.f + p[2] * c1)))), 1e-3, "formula");
}
// CMC l:c (1984)
ENTRY(cmc, 3)
{
	static const float P[3][2] = { { 2.f, 1.f }, { 1.f, 1.f }, { 1.5f, 2.f } };
	rgbdef* d = SRGB(); const float* p = P[shard];
	color_base* a = any(T_LAB, "a", d); color_base* b = any(T_LAB, "b", d);
	double x = shard == 0 ? D::cmc_delta_e_lc84(a, b) : D::cmc_delta_e_lc84(a, b, p[0], p[1]);
	float c1 = chroma(a), c2 = chroma(b), dc = c1 - c2, dl = C(a, 0) - C(b, 0), da = C(a, 1) - C(b, 1), db = C(a, 2) - C(b, 2), L = C(a, 0);
	float dh = sqrtf(fmaxf(da * da + db * db - dc * dc, 0.f));
	float h = std::atan2(C(a, 2), C(a, 1)) * (180.f / (float)M_PI);
	if (h < 0) h += 360.f;
	float c4 = powf(c1, 4.f);
	float f = sqrtf(c4 / (c4 + 1900.f)), t;
	static const float R = (float)M_PI / 180.f;
	int part = sym_choice("part", 3);	// hue below, in and above the middle section
	if (part == 0) sym_assume(h <= 163.999f); else if (part == 2) sym_assume(h >= 345.001f); else { sym_assume(h >= 164.001f); sym_assume(h <= 344.999f); }
	if (part == 1) t = 0.56f + fabsf(0.2f * cosf((h + 168.f) * R));
	else t = 0.36f + fabsf(0.4f * cosf((h + 35.f) * R));
	float sl = L < 16.f ? 0.511f : 0.040975f * L / (1.f + 0.01765f * L), sc = 0.0638f * c1 / (1.f + 0.0131f * c1) + 0.638f, sh = sc * (f * t + 1.f - f);
	chk_near(x, sqrtf(sqf(dl / (p[0] * sl)) + sqf(dc / (p[1] * sc)) + sqf(dh / sh)), 1e-3, "formula");
}
// the same for reference colors given as numbers, in every direction of the chromatic plane (hue weights are then known)
ENTRY(cmc_at, 6)
{
	static const float P[3][2] = { { 2.f, 1.f }, { 1.f, 1.f }, { 1.5f, 2.f } };
	static const float HUE[] = { 0, 5, 10, 15, 20, 25, 30, 35, 40, 45, 50, 55, 60, 65, 70, 75, 80, 85, 89, 90, 91, 95, 100, 105, 110, 115, 120, 125, 130, 135, 140, 145, 150, 155, 160, 163, 165, 170, 175, 179, 180, 181, 185, 190, 195,
		200, 205, 210, 215, 220, 225, 230, 235, 240, 245, 250, 255, 260, 265, 269, 270, 271, 275, 280, 285, 290, 295, 300, 305, 310, 315, 320, 325, 330, 335, 340, 344, 346, 350, 355, 359 };
	static const float LUM[] = { 5, 15, 17, 60 }, RAD[] = { 3, 8, 40, 90 };
	const int N = sizeof(HUE) / sizeof(HUE[0]);
	rgbdef* d = SRGB(); const float* p = P[shard % 3];
	int i = sym_choice("hue", N), k = sym_choice("light", 2) * 2 + (i + shard / 3) % 2; float L = LUM[k], rad = RAD[(i + k + shard / 3) % 4];
	float R = (float)M_PI / 180.f, ca = rad * cosf(HUE[i] * R), cb = rad * sinf(HUE[i] * R);
	color_base* a = new lab(L, ca, cb, 1.f, d); color_base* b = any(T_LAB, "b", d);
	double x = shard == 0 ? D::cmc_delta_e_lc84(a, b) : D::cmc_delta_e_lc84(a, b, p[0], p[1]);
	float c1 = chroma(a), c2 = chroma(b), dc = c1 - c2, dl = C(a, 0) - C(b, 0), da = C(a, 1) - C(b, 1), db = C(a, 2) - C(b, 2);
	float dh = sqrtf(fmaxf(da * da + db * db - dc * dc, 0.f)), h = std::atan2(cb, ca) * (180.f / (float)M_PI), c4 = powf(c1, 4.f), f = sqrtf(c4 / (c4 + 1900.f));
	if (h < 0) h += 360.f;
	float t = h > 164.f && h <= 345.f ? 0.56f + fabsf(0.2f * cosf((h + 168.f) * R)) : 0.36f + fabsf(0.4f * cosf((h + 35.f) * R));
	float sl = L < 16.f ? 0.511f : 0.040975f * L / (1.f + 0.01765f * L), sc = 0.0638f * c1 / (1.f + 0.0131f * c1) + 0.638f, sh = sc * (f * t + 1.f - f);
	chk_near(x, sqrtf(sqf(dl / (p[0] * sl)) + sqf(dc / (p[1] * sc)) + sqf(dh / sh)), 2e-3, "formula");
}
// operands changed in place since their last use
ENTRY(after_change, 21)
{
	int f = shard % 7, t = shard < 7 ? T_DEEP : shard < 14 ? T_LAB : T_LCHUV;
	after_change(t, t, false, [&](color_base* a, color_base* b) {
		switch (f) {
		case 0: return D::euclidean_distance(a, b);
		case 1: return D::euclidean_distance_squared(a, b, color_type::CIELUV);
		case 2: return D::euclidean_distance_weighted(a, b);
		case 3: return D::cielab_delta_e_cie76(a, b);
		case 4: return D::cielab_delta_e_cie94(a, b);
		case 5: return D::cmc_delta_e_lc84(a, b);
		default: return D::cielab_delta_e_cie94(a, b, 2.f, 0.048f, 0.014f);
		}
	});
}
