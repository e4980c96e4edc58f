#include "lib.h"
#include "after.h"
static const int ND = 8;
static rgbdef* make(int i)
{
	rgb_color_space_definition_presets p;
	switch (i) {
	case 0: return p.sRGB(); case 1: return p.adobeRGB(); case 2: return p.pal_secam(); case 3: return p.appleRGB();
	case 4: return p.uhdtv(); case 5: return p.ProPhotoRGB(); case 6: return p.cieRGB(); default: return p.SMPTE_C_RGB();
	}
}
static bool junction(int i) { return i == 0 || i == 4; }	// curves with a linear part near 0
static void parts(rgbdef* d, double* m, double* n)
{
	matrix<float> M = d->get_transform_matrix(), N = d->get_inverse_transform_matrix();
	for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { m[3 * i + j] = M(i, j); n[3 * i + j] = N(i, j); }
}
ENTRY(forward, ND)
{
	rgbdef* d = make(shard); double m[9], n[9]; parts(d, m, n);
	color_base* c = any(T_DEEP, "c", d);
	color_base* r = CC::to_xyz(c);
	chk(r->get_color_type() == color_type::XYZ && r->get_rgb_color_space() == d, "type");
	double lin[3]; for (int i = 0; i < 3; ++i) lin[i] = d->get_gamma_curve()->inverse_gamma_correction(C(c, i));
	for (int i = 0; i < 3; ++i) chk_near(C(r, i), m[3 * i] * lin[0] + m[3 * i + 1] * lin[1] + m[3 * i + 2] * lin[2], 1e-5, "xyz");
}
static double cl(double x) { return x < 0 ? 0 : x > 1 ? 1 : x; }
// the companded value: decoding it gives the clamped linear value
ENTRY(backward, ND)
{
	rgbdef* d = make(shard); double m[9], n[9]; parts(d, m, n);
	float v[3]; for (int i = 0; i < 3; ++i) v[i] = sym_f32(nm("v", CN[i]), 0, 1.25f);
	xyz c(v[0], v[1], v[2], 1, d);
	color_base* r = CC::to_rgb_deep(&c);
	chk(r->get_color_type() == color_type::RGB_DEEP && r->get_rgb_color_space() == d, "type");
	int i = sym_choice("i", 3);
	{
		double l = n[3 * i] * v[0] + n[3 * i + 1] * v[1] + n[3 * i + 2] * v[2];
		// decoding the result gives the clamped linear value
		float g = C(r, i);
		if (g > 0.15f) chk_near(d->get_gamma_curve()->inverse_gamma_correction(g), cl(l), 2e-4, "rgb");
		else chk_near(d->get_gamma_curve()->inverse_gamma_correction(g), cl(l), 1e-3, "rgb.dark");
	}
}
ENTRY(far, 1)	// XYZ far outside the gamut saturates
{
	rgbdef* d = SRGB(); double m[9], n[9]; parts(d, m, n);
	float v[3]; for (int i = 0; i < 3; ++i) v[i] = sym_f32(nm("v", CN[i]), 0, 100);
	xyz c(v[0], v[1], v[2], 1, d);
	color_base* r = CC::to_rgb_deep(&c);
	int i = sym_choice("i", 3);
	{
		double l = n[3 * i] * v[0] + n[3 * i + 1] * v[1] + n[3 * i + 2] * v[2];
		if (l > 1.001) chk_near(C(r, i), 1, 2e-3, "high");
		else if (l < -0.001) chk_near(C(r, i), 0, 2e-3, "low");
	}
}
ENTRY(special, ND)
{
	rgbdef* d = make(shard); white_point* w = d->get_white_point();
	double W[3] = { w->get_tristimulus_x(), w->get_tristimulus_y(), w->get_tristimulus_z() };
	float a = sym_f32("a", 0, 1);
	rgb_deepcolor white(1, 1, 1, a, d), black(0, 0, 0, a, d);
	color_base *x = CC::to_xyz(&white), *y = CC::to_xyz(&black);
	for (int i = 0; i < 3; ++i) { chk_near(C(x, i), W[i], 1e-4, "white"); chk_near(C(y, i), 0, 1e-6, "black"); }
	chk(x->alpha() == a && y->alpha() == a, "alpha");
	xyz wx((float)W[0], (float)W[1], (float)W[2], a, d), bx(0, 0, 0, a, d);
	color_base *p = CC::to_rgb_deep(&wx), *q = CC::to_rgb_deep(&bx);
	for (int i = 0; i < 3; ++i) { chk_near(C(p, i), 1, 1e-4, "white_back"); chk_near(C(q, i), 0, 1e-4, "black_back"); }
}
// greys keep the chromaticity of the white point
ENTRY(grey, ND)
{
	rgbdef* d = make(shard); white_point* w = d->get_white_point();
	double W[3] = { w->get_tristimulus_x(), w->get_tristimulus_y(), w->get_tristimulus_z() };
	float g = sym_f32("g", 0, 1);
	rgb_deepcolor c(g, g, g, 1, d);
	color_base* x = CC::to_xyz(&c);
	double l = d->get_gamma_curve()->inverse_gamma_correction(g);
	for (int i = 0; i < 3; ++i) chk_near(C(x, i), W[i] * l, 1e-4, "grey");
}
ENTRY(round, ND)
{
	rgbdef* d = make(shard);
	float v[3]; for (int i = 0; i < 3; ++i) v[i] = sym_f32(nm("v", CN[i]), 0, 1);
	rgb_deepcolor c(v[0], v[1], v[2], 1, d);
	color_base* r = CC::to_rgb_deep(CC::to_xyz(&c));
	for (int i = 0; i < 3; ++i)
	{
		if (junction(shard)) { chk_near(C(r, i), v[i], 1e-3, "rgb"); continue; }
		// compared after decoding: next to 0 a pure power curve is arbitrarily steep
		gamma* g = d->get_gamma_curve();
		if (C(r, i) > 0.1f) chk_near(g->inverse_gamma_correction(C(r, i)), g->inverse_gamma_correction(v[i]), 3e-4, "lin");
		else chk_near(g->inverse_gamma_correction(C(r, i)), g->inverse_gamma_correction(v[i]), 1e-3, "lin.dark");
	}
}
// other types of the RGB family go through RGB, also from XYZ
ENTRY(family, 8)
{
	static const int F[8] = { T_TRUE, T_GT, T_GD, T_CMYK, T_HSI, T_HSV, T_HSL, T_HCY };
	rgbdef* d = SRGB(); int t = F[shard];
	color_base* c = any(t, "c", d);
	color_base *p = CC::to_xyz(c), *q = CC::to_xyz(CC::to_rgb_deep(c));
	for (int i = 0; i < 3; ++i) chk_near(C(p, i), C(q, i), 1e-5, "to");
}
ENTRY(family_back, 8)
{
	static const int F[8] = { T_TRUE, T_GT, T_GD, T_CMYK, T_HSI, T_HSV, T_HSL, T_HCY };
	rgbdef* d = SRGB(); int t = F[shard];
	float v[3]; for (int i = 0; i < 3; ++i) v[i] = sym_f32(nm("v", CN[i]), 0, 1.25f);
	xyz c(v[0], v[1], v[2], 1, d);
	color_base *p = named(t, &c), *q = named(t, CC::to_rgb_deep(&c));
	for (int i = 0; i < NCOMP[t]; ++i) chk_near(C(p, i), C(q, i), i == 0 && t >= T_HSI && t <= T_HCY ? 1e-3 : is255(t) ? 1e-2 : 1e-5, "from");
}

// a space that was already used for conversions and is then given another white point or curve: conversions follow it
ENTRY(changed_space, 4)
{
	rgbdef* d = make(shard & 1 ? 1 : 0);
	rgb_deepcolor u(.4f, .6f, .3f, 1, d); color_base* x = CC::to_xyz(&u); CC::to_rgb_deep(x);
	d->get_transform_matrix(); d->get_inverse_transform_matrix();
	if (shard < 2) d->set_white_point(white_point_presets().A_2Degree()); else d->set_gamma_curve(gamma_presets().gamma1_8());
	double m[9], n[9]; parts(d, m, n);
	white_point* w = d->get_white_point();
	double W[3] = { w->get_tristimulus_x(), w->get_tristimulus_y(), w->get_tristimulus_z() };
	for (int i = 0; i < 3; ++i) {
		chk_near(m[3 * i] + m[3 * i + 1] + m[3 * i + 2], W[i], 1e-4, "white");
		for (int j = 0; j < 3; ++j) chk_near(m[3 * i] * n[j] + m[3 * i + 1] * n[3 + j] + m[3 * i + 2] * n[6 + j], i == j, 1e-4, "inverse");
	}
	color_base* c = any(T_DEEP, "c", d);
	color_base* r = CC::to_xyz(c);
	double lin[3]; for (int i = 0; i < 3; ++i) lin[i] = d->get_gamma_curve()->inverse_gamma_correction(C(c, i));
	for (int i = 0; i < 3; ++i) chk_near(C(r, i), m[3 * i] * lin[0] + m[3 * i + 1] * lin[1] + m[3 * i + 2] * lin[2], 1e-5, "xyz");
	color_base *q = CC::to_rgb_deep(x), *p = CC::to_rgb_deep(new xyz(C(x, 0), C(x, 1), C(x, 2), 1, d));
	for (int i = 0; i < 3; ++i) chk_same(C(q, i), C(p, i), "back");
	for (int i = 0; i < 3; ++i) {
		double l = n[3 * i] * C(x, 0) + n[3 * i + 1] * C(x, 1) + n[3 * i + 2] * C(x, 2);
		chk_near(d->get_gamma_curve()->inverse_gamma_correction(C(q, i)), cl(l), 1e-3, "back_linear");
	}
}
// operands changed in place since their last use
ENTRY(after_change, 2) { if (shard) changed_conversions(T_XYZ, T_DEEP, false); else changed_conversions(T_DEEP, T_XYZ, false); }
