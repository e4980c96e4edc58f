#include "lib.h"
#include "after.h"
static const int ND = 6;	// built-in spaces, one with another illuminant, one with a white of another luminance
static rgbdef* make(int i)
{
	rgb_color_space_definition_presets p;
	switch (i) { case 0: return p.sRGB(); case 1: return p.ProPhotoRGB(); case 2: return p.oldNTSC(); case 3: return p.cieXYZ(); }
	rgbdef* d = p.sRGB(); d->set_white_point(i == 4 ? white_point_presets().A_2Degree() : new white_point(.71875f, .8125f, .875f));
	return d;
}
static double clamp(double v, double lo, double hi) { return v < lo ? lo : v > hi ? hi : v; }
static const double EPS = 216. / 24389, KAPPA = 24389. / 27;
static double f(float t) { return t > (float)EPS ? pow((double)t, 1 / 3.) : (KAPPA * t + 16) / 116; }
static color_base* sxyz(rgbdef* d, float hi = 1.1f) { float c[3]; for (int i = 0; i < 3; ++i) c[i] = sym_f32(nm("v", CN[i]), 0, hi); return build(T_XYZ, c, 1, d); }
static void typed(color_base* c, int t, rgbdef* d) { chk(c->get_color_type() == TY[t] && c->get_rgb_color_space() == d, "type"); }
static void white(rgbdef* d, float* w) { white_point* p = d->get_white_point(); w[0] = p->get_tristimulus_x(); w[1] = p->get_tristimulus_y(); w[2] = p->get_tristimulus_z(); }
// ---- xyY
ENTRY(xyy_of_xyz, ND)
{
	rgbdef* d = make(shard);
	color_base* c = sxyz(d, 100);
	float x = C(c, 0), y = C(c, 1), z = C(c, 2);
	sym_assume(x + y + z >= 1e-3f);
	color_base* r = CC::to_xyy(c); typed(r, T_XYY, d);
	double s = (double)x + y + z;
	chk_near(C(r, 0), x / s, 2e-6, "x"); chk_near(C(r, 1), y / s, 2e-6, "y"); chk_near(C(r, 2), y, 1e-6, "Y");
}
ENTRY(xyz_of_xyy, ND)
{
	rgbdef* d = make(shard);
	float x = sym_f32("x", 0, 1), y = sym_f32("y", 0.02f, 1), Y = sym_f32("Y", 0, 1.1f);
	sym_assume(1.f - x - y >= 0);
	xyy c(x, y, Y, 1, d);
	color_base* r = CC::to_xyz(&c); typed(r, T_XYZ, d);
	chk_near(C(r, 0), (double)x * Y / y, 1e-4, "X"); chk_near(C(r, 1), Y, 1e-6, "Y"); chk_near(C(r, 2), (1. - x - y) * Y / y, 1e-4, "Z");
}
// ever smaller y
ENTRY(xyz_of_xyy_low, 8)
{
	rgbdef* d = make(0); float hi = 0.02f;
	for (int i = 0; i < shard; ++i) hi /= 10;
	float x = sym_f32("x", 0, 1), y = sym_f32("y", hi / 10, hi), Y = sym_f32("Y", 0, hi);
	sym_assume(1.f - x - y >= 0);
	xyy c(x, y, Y, 1, d);
	color_base* r = CC::to_xyz(&c); typed(r, T_XYZ, d);
	chk_near(C(r, 0), (double)x * Y / y, 1e-4, "X"); chk_near(C(r, 1), Y, 1e-6 * hi, "Y"); chk_near(C(r, 2), (1. - x - y) * Y / y, 1e-4, "Z");
}
ENTRY(xyy_round, 1)
{
	rgbdef* d = make(shard);
	color_base* c = sxyz(d);
	sym_assume(C(c, 1) >= 0.02f);
	color_base* r = CC::to_xyz(CC::to_xyy(c)); typed(r, T_XYZ, d);
	for (int i = 0; i < 3; ++i) chk_near(C(r, i), C(c, i), 2e-4, CN[i]);
}
// ---- black
ENTRY(black, ND)
{
	rgbdef* d = make(shard); white_point* w = d->get_white_point();
	float a = sym_f32("a", 0, 1), p = sym_f32("p", 0, 1), q = sym_f32("q", 0, 1), m = sym_f32("m", -100, 100), n = sym_f32("n", -100, 100);
	xyz k(0, 0, 0, a, d);
	color_base *r = CC::to_xyy(&k), *l = CC::to_lab(&k), *u = CC::to_cieluv(&k);
	chk_near(C(r, 0), w->get_chromaticity_x(), 1e-6, "xyy"); chk_near(C(r, 1), w->get_chromaticity_y(), 1e-6, "xyy"); chk_near(C(r, 2), 0, 1e-6, "xyy");
	for (int i = 0; i < 3; ++i) { chk_near(C(l, i), 0, 1e-4, "lab"); chk_near(C(u, i), 0, 1e-4, "luv"); }
	chk(r->alpha() == a && l->alpha() == a && u->alpha() == a, "alpha");
	xyy b(p, 0, q, a, d); cieluv v(0, m, n, a, d);
	color_base *x = CC::to_xyz(&b), *y = CC::to_xyz(&v);
	for (int i = 0; i < 3; ++i) { chk_near(C(x, i), 0, 1e-6, "xyy_back"); chk_near(C(y, i), 0, 1e-6, "luv_back"); }
	chk(x->alpha() == a && y->alpha() == a, "alpha_back");
	// white is neutral
	float W[3]; white(d, W);
	xyz wh(W[0], W[1], W[2], a, d);
	color_base *wl = CC::to_lab(&wh), *wu = CC::to_cieluv(&wh), *wy = CC::to_xyy(&wh);
	for (int i = 0; i < 3; ++i) { chk_near(C(wl, i), i ? 0 : 100, 1e-3, "lab_white"); chk_near(C(wu, i), i ? 0 : 100, 1e-3, "luv_white"); }
	chk_near(C(wy, 0), w->get_chromaticity_x(), 4e-4, "xyy_white"); chk_near(C(wy, 1), w->get_chromaticity_y(), 4e-4, "xyy_white"); chk_near(C(wy, 2), W[1], 4e-4, "xyy_white");
}
// ---- Lab
ENTRY(lab_of_xyz, ND)
{
	rgbdef* d = make(shard); float w[3]; white(d, w);
	color_base* c = sxyz(d);
	color_base* r = CC::to_lab(c); typed(r, T_LAB, d);
	double F[3]; for (int i = 0; i < 3; ++i) F[i] = f(C(c, i) / w[i]);
	chk_near(C(r, 0), clamp(116 * F[1] - 16, 0, 100), 1e-3, "L");
	chk_near(C(r, 1), clamp(500 * (F[0] - F[1]), -128, 128), 4e-3, "a");
	chk_near(C(r, 2), clamp(200 * (F[1] - F[2]), -128, 128), 2e-3, "b");
}
static double finv(double t) { return t > 6. / 29 ? t * t * t : (116 * t - 16) / KAPPA; }
ENTRY(xyz_of_lab, ND)
{
	rgbdef* d = make(shard); float w[3]; white(d, w);
	float L = sym_f32("L", 0, 100), a = sym_f32("a", -128, 128), b = sym_f32("b", -128, 128);
	lab c(L, a, b, 1, d);
	color_base* r = CC::to_xyz(&c); typed(r, T_XYZ, d);
	double fy = (L + 16.) / 116, F[3] = { a / 500. + fy, fy, fy - b / 200. };
	for (int i = 0; i < 3; ++i) chk_near(C(r, i), clamp(w[i] * finv(F[i]), 0, 100), 1e-4, i == 0 ? "X" : i == 1 ? "Y" : "Z");
}
ENTRY(lab_round, ND)
{
	rgbdef* d = make(shard); float w[3]; white(d, w);
	color_base* c = sxyz(d);
	sym_assume(C(c, 1) <= 0.99f * w[1]);
	color_base* l = CC::to_lab(c);
	for (int i = 1; i < 3; ++i) { sym_assume(C(l, i) <= 127.9f); sym_assume(C(l, i) >= -127.9f); }
	color_base* r = CC::to_xyz(l); typed(r, T_XYZ, d);
	for (int i = 0; i < 3; ++i) chk_near(C(r, i), C(c, i), 2e-4, CN[i]);
}
// ---- Luv
static void ref_white(const float* w, double* u, double* v) { double s = (double)w[0] + 15. * w[1] + 3. * w[2]; *u = 4. * w[0] / s; *v = 9. * w[1] / s; }
ENTRY(luv_of_xyz, ND)
{
	rgbdef* d = make(shard); float w[3]; white(d, w);
	color_base* c = sxyz(d);
	float x = C(c, 0), y = C(c, 1), z = C(c, 2);
	sym_assume(x + 15.f * y + 3.f * z >= 0.01f);
	color_base* r = CC::to_cieluv(c); typed(r, T_LUV, d);
	double s = x + 15. * y + 3. * z, uw, vw; ref_white(w, &uw, &vw);
	float q = y / w[1];
	double L = q > 0.008856f ? 116 * pow((double)q, 1 / 3.) - 16 : KAPPA * q;
	chk_near(C(r, 0), clamp(L, 0, 100), 2e-3, "L");
	chk_near(C(r, 1), clamp(13 * L * (4. * x / s - uw), -100, 100), 6e-3, "u");
	chk_near(C(r, 2), clamp(13 * L * (9. * y / s - vw), -100, 100), 6e-3, "v");
}
ENTRY(xyz_of_luv, ND)
{
	rgbdef* d = make(shard); float w[3]; white(d, w);
	double uw, vw; ref_white(w, &uw, &vw);
	int k = sym_choice("k", 6);
	float top = 100.f / (1 << k);	// L in (top / 2, top], from 1.5625 on
	float L = sym_f32("L", top / 2, top), u = sym_f32("u", -100, 100), v = sym_f32("v", -100, 100);
	float s = w[0] + 15.f * w[1] + 3.f * w[2], fu = 4.f * w[0] / s, fv = 9.f * w[1] / s;
	float su = u + 13.f * L * fu, sv = v + 13.f * L * fv;
	// 0.077 <= u' <= 0.65 and 0.15 <= v' <= 0.65
	sym_assume(su >= 0.5f * top); sym_assume(sv >= 0.97f * top); sym_assume(su >= L); sym_assume(su <= 8.45f * L); sym_assume(sv >= 1.95f * L); sym_assume(sv <= 8.45f * L);
	cieluv c(L, u, v, 1, d);
	color_base* r = CC::to_xyz(&c); typed(r, T_XYZ, d);
	double t = (L + 16.) / 116, Y = L > 8.f ? t * t * t : L / KAPPA;
	double p = u / (13. * L) + uw, q = v / (13. * L) + vw;
	chk_near(C(r, 1), Y, 1e-5, "Y");
	chk_near(C(r, 0), clamp(Y * 9 * p / (4 * q), 0, 100), 2e-3, "X");
	chk_near(C(r, 2), clamp(Y * (12 - 3 * p - 20 * q) / (4 * q), 0, 100), 0.02 / (1 << k) + 1e-3, "Z");
}
ENTRY(luv_round, 3)
{
	rgbdef* d = make(0); float w[3]; white(d, w);
	color_base* c = sxyz(d, 1);
	float y = C(c, 1);
	sym_assume(y >= 0.02f); sym_assume(C(c, 0) >= 0.02f);
	color_base* l = CC::to_cieluv(c);
	for (int i = 1; i < 3; ++i) { sym_assume(C(l, i) <= 99.9f); sym_assume(C(l, i) >= -99.9f); }
	float L = C(l, 0), s = w[0] + 15.f * w[1] + 3.f * w[2], fu = 4.f * w[0] / s, fv = 9.f * w[1] / s;
	float su = C(l, 1) + 13.f * L * fu, sv = C(l, 2) + 13.f * L * fv;
	float top = 100.f / (1 << shard);
	sym_assume(L <= top); sym_assume(L >= top / 2);
	sym_assume(su >= top); sym_assume(sv >= 2 * top); sym_assume(su >= 2 * L); sym_assume(su <= 8.45f * L); sym_assume(sv >= 4 * L); sym_assume(sv <= 8.45f * L);
	color_base* r = CC::to_xyz(l); typed(r, T_XYZ, d);
	for (int i = 0; i < 3; ++i) chk_near(C(r, i), C(c, i), i == 2 ? 0.08 / (1 << shard) : 5e-3, CN[i]);
}
// ---- every other type goes through XYZ
ENTRY(family, NT)
{
	static const int TO[3] = { T_XYY, T_LUV, T_LAB };
	if (shard == T_XYZ) return;
	rgbdef* d = SRGB(); int t = TO[sym_choice("to", 3)];
	color_base* c = any(shard, "c", d);
	color_base *p = named(t, c), *q = named(t, CC::to_xyz(c));
	if (t != shard && !(shard == T_LCHAB && t == T_LAB) && !(shard == T_LCHUV && t == T_LUV)) for (int i = 0; i < 3; ++i) chk_near(C(p, i), C(q, i), 1e-3, "to");
	color_base *e = CC::to_rgb_deep(c), *g = CC::to_rgb_deep(CC::to_xyz(c));
	if (shard >= T_XYY) for (int i = 0; i < 3; ++i) chk_near(C(e, i), C(g, i), 1e-4, "rgb");
}
// operands changed in place since their last use
ENTRY(after_change, 6) { static const int T[3] = { T_XYY, T_LUV, T_LAB }; if (shard < 3) changed_conversions(T_XYZ, T[shard], false); else changed_conversions(T[shard - 3], T_XYZ, false); }
