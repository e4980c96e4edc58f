#include "lib.h"
#include "after.h"
#include "manipulation/chromatic_adaptation.h"
typedef chromatic_adaptation K;
// published cone matrices (von Kries: Hunt-Pointer-Estevez for D65; sharp: Finlayson/Susstrunk; CMCCAT97 uses Bradford's)
static const double VK[9] = { .40024, .7076, -.08081, -.2263, 1.16532, .0457, 0, 0, .91822 }, BF[9] = { .8951, .2664, -.1614, -.7502, 1.7135, .0367, .0389, -.0685, 1.0296 },
	ID[9] = { 1, 0, 0, 0, 1, 0, 0, 0, 1 }, SH[9] = { 1.2694, -.0988, -.1706, -.8364, 1.8006, .0357, .0297, -.0315, 1.0018 },
	C2[9] = { .7982, .3389, -.1371, -.5918, 1.5512, .0406, .0008, .0239, .9753 }, C02[9] = { .7328, .4296, -.1624, -.7036, 1.6975, .0061, .003, .0136, .9834 };
enum { VONKRIES, BRADFORD_S, XYZSCALE, SHARP, CAT97_S, CAT2000_S, CAT02_S, BRADFORD, CAT97, CAT2000, CAT02, NM };
static const double* cone(int k) { return k == VONKRIES ? VK : k == XYZSCALE ? ID : k == SHARP ? SH : k == CAT2000 || k == CAT2000_S ? C2 : k == CAT02 || k == CAT02_S ? C02 : BF; }
static color_base* adapt(int k, color_base* c, white_point* w, float f, float la, float lr)
{
	switch (k) {
	case VONKRIES: return K::von_kries_adaptation(c, w);
	case BRADFORD_S: return K::bradford_adaptation_simplified(c, w);
	case XYZSCALE: return K::xyz_scale_adaptation(c, w);
	case SHARP: return K::sharp_adaptation(c, w);
	case CAT97_S: return K::cmccat97_adaptation_simplified(c, w);
	case CAT2000_S: return K::cmccat2000_adaptation_simplified(c, w);
	case CAT02_S: return K::cat02_adaptation_simplified(c, w);
	case BRADFORD: return K::bradford_adaptation(c, w);
	case CAT97: return K::cmccat97_adaptation(c, w, f, la);
	case CAT2000: return K::cmccat2000_adaptation(c, w, f, la, lr);
	default: return K::cat02_adaptation(c, w, f, la);
	}
}
static void inverse(const double* m, double* r)
{
	double d = m[0] * (m[4] * m[8] - m[5] * m[7]) - m[1] * (m[3] * m[8] - m[5] * m[6]) + m[2] * (m[3] * m[7] - m[4] * m[6]);
	for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) {
		int a = (j + 1) % 3, b = (j + 2) % 3, c = (i + 1) % 3, e = (i + 2) % 3;
		r[3 * i + j] = (m[3 * a + c] * m[3 * b + e] - m[3 * a + e] * m[3 * b + c]) / d;
	}
}
static void times(const double* m, double x, double y, double z, double* r) { for (int i = 0; i < 3; ++i) r[i] = m[3 * i] * x + m[3 * i + 1] * y + m[3 * i + 2] * z; }
static double clip(double v) { return std::fmax(std::fmin(v, 100.), 0.); }
static rgbdef* with_white(white_point* w) { return new rgbdef(.64f, .33f, .3f, .6f, .15f, .06f, w, gamma_presets().sRGB()); }
static void white_is(color_base* r, white_point* w)
{
	white_point* g = r->get_rgb_color_space()->get_white_point();
	chk_same(g->get_tristimulus_x(), w->get_tristimulus_x(), "white.X"); chk_same(g->get_tristimulus_y(), w->get_tristimulus_y(), "white.Y"); chk_same(g->get_tristimulus_z(), w->get_tristimulus_z(), "white.Z");
}

// cone responses of a white point in float, the way any implementation on matrix<float> evaluates them (C17 decides that product)
static std::vector<float> response(const double* m, float x, float y, float z)
{
	std::vector<float> v; for (int i = 0; i < 9; ++i) v.push_back((float)m[i]);
	return matrix<float>(3, 3, v) * std::vector<float>{ x, y, z };
}
static white_point* illuminant(int i) { white_point_presets p; return i == 0 ? p.D65_2Degree() : i == 1 ? p.D50_2Degree() : i == 2 ? p.A_2Degree() : p.D75_2Degree(); }
// the linear methods, any color, any source and target white: scaling by the ratio of the whites in the cone space
ENTRY(linear, 14)
{
	int k = shard % 7; float sy = shard < 7 ? 1.f : .8125f, ty = shard < 7 ? 1.f : 1.125f;
	float sx = sym_f32("sx", .9f, 1.12f), sz = sym_f32("sz", .3f, 1.25f), tx = sym_f32("tx", .9f, 1.12f), tz = sym_f32("tz", .3f, 1.25f);
	white_point* S = new white_point(sx, sy, sz); white_point* T = new white_point(tx, ty, tz);
	const double* M = cone(k); double I[9], v[3]; inverse(M, I);
	std::vector<float> s = response(M, sx, sy, sz), t = response(M, tx, ty, tz);
	float x = sym_f32("x", 0, 1.25f), y = sym_f32("y", 0, 1.25f), z = sym_f32("z", 0, 1.25f), a = sym_f32("a", 0, 1);
	rgbdef* d = with_white(S);
	color_base* c = new xyz(x, y, z, a, d);
	color_base* r = adapt(k, c, T, 1, 100, 100);
	chk(r->get_color_type() == color_type::XYZ, "type");
	times(M, x, y, z, v);
	double q[3] = { v[0] * (t[0] / s[0]), v[1] * (t[1] / s[1]), v[2] * (t[2] / s[2]) }, e[3]; times(I, q[0], q[1], q[2], e);
	for (int i = 0; i < 3; ++i) chk_near(C(r, i), clip(e[i]), 5e-4, nm("component", CN[i]));
	chk_same(r->alpha(), a, "alpha");
	white_is(r, T);
	// nothing handed in was modified
	chk_same(C(c, 0), x, "input0"); chk_same(C(c, 1), y, "input1"); chk_same(C(c, 2), z, "input2"); chk_same(c->alpha(), a, "input_alpha");
	chk(c->get_rgb_color_space() == d && d->get_white_point() == S, "input_space");
	chk_same(S->get_tristimulus_x(), sx, "source.X"); chk_same(S->get_tristimulus_z(), sz, "source.Z"); chk_same(T->get_tristimulus_x(), tx, "target.X"); chk_same(T->get_tristimulus_z(), tz, "target.Z");
}
// source white -> target white, one of the two arbitrary
ENTRY(white, 28)
{
	int k = shard % 7; float y = shard < 14 ? 1.f : .8125f; white_point* o = illuminant(sym_choice("other", 4));
	white_point* w = new white_point(sym_f32("wx", .9f, 1.12f), y, sym_f32("wz", .3f, 1.25f));
	white_point* S = shard / 7 % 2 == 0 ? o : w; white_point* T = shard / 7 % 2 == 0 ? w : o;
	color_base* c = new xyz(S->get_tristimulus_x(), S->get_tristimulus_y(), S->get_tristimulus_z(), 1.f, with_white(S));
	color_base* r = adapt(k, c, T, 1, 100, 100);
	chk_near(C(r, 0), T->get_tristimulus_x(), 2e-4, "X"); chk_near(C(r, 1), T->get_tristimulus_y(), 2e-4, "Y"); chk_near(C(r, 2), T->get_tristimulus_z(), 2e-4, "Z");
	white_is(r, T);
}

// degree of adaptation of the complete methods (published)
static float degree(int k, float f, float la, float lr)
{
	return k == CAT97 ? f - f / (1 + 2 * powf(la, .25f) + la * la / 300) : k == CAT2000 ? f * (.08f * log10f(.5f * (la + lr)) + .76f - .45f * (la - lr) / (la + lr)) : f * (1 - expf((-la - 42) / 92) / 3.6f);
}
// CMCCAT2000 and CAT02: every color and degree factor f, one white arbitrary; luminances 4 combinations
ENTRY(incomplete, 20)
{
	int k = shard & 1 ? CAT02 : CAT2000, o = shard / 2 % 2;
	static const float LA[4] = { 100, 20, 1000, 318 }, LR[4] = { 100, 318, 100, 20 };
	float la = LA[shard / 4 % 4], lr = LR[shard / 4 % 4], wy = shard < 16 ? 1.f : .8125f;
	float wx = sym_f32("wx", .9f, 1.12f), wz = sym_f32("wz", .3f, 1.25f);
	white_point* w = new white_point(wx, wy, wz); white_point* b = illuminant(sym_choice("other", 4));
	white_point* S = o ? w : b; white_point* T = o ? b : w;
	const double* M = cone(k); double I[9], v[3]; inverse(M, I);
	std::vector<float> s = response(M, S->get_tristimulus_x(), S->get_tristimulus_y(), S->get_tristimulus_z()), t = response(M, T->get_tristimulus_x(), T->get_tristimulus_y(), T->get_tristimulus_z());
	float x = sym_f32("x", 0, 1.25f), y = sym_f32("y", 0, 1.25f), z = sym_f32("z", 0, 1.25f), a = sym_f32("a", 0, 1), f; double g = degree(k, 1, la, lr), d;
	if (g <= 1) d = (f = sym_f32("f", 0, 1)) * g;
	else if (sym_choice("full", 2)) { static const float FF[3] = { 1, .9f, .76f }; f = FF[sym_choice("ff", 3)]; d = 1; }
	else d = (f = sym_f32("f", 0, .74f)) * g;	// saturates at f = 0.749
	color_base* c = new xyz(x, y, z, a, with_white(S));
	color_base* r = adapt(k, c, T, f, la, lr);
	chk(r->get_color_type() == color_type::XYZ, "type");
	times(M, x, y, z, v);
	double q[3], e[3]; float Y = k == CAT2000 ? S->get_tristimulus_y() / T->get_tristimulus_y() : 1; for (int i = 0; i < 3; ++i) q[i] = v[i] * (d * Y * (t[i] / s[i]) + 1 - d);
	times(I, q[0], q[1], q[2], e);
	for (int i = 0; i < 3; ++i) chk_near(C(r, i), clip(e[i]), 5e-4, nm("component", CN[i]));
	chk_same(r->alpha(), a, "alpha");
	white_is(r, T);
}
// Bradford and CMCCAT97 with the nonlinear blue response: every color, pairs of illuminants
ENTRY(blue, 48)
{
	int n = shard % 12, k = shard < 12 ? BRADFORD : CAT97, i0 = n / 3, i1 = (i0 + 1 + n % 3) % 4;
	white_point* S = illuminant(i0); white_point* T = illuminant(i1);
	static const float F[3] = { 1, .8f, 0 }, LA[3] = { 100, 20, 318 };
	int m = shard < 12 ? 0 : shard / 12 - 1; float f = F[m], la = LA[m];
	const double* M = BF; double I[9]; inverse(M, I);
	std::vector<float> s = response(M, S->get_tristimulus_x(), 1, S->get_tristimulus_z()), t = response(M, T->get_tristimulus_x(), 1, T->get_tristimulus_z());
	float x = sym_f32("x", 0, 1.25f), y = sym_f32("y", 0.02f, 1.25f), z = sym_f32("z", 0, 1.25f), a = sym_f32("a", 0, 1);
	color_base* c = new xyz(x, y, z, a, with_white(S));
	color_base* r = adapt(k, c, T, f, la, 100);
	std::vector<float> v = response(M, x, y, z);
	double d = degree(CAT97, f, la, 0), q[3], e[3];
	float p = powf(s[2] / t[2], .0834f), B = v[2] / y;
	if (k == BRADFORD) { q[0] = v[0] * (t[0] / s[0]); q[1] = v[1] * (t[1] / s[1]); B = B / s[2]; q[2] = (double)y * t[2] * powf(fabsf(B), p); }
	else { q[0] = v[0] * (d * (t[0] / s[0]) + 1 - d); q[1] = v[1] * (d * (t[1] / s[1]) + 1 - d); q[2] = (double)y * powf(fabsf(B), p) * (d * (t[2] / powf(s[2], p)) + 1 - d); }
	q[2] = B < 0 ? -q[2] : q[2];
	times(I, q[0], q[1], q[2], e);
	for (int i = 0; i < 3; ++i) chk_near(C(r, i), clip(e[i]), 1e-3, nm("component", CN[i]));
	chk_same(r->alpha(), a, "alpha");
	white_is(r, T);
}
// black, and the source white, of the nonlinear methods
ENTRY(ends, 2)
{
	int k = shard ? CAT97 : BRADFORD, n = sym_choice("pair", 12), i0 = n / 3, i1 = (i0 + 1 + n % 3) % 4;
	white_point* S = illuminant(i0); white_point* T = illuminant(i1);
	float a = sym_f32("a", 0, 1);
	color_base* r = adapt(k, new xyz(0, 0, 0, a, with_white(S)), T, 1, 100, 100);
	for (int i = 0; i < 3; ++i) chk_near(C(r, i), 0, 1e-6, nm("black", CN[i]));
	r = adapt(BRADFORD, new xyz(S->get_tristimulus_x(), 1, S->get_tristimulus_z(), a, with_white(S)), T, 1, 100, 100);
	chk_near(C(r, 0), T->get_tristimulus_x(), 2e-4, "X"); chk_near(C(r, 1), 1, 2e-4, "Y"); chk_near(C(r, 2), T->get_tristimulus_z(), 2e-4, "Z");
	chk_same(r->alpha(), a, "alpha");
}
// the color itself when the target is its white point already
ENTRY(itself, 11)
{
	rgbdef* d = SRGB(); int t = sym_choice("type", NT); color_base* a = any(t, "a", d); float v[4], al = a->alpha();
	for (int i = 0; i < NCOMP[t]; ++i) v[i] = C(a, i);
	color_base* r = adapt(shard, a, d->get_white_point(), sym_f32("f", 0, 1), sym_f32("la", 1, 1000), sym_f32("lr", 1, 1000));
	chk(r == a && r->get_rgb_color_space() == d, "unchanged");
	for (int i = 0; i < NCOMP[t]; ++i) chk_same(C(r, i), v[i], nm("component", CN[i]));
	chk_same(r->alpha(), al, "alpha");
}
// other types are adapted in XYZ and converted back with the new white point
ENTRY(types, 77)
{
	rgbdef* d = SRGB(); int k = shard / 7, g = shard % 7, t; white_point* T = illuminant(1);
	static const int G[7][3] = { { T_TRUE, T_DEEP, T_GT }, { T_GD, T_CMYK, T_CMYK }, { T_HSV, T_HSL, T_HSL }, { T_HSI, T_HCY, T_HCY }, { T_XYY, T_LUV, T_LAB }, { T_LCHAB, T_LCHUV, T_LCHUV }, { T_XYZ, T_XYZ, T_XYZ } };
	t = G[g][sym_choice("t", 3)];
	float c[4]; int n = sym_choice("color", 3);
	for (int i = 0; i < NCOMP[t]; ++i) c[i] = LO[t][i] + (HI[t][i] - LO[t][i]) * (n == 0 ? 0.3f + 0.15f * i : n == 1 ? 0.75f - 0.1875f * i : 0.2f + 0.25f * (i == 1));
	color_base* a = build(t, c, sym_f32("aA", 0, amax(t)), d); float v[4], al = a->alpha();
	for (int i = 0; i < NCOMP[t]; ++i) v[i] = C(a, i);
	color_base* r = adapt(k, a, T, 1, 100, 100);
	color_base* x = CC::convertTo(adapt(k, CC::to_xyz(a), T, 1, 100, 100), TY[t]);
	chk(r->get_color_type() == TY[t], "type");
	for (int i = 0; i < NCOMP[t]; ++i) { chk_near(C(r, i), C(x, i), 1e-6 * (HI[t][i] - LO[t][i]), "component"); chk_same(C(a, i), v[i], "input"); }
	chk_near(r->alpha(), al, is255(t) ? 0.501 : 1e-6, "alpha");
	chk_same(a->alpha(), al, "input_alpha");
	chk(r != a && a->get_rgb_color_space() == d, "distinct");
	white_is(r, T);
	chk(d->get_white_point() != T, "source_space");
}
// operands changed in place since their last use
ENTRY(after_change, 33)
{
	int k = shard % 11, t = shard < 11 ? T_XYZ : shard < 22 ? T_DEEP : T_LAB; white_point* T = white_point_presets().A_2Degree();
	after_change(t, false, [&](color_base* a) { return adapt(k, a, T, 0.75f, 100, 100); });
	// the white points themselves
	white_point *S = new white_point(1, 1, 1), *U = new white_point(.3457f, .3585f); rgbdef* d = with_white(S);
	color_base *a = warm_color(t, 0, d); adapt(k, a, T, .75f, 100, 100); adapt(k, a, U, .75f, 100, 100);
	white_point *S1, *U1;
	if (t == T_XYZ) { S1 = new white_point(sym_f32("sx", .9f, 1.12f), 1.f, sym_f32("sz", .3f, 1.25f)); U1 = new white_point(sym_f32("tx", .9f, 1.12f), 1.f, sym_f32("tz", .3f, 1.25f)); }
	else { S1 = new white_point(1.0625f, 1.f, .5f); U1 = new white_point(.9375f, 1.f, .875f); }
	*S = *S1; d->set_white_point(S); *U = *U1;
	color_base *b = warm_color(t, 0, with_white(S1));
	like(adapt(k, a, U, .75f, 100, 100), adapt(k, b, U1, .75f, 100, 100), "white");
}
