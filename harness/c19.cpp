#include "lib.h"
#include "after.h"
#include "manipulation/color_blend.h"
typedef color_blend B;
enum { NORMAL, MULTIPLY, SCREEN, OVERLAY, DARKEN, LIGHTEN, DODGE, LIN_DODGE, BURN, LIN_BURN, HARD, SOFT, VIVID, LIN_LIGHT, PIN, MIX, DIFF, SUB, DIV, PLUS_L, PLUS_D, EXCL, NMODE };
static color_base* run(int m, color_base* s, color_base* d, bool us, bool ud)
{
	switch (m) {
	case NORMAL: return B::normal(s, d, us, ud);
	case MULTIPLY: return B::multiply(s, d, us, ud);
	case SCREEN: return B::screen(s, d, us, ud);
	case OVERLAY: return B::overlay(s, d, us, ud);
	case DARKEN: return B::darken(s, d, us, ud);
	case LIGHTEN: return B::lighten(s, d, us, ud);
	case DODGE: return B::color_dodge(s, d, us, ud);
	case LIN_DODGE: return B::linear_dodge(s, d, us, ud);
	case BURN: return B::color_burn(s, d, us, ud);
	case LIN_BURN: return B::linear_burn(s, d, us, ud);
	case HARD: return B::hard_light(s, d, us, ud);
	case SOFT: return B::soft_light(s, d, us, ud);
	case VIVID: return B::vivid_light(s, d, us, ud);
	case LIN_LIGHT: return B::linear_light(s, d, us, ud);
	case PIN: return B::pin_light(s, d, us, ud);
	case MIX: return B::hard_mix(s, d, us, ud);
	case DIFF: return B::difference(s, d, us, ud);
	case SUB: return B::subtract(s, d, us, ud);
	case DIV: return B::divide(s, d, us, ud);
	case PLUS_L: return B::plus_lighter(s, d, us, ud);
	case PLUS_D: return B::plus_darker(s, d, us, ud);
	case EXCL: return B::exclusion(s, d, us, ud);
	case NMODE: return B::dissolve(s, d, us, ud);
	case NMODE + 1: return B::custom_componentwise_blend(s, d, us, ud, [](float a, float b) { return 0.75f * a - 0.25f * b * b + 0.125f; });
	case NMODE + 2: return B::hue(s, d, us, ud);
	case NMODE + 3: return B::saturation(s, d, us, ud);
	case NMODE + 4: return B::color(s, d, us, ud);
	default: return B::luminosity(s, d, us, ud);
	}
}
static double hard(double s, double d) { return s <= 0.5 ? 2 * s * d : 1 - (1 - d) * (2 - 2 * s); }
// saturates at 1; both cases are explored on their own
static double ratio(float a, float b) { if (a / b <= 1.f) { out(1, "ratio"); return (double)a / b; } out(0, "ratio"); return 1; }
// the defining function of each mode
static double f(int m, double s, double d)
{
	switch (m) {
	case NORMAL: return s;
	case MULTIPLY: return s * d;
	case SCREEN: return s + d - s * d;
	case OVERLAY: return hard(d, s);
	case DARKEN: return s < d ? s : d;
	case LIGHTEN: return s > d ? s : d;
	case DODGE: return d == 0 ? 0 : s == 1 ? 1 : ratio((float)d, 1.f - (float)s);
	case LIN_DODGE: case PLUS_L: return s + d;
	case BURN: return d == 1 ? 0 : s == 0 ? 1 : ratio(1.f - (float)d, (float)s);
	case LIN_BURN: case PLUS_D: return s + d - 1;
	case HARD: return hard(s, d);
	case SOFT: return s <= 0.5 ? d * (s + 0.5) : 1 - (1 - d) * (s - 0.5);
	case VIVID: return s <= 0.5 ? (d == 0 ? 0 : s == 0.5 ? 1 : d / (1 - 2 * s)) : (d == 1 ? 1 : s == 1 ? 0 : 1 - (1 - d) / (2 * s - 1));
	case LIN_LIGHT: return d + 2 * s - 1;
	case PIN: return s <= 0.5 ? (d < 2 * s ? d : 2 * s) : (d > 2 * s - 1 ? d : 2 * s - 1);
	case MIX: return s < 1 - d ? 0 : 1;
	case DIFF: return s > d ? s - d : d - s;
	case SUB: return s - d;
	case DIV: return d == 0 ? 0 : s == 0 ? 1 : d / s;
	case EXCL: return s + d - 2 * s * d;
	default: return 0.75 * s - 0.25 * d * d + 0.125;
	}
}
// bounds of the comparison: denominators at least 1/128 or exactly 0, and off the step of hard mix
static bool ok(int m, double s, double d)
{
	switch (m) {
	case DODGE: return s == 1 || s <= 0.9921875 || d == 0;
	case BURN: return s == 0 || s >= 0.0078125 || d == 1;
	case VIVID: return s == 0.5 || s <= 0.46875 || s >= 0.53125;
	case DIV: return s == 0 || s >= 0.0078125 || d == 0;
	case MIX: return s + d < 0.999999 || s + d > 1.000001;
	}
	return true;
}
static double tol(int m) { return m == DODGE || m == BURN || m == VIVID || m == DIV ? 1e-3 : 1e-4; }
// modes whose function stays in [0,1]
static bool bounded(int m) { return !(m == LIN_DODGE || m == PLUS_L || m == LIN_BURN || m == PLUS_D || m == VIVID || m == LIN_LIGHT || m == SUB || m == DIV || m >= NMODE); }
static void compare(int m, color_base* s, color_base* d, color_base* r, bool us, bool ud)
{
	double sa = s->alpha(), da = d->alpha(), ws = us ? sa * (1 - da) : 0, wd = ud ? da * (1 - sa) : 0, wb = sa * da, a = ws + wd + wb;
	chk_near(r->alpha(), a, 1e-6, "alpha");
	if (r->alpha() >= 0.0625f) for (int i = 0; i < 3; ++i) {
		double x = C(s, i), y = C(d, i), v = (ws * x + wd * y + wb * f(m, x, y)) / a, g = C(r, i);
		if (bounded(m)) chk_near(g, v, tol(m), "component");
		else if (v < 0) chk_near(g, 0, tol(m), "below_0");
		else if (v > 1) chk_near(g, 1, tol(m), "over_1");
		else chk_near(g, v, tol(m), "component");
	}
}
// one channel varies over everything, the other two are fixed
ENTRY(formula, NMODE + 1)
{
	rgbdef* def = SRGB();
	int m = shard == NMODE ? NMODE + 1 : shard;
	bool us = sym_choice("us", 2), ud = sym_choice("ud", 2);
	float x = sym_f32("s", 0, 1), y = sym_f32("d", 0, 1), sa = sym_f32("sa", 0, 1), da = sym_f32("da", 0, 1);
	sym_assume(ok(m, x, y));
	color_base* s = new rgb_deepcolor(x, 0.5f, 0.25f, sa, def); color_base* d = new rgb_deepcolor(y, 0.25f, 0.5f, da, def);
	if (m == BURN) {	// the ratio is not within 1/1000 below its saturation
		int k = sym_choice("case", 3);
		if (k == 0) { sym_assume(x >= 0.0078125f); sym_assume(y < 1); sym_assume((1.f - y) / x <= 0.999f); }
		else if (k == 1) { sym_assume(x >= 0.0078125f); sym_assume(y < 1); sym_assume((1.f - y) / x > 1.f); }
		else sym_assume(x == 0 || y == 1);
	}
	color_base* r = run(m, s, d, us, ud);
	in_range(r, T_DEEP, "range");
	compare(m, s, d, r, us, ud);
}
// dissolve picks one of the operands for each channel
ENTRY(dissolve, 1)
{
	rgbdef* def = SRGB();
	bool us = sym_choice("us", 2), ud = sym_choice("ud", 2);
	color_base* s = any(T_DEEP, "s", def); color_base* d = any(T_DEEP, "d", def);
	double sa = s->alpha(), da = d->alpha(), ws = us ? sa * (1 - da) : 0, wd = ud ? da * (1 - sa) : 0, wb = sa * da, a = ws + wd + wb;
	color_base* r = B::dissolve(s, d, us, ud);
	in_range(r, T_DEEP, "range");
	chk_near(r->alpha(), a, 1e-6, "alpha");
	if (r->alpha() >= 0.0625f) for (int i = 0; i < 3; ++i) {
		double g = C(r, i), v = (ws * C(s, i) + wd * C(d, i) + wb * C(s, i)) / a, w = (ws * C(s, i) + wd * C(d, i) + wb * C(d, i)) / a;
		chk(fabs(g - v) <= 1e-4 || fabs(g - w) <= 1e-4, "one_of_both");
	}
}
// operands stay as they were; the result has the source's type and space
ENTRY(pure, NMODE + 6)
{
	rgbdef* d = SRGB();
	static const int ST[5] = { T_TRUE, T_DEEP, T_GT, T_GD, T_CMYK };
	bool sep = shard < NMODE + 2;
	int t = ST[sym_choice("ts", sep ? 5 : 2)], u = sym_choice("td", 2);
	color_base* s = any(t, "s", d); color_base* x = any(u, "d", d);
	float a[4], b[4]; float sa = s->alpha(), xa = x->alpha();
	for (int i = 0; i < NCOMP[t]; ++i) a[i] = C(s, i);
	for (int i = 0; i < NCOMP[u]; ++i) b[i] = C(x, i);
	color_base* r = run(shard, s, x, true, true);
	chk(r->get_rgb_color_space() == d, "space");
	chk(r->get_color_type() == TY[t], "type");
	chk(r != s && r != x, "new_color");
	for (int i = 0; i < NCOMP[t]; ++i) chk_near(C(s, i), a[i], 0, "source");
	for (int i = 0; i < NCOMP[u]; ++i) chk_near(C(x, i), b[i], 0, "destination");
	chk_near(s->alpha(), sa, 0, "source_alpha"); chk_near(x->alpha(), xa, 0, "destination_alpha");
}
// operands of any type: the mode acts on their deep form and returns the source's type
ENTRY(types, 15)
{
	rgbdef* d = SRGB();
	static const int M[6] = { MULTIPLY, SCREEN, DIFF, LIN_BURN, PIN, SUB };
	int u = shard >= T_XYZ ? T_DEEP : (shard * 7 + 3) % T_XYZ, m = M[shard % 6];
	color_base* s = any(shard, "s", d); color_base* x = any(u, "d", d);
	color_base* r = run(m, s, x, true, true);
	color_base* e = CC::convertTo(run(m, CC::to_rgb_deep(s), CC::to_rgb_deep(x), true, true), TY[shard]);
	chk(r->get_color_type() == TY[shard], "type");
	for (int i = 0; i < NCOMP[shard]; ++i) chk_near(C(r, i), C(e, i), 1e-6 * HI[shard][i], "component");
	chk_near(r->alpha(), e->alpha(), 1e-6 * amax(shard), "alpha");
}
// the four modes that exchange hue, chroma and luma
ENTRY(hcy_modes, 4)
{
	rgbdef* d = SRGB();
	color_base* s = any(T_HCY, "s", d); color_base* x = any(T_HCY, "d", d);
	color_base* r = run(NMODE + 2 + shard, s, x, true, true);
	static const int FROM_S[4][3] = { {1,0,0}, {0,1,0}, {1,1,0}, {0,0,1} };
	chk(r->get_color_type() == color_type::HCY, "type");
	for (int i = 0; i < 3; ++i) chk_near(C(r, i), FROM_S[shard][i] ? C(s, i) : C(x, i), i ? 1e-6 : 1e-3, "component");
	chk_near(r->alpha(), s->alpha(), 1e-6, "alpha");
}
ENTRY(hcy_types, 8)
{
	rgbdef* d = SRGB();
	int m = shard & 3, t = shard & 4 ? T_DEEP : T_HSV;
	color_base* s = any(t, "s", d); color_base* x = new rgb_deepcolor(0.25f, 0.75f, 0.5f, sym_f32("da", 0, 1), d);
	color_base* r = run(NMODE + 2 + m, s, x, true, true);
	color_base* e = CC::convertTo(run(NMODE + 2 + m, CC::to_hcy(s), CC::to_hcy(x), true, true), TY[t]);
	chk(r->get_color_type() == TY[t], "type");
	for (int i = 0; i < 3; ++i) chk_near(C(r, i), C(e, i), 1e-6 * HI[t][i], "component");
	chk_near(r->alpha(), s->alpha(), 1e-6, "alpha");
}
ENTRY(reject, NMODE + 6)
{
	rgbdef* d = SRGB(); rgbdef* o = SRGB();
	int t = sym_choice("t", NT), k = sym_choice("k", 4);
	color_base* s = any(t, "s", d); color_base* x = any(T_DEEP, "d", k == 2 ? o : k == 3 ? nullptr : d);
	chk(throws([&] { run(shard, k == 0 ? nullptr : s, k == 1 ? nullptr : x, true, true); }) == 1, "rejected");
}
// one object as source and destination acts like two equal ones
ENTRY(same_object, NMODE + 5)
{
	rgbdef* d = SRGB(); int m = shard < NMODE ? shard : shard + 1, t = m < NMODE + 2 ? T_DEEP : T_HCY;
	bool us = sym_choice("us", 2), ud = sym_choice("ud", 2);
	float x[3]; for (int i = 0; i < 3; ++i) x[i] = sym_f32(nm("s", CN[i]), LO[t][i], HI[t][i]);
	color_base *s = build(t, x, sym_f32("sA", 0, 1), d), *c = build(t, x, s->alpha(), d);
	float a = s->alpha();
	color_base *r = run(m, s, s, us, ud), *e = run(m, s, c, us, ud);
	chk(r != s, "new_color");
	for (int i = 0; i < 3; ++i) { chk_near(C(r, i), C(e, i), 1e-6 * HI[t][i], "component"); chk_near(C(s, i), C(c, i), 0, "operand"); }
	chk_near(r->alpha(), e->alpha(), 1e-6, "alpha"); chk_near(s->alpha(), a, 0, "operand_alpha");
}
// operands changed in place since their last use
ENTRY(after_change, NMODE + 5) { int m = shard < NMODE ? shard : shard + 1, t = m < NMODE + 2 ? T_DEEP : T_HCY; after_change(t, t, t == T_DEEP, [&](color_base* a, color_base* b) { return run(m, a, b, true, true); }); }
