#include "lib.h"
#include "after.h"
#include "manipulation/color_adjustments.h"
typedef color_adjustments A;
static color_base* adjust(int f, color_base* a, float p) { return f == 0 ? A::saturate_in_rgb_space(a, p) : f == 1 ? A::luminate_in_rgb_space(a, p) : f == 2 ? A::saturate_in_hsl_space(a, p) : A::luminate_in_hsl_space(a, p); }
static void in_place(int f, color_base& a, float p) { if (f == 0) A::saturate_in_rgb_space(a, p); else if (f == 1) A::luminate_in_rgb_space(a, p); else if (f == 2) A::saturate_in_hsl_space(a, p); else A::luminate_in_hsl_space(a, p); }
static double clip(double v, double lo, double hi) { return v < lo ? lo : v > hi ? hi : v; }
static int space(int f) { return f < 2 ? T_DEEP : T_HSL; }
// the formula in the space of the adjustment; shards 4..7 with amounts beyond the documented -1..1
ENTRY(formula, 8)
{
	rgbdef* d = SRGB(); int f = shard & 3, t = space(f); float m = shard & 4 ? 8.f : 1.f;
	color_base* a = any(t, "a", d); float p = sym_f32("amount", -m, m);
	float v[3] = { C(a, 0), C(a, 1), C(a, 2) }, al = a->alpha();
	color_base* r = adjust(f, a, p);
	chk(r->get_color_type() == TY[t], "type");
	double L = 0.299 * v[0] + 0.587 * v[1] + 0.114 * v[2];
	for (int i = 0; i < 3; ++i) {
		double e = f == 0 ? v[i] + p * (v[i] - L) : f == 1 ? v[i] * (1. + p) : f == 2 && i == 1 ? v[1] * (1. + p) : f == 3 && i == 2 ? v[2] * (1. + p) : v[i];
		chk_near(C(r, i), clip(e, LO[t][i], HI[t][i]), f < 2 || i == f - 1 ? 1e-5 : 0, "component");
		chk_near(C(a, i), v[i], 0, "input");
	}
	chk_near(r->alpha(), al, 0, "alpha"); chk_near(a->alpha(), al, 0, "input_alpha");
	chk(r->get_rgb_color_space() == d, "space");
	if (p != 0) chk(r != a, "distinct");
}
static bool free_color(int t, int f) { return t <= T_HCY && (f < 2 || (t != T_HSI && t != T_HCY)); }
static color_base* some(int t, bool all, int k, rgbdef* d)
{
	float c[4];
	for (int i = 0; i < NCOMP[t]; ++i) c[i] = all ? sym_f32(nm("a", CN[i]), LO[t][i], HI[t][i]) : LO[t][i] + (HI[t][i] - LO[t][i]) * (k == 0 ? 0.3f + 0.15f * i : k == 1 ? 0.75f - 0.1875f * i : 0.2f + 0.25f * (i == 1));
	return build(t, c, sym_f32("aA", 0, amax(t)), d);
}
// other types are adjusted in that space and converted back
ENTRY(types, 60)
{
	rgbdef* d = SRGB(); int t = shard % 15, f = shard / 15, s = space(f);
	color_base* a = some(t, free_color(t, f), free_color(t, f) ? 0 : sym_choice("color", 3), d); float p = sym_f32("amount", -8, 8), al = a->alpha(), v[4];
	if (sym_choice("sign", 2)) sym_assume(p >= 1e-6f); else sym_assume(p <= -1e-6f);
	for (int i = 0; i < NCOMP[t]; ++i) v[i] = C(a, i);
	color_base* r = adjust(f, a, p);
	color_base* x = CC::convertTo(adjust(f, CC::convertTo(a, TY[s]), p), TY[t]);
	chk(r->get_color_type() == TY[t], "type");
	for (int i = 0; i < NCOMP[t]; ++i) { chk_near(C(r, i), C(x, i), 1e-6 * (HI[t][i] - LO[t][i]), "component"); chk_near(C(a, i), v[i], 0, "input"); }
	chk_near(r->alpha(), al, is255(t) ? 0.501 : 1e-6, "alpha");
	chk(r->get_rgb_color_space() == d, "space");
	chk(r != a, "distinct");
}
// an amount of 0 changes nothing
ENTRY(nothing, 2)
{
	rgbdef* d = SRGB(); int f = 2 + shard, t = sym_choice("type", NT); color_base* a = any(t, "a", d); float v[4], al = a->alpha();
	for (int i = 0; i < NCOMP[t]; ++i) v[i] = C(a, i);
	color_base* r = adjust(f, a, 0);
	chk(r->get_color_type() == TY[t], "type");
	for (int i = 0; i < NCOMP[t]; ++i) chk_near(C(r, i), v[i], 0, "component");
	chk_near(r->alpha(), al, 0, "alpha");
}
// the overload that changes its argument ends with the color the other one returns
ENTRY(in_place, 60)
{
	rgbdef* d = SRGB(); int t = shard % 15, f = shard / 15;
	color_base* a = some(t, free_color(t, f), free_color(t, f) ? 0 : sym_choice("color", 3), d); float p = sym_f32("amount", -8, 8), al = a->alpha();
	if (sym_choice("sign", 2)) sym_assume(p >= 1e-6f); else sym_assume(p <= -1e-6f);
	color_base* r = adjust(f, a, p);
	in_place(f, *a, p);
	chk(a->get_color_type() == TY[t], "type");
	for (int i = 0; i < NCOMP[t]; ++i) chk_near(C(a, i), C(r, i), 1e-6 * (HI[t][i] - LO[t][i]), "component");
	chk_near(a->alpha(), al, is255(t) ? 0.501 : 1e-6, "alpha");
	chk(a->get_rgb_color_space() == d, "space");
}
// operands changed in place since their last use
ENTRY(after_change, 12)
{
	int f = shard & 3, t = shard < 4 ? space(f) : shard < 8 ? T_TRUE : T_LAB; float p = shard < 4 ? sym_f32("amount", -1, 1) : 0.25f;
	after_change(t, shard < 4, [&](color_base* a) { return adjust(f, a, p); });
}
