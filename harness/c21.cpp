#include "calc.h"
#include "after.h"
static color_base* call(int how, int op, int t, color_base* a, color_base* b, float w, float v, bool alpha) { return how ? typed(op, t, a, b, w, v, alpha) : based(op, a, b, w, v, alpha); }
static color_base* fixed(int t, int k, float alpha, rgbdef* d)
{
	float c[4];
	for (int i = 0; i < NCOMP[t]; ++i) c[i] = LO[t][i] + (HI[t][i] - LO[t][i]) * (k == 0 ? 0.25f + 0.125f * i : k == 1 ? 0.75f - 0.1875f * i : i ? 0.3f : 0.01f);
	return build(t, c, alpha, d);
}
static bool simple(int t) { return t <= T_CMYK || t == T_HSV || t == T_XYZ || t == T_XYY || t == T_LUV; }
// mixing is adding with weights w and 1 - w
ENTRY(mix, 15)
{
	rgbdef* d = SRGB();
	int t = shard, how = sym_choice("overload", 2); bool ia = sym_choice("alpha", 2);
	color_base* a = any(t, "a", d); color_base* b = simple(t) && t != T_HSV ? any(t, "b", d) : fixed(t, t % 3, sym_f32("bA", 0, amax(t)), d);
	float w = sym_f32("w", 0, 1);
	color_base* r = call(how, MIX, t, a, b, w, 0, ia); color_base* x = typed(ADD, t, a, b, w, 1.f - w, ia);
	chk(r->get_color_type() == TY[t], "type");
	for (int i = 0; i < NCOMP[t]; ++i) chk_near(C(r, i), C(x, i), 1e-6 * (HI[t][i] - LO[t][i]), "component");
	chk_near(r->alpha(), x->alpha(), 1e-6 * amax(t), "alpha");
	chk(r->get_rgb_color_space() == d, "space");
}
// the second color may be of any type
ENTRY(mix_mixed, 15)
{
	rgbdef* d = SRGB();
	int t = shard, u = sym_choice("type", NT); bool ia = sym_choice("alpha", 2);
	color_base* a = simple(t) ? any(t, "a", d) : fixed(t, 1, sym_f32("aA", 0, amax(t)), d); color_base* b = fixed(u, (t + u) % 3, sym_f32("bA", 0, amax(u)), (t + u) & 1 ? rgb_color_space_definition_presets().adobeRGB() : d);
	float w = sym_f32("w", 0, 1);
	color_base* r = based(MIX, a, b, w, 0, ia); color_base* x = typed(ADD, t, a, CC::convertTo(b, TY[t]), w, 1.f - w, ia);
	chk(r->get_rgb_color_space() == d, "space");
	chk(r->get_color_type() == TY[t], "type");
	for (int i = 0; i < NCOMP[t]; ++i) chk_near(C(r, i), C(x, i), 1e-6 * (HI[t][i] - LO[t][i]), "component");
	chk_near(r->alpha(), x->alpha(), 1e-6 * amax(t), "alpha");
}
// weights 1 and 0 give the first and the second color
ENTRY(ends, 8)
{
	rgbdef* d = SRGB();
	int t = LIN[shard], how = sym_choice("overload", 2), end = sym_choice("end", 2); bool ia = sym_choice("alpha", 2);
	color_base* a = any(t, "a", d); color_base* b = any(t, "b", d);
	color_base* r = call(how, MIX, t, a, b, end ? 1.f : 0.f, 0, ia); color_base* x = end ? a : b;
	double eps = t == T_TRUE || t == T_DEEP ? 2e-5 : 0;
	for (int i = 0; i < NCOMP[t]; ++i) chk_near(C(r, i), C(x, i), eps * (HI[t][i] - LO[t][i]), "component");
	chk_near(r->alpha(), ia ? x->alpha() : a->alpha(), (is255(t) ? 2e-5 : eps) * amax(t), "alpha");
}
// the arithmetic mean of every component
ENTRY(average, 15)
{
	rgbdef* d = SRGB();
	int t = shard, n = 1 + sym_choice("count", 4); bool ia = sym_choice("alpha", 2);
	static const char* const P[4] = { "a", "b", "c", "d" };
	std::vector<color_base*> v;
	double sum[4] = { 0, 0, 0, 0 }, as = 0;
	for (int k = 0; k < n; ++k) {
		color_base* x = any(t, P[k], d); v.push_back(x);
		for (int i = 0; i < NCOMP[t]; ++i) sum[i] += C(x, i);
		as += x->alpha();
	}
	color_base* r = average(t, v, ia);
	chk(r->get_color_type() == TY[t], "type");
	for (int i = 0; i < NCOMP[t]; ++i) chk_near(C(r, i), sum[i] / n, 2e-6 * (HI[t][i] - LO[t][i]), "component");
	chk_near(r->alpha(), ia ? as / n : v[0]->alpha(), 2e-6 * amax(t), "alpha");
	chk(r->get_rgb_color_space() == d, "space");
	for (int k = 0; k < n; ++k) chk(r != v[k], "distinct");
}
// an empty set has no average
ENTRY(empty, 1)
{
	int t = sym_choice("type", NT); bool ia = sym_choice("alpha", 2);
	chk(throws([&] { average(t, std::vector<color_base*>(), ia); }) == 1, "rejected");
}
// a weight outside [0,1] is rejected by every overload; weights inside are not
ENTRY(weights, 45)
{
	rgbdef* d = SRGB();
	int t = shard % 15, op = shard / 15, how = sym_choice("overload", 2), second = op == ADD ? sym_choice("second", 2) : 0, below = sym_choice("below", 2);
	color_base* a = fixed(t, 0, amax(t), d); color_base* b = fixed(t, 1, amax(t), d);
	float w = sym_f32_any("w"), good = sym_f32("good", 0, 1);
	if (below) sym_assume(w < 0); else sym_assume(w > 1);
	chk(throws([&] { second ? call(how, op, t, a, b, good, w, false) : call(how, op, t, a, b, w, good, false); }) == 1, "rejected");
}
ENTRY(weights_accepted, 45)
{
	rgbdef* d = SRGB();
	int t = shard % 15, op = shard / 15, how = sym_choice("overload", 2); bool ia = sym_choice("alpha", 2);
	color_base* a = fixed(t, 0, amax(t), d); color_base* b = fixed(t, 1, amax(t), d);
	float w = sym_f32("w", 0, 1), v = sym_f32("v", 0, 1);
	chk(throws([&] { call(how, op, t, a, b, w, v, ia); }) == 0, "accepted");
}
// one object as both operands acts like two equal ones
ENTRY(same_object, 15)
{
	rgbdef* d = SRGB();
	int t = shard, how = sym_choice("overload", 2); bool ia = sym_choice("alpha", 2), fix = !simple(t);
	float x[4]; for (int i = 0; i < NCOMP[t]; ++i) x[i] = fix ? LO[t][i] + (HI[t][i] - LO[t][i]) * (0.25f + 0.125f * i) : sym_f32(nm("a", CN[i]), LO[t][i], HI[t][i]);
	float al = sym_f32("aA", 0, amax(t)), w = sym_f32("w", 0, 1);
	color_base *a = build(t, x, al, d), *b = build(t, x, al, d);
	color_base *r = call(how, MIX, t, a, a, w, 0, ia), *e = call(how, MIX, t, a, b, w, 0, ia);
	chk(r != a, "distinct");
	for (int i = 0; i < NCOMP[t]; ++i) { chk_near(C(r, i), C(e, i), 1e-6 * (HI[t][i] - LO[t][i]), "component"); chk_near(C(a, i), C(b, i), 0, "operand"); }
	chk_near(r->alpha(), e->alpha(), 1e-6 * amax(t), "alpha");
}
// larger sets: a symbolic color at a chosen place, the others are fixed
ENTRY(average_many, 15)
{
	rgbdef* d = SRGB();
	static const int N[5] = { 5, 8, 13, 33, 101 };
	int t = shard, n = N[sym_choice("count", 5)], at = sym_choice("place", 3); bool ia = sym_choice("alpha", 2);
	at = at == 0 ? 0 : at == 1 ? n / 2 : n - 1;
	std::vector<color_base*> v; double sum[4] = { 0, 0, 0, 0 }, as = 0;
	for (int k = 0; k < n; ++k) {
		color_base* x = k == at ? any(t, "a", d) : fixed(t, k % 3, amax(t) * (k % 7) / 7, d); v.push_back(x);
		for (int i = 0; i < NCOMP[t]; ++i) sum[i] += C(x, i);
		as += x->alpha();
	}
	color_base* r = average(t, v, ia);
	for (int i = 0; i < NCOMP[t]; ++i) chk_near(C(r, i), sum[i] / n, 1e-5 * (HI[t][i] - LO[t][i]), "component");
	chk_near(r->alpha(), ia ? as / n : v[0]->alpha(), 1e-5 * amax(t), "alpha");
}
// operands changed in place since their last use
ENTRY(after_change, 15)
{
	int t = shard; float w = t <= T_CMYK ? sym_f32("w", 0, 1) : 0.375f;
	after_change(t, t, t <= T_CMYK, [&](color_base* a, color_base* b) { return call(0, MIX, t, a, b, w, 0, true); });
	after_change(t, t, false, [&](color_base* a, color_base* b) { return average(t, std::vector<color_base*>{ a, b, a }, true); });
}
