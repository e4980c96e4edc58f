#include "lib.h"
// set component i through the named setter
static void setc(int t, color_base* b, int i, float v)
{
#define S(T, A, B, D) { T* c = static_cast<T*>(b); if (i == 0) c->A(v); else if (i == 1) c->B(v); else c->D(v); return; }
	switch (t) {
	case T_TRUE: S(rgb_truecolor, red, green, blue)
	case T_DEEP: S(rgb_deepcolor, red, green, blue)
	case T_GT: static_cast<grey_truecolor*>(b)->grey(v); return;
	case T_GD: static_cast<grey_deepcolor*>(b)->grey(v); return;
	case T_CMYK: if (i == 3) { static_cast<cmyk*>(b)->black(v); return; } S(cmyk, cyan, magenta, yellow)
	case T_HSI: S(hsi, hue, saturation, intensity)
	case T_HSV: S(hsv, hue, saturation, value)
	case T_HSL: S(hsl, hue, saturation, lightness)
	case T_HCY: S(hcy, hue, chroma, luma)
	case T_XYZ: S(xyz, x, y, z)
	case T_XYY: S(xyy, x, y, Y)
	case T_LUV: S(cieluv, L, u, v)
	case T_LAB: S(lab, luminance, a, b)
	case T_LCHAB: S(lch_ab, luminance, chroma, hue)
	case T_LCHUV: S(lch_uv, luminance, chroma, hue)
	}
}
static float getc(int t, color_base* b, int i)
{
#define G(T, A, B, D) { T* c = static_cast<T*>(b); return i == 0 ? c->A() : i == 1 ? c->B() : c->D(); }
	switch (t) {
	case T_TRUE: G(rgb_truecolor, red, green, blue)
	case T_DEEP: G(rgb_deepcolor, red, green, blue)
	case T_GT: return static_cast<grey_truecolor*>(b)->grey();
	case T_GD: return static_cast<grey_deepcolor*>(b)->grey();
	case T_CMYK: if (i == 3) return static_cast<cmyk*>(b)->black(); G(cmyk, cyan, magenta, yellow)
	case T_HSI: G(hsi, hue, saturation, intensity)
	case T_HSV: G(hsv, hue, saturation, value)
	case T_HSL: G(hsl, hue, saturation, lightness)
	case T_HCY: G(hcy, hue, chroma, luma)
	case T_XYZ: G(xyz, x, y, z)
	case T_XYY: G(xyy, x, y, Y)
	case T_LUV: G(cieluv, L, u, v)
	case T_LAB: G(lab, luminance, a, b)
	case T_LCHAB: G(lch_ab, luminance, chroma, hue)
	default: G(lch_uv, luminance, chroma, hue)
	}
}
// constructors and setters on arbitrary bit patterns
ENTRY(ctor_any, NT)
{
	color_base* c = wild(shard, "c", nullptr);
	in_range(c, shard, "c");
}
ENTRY(setter_any, NT)
{
	float z[4] = { 0, 0, 0, 0 };
	color_base* c = build(shard, z, 0, nullptr);
	int i = sym_choice("i", NCOMP[shard]);
	setc(shard, c, i, sym_f32_any("v"));
	chk_range(C(c, i), LO[shard][i], HI[shard][i], "comp");
	chk_same(getc(shard, c, i), C(c, i), "getter");
	for (int k = 0; k < NCOMP[shard]; ++k) if (k != i) chk(C(c, k) == 0, "others");
	c->alpha(sym_f32_any("a"));
	chk_range(c->alpha(), 0, amax(shard), "alpha");
	c->set_component(sym_f32_any("w"), 0);
	chk_range(C(c, 0), c->get_component_min(), c->get_component_max(), "set_component");
}
// in-range values are stored unchanged (hues up to 359), out-of-range values saturate at the nearest end, hues wrap
ENTRY(ctor_in, NT)
{
	float c[4]; 
	for (int i = 0; i < NCOMP[shard]; ++i) c[i] = sym_f32(nm("c", CN[i]), LO[shard][i], HI[shard][i]);
	float a = sym_f32("A", 0, amax(shard));
	color_base* b = build(shard, c, a, nullptr);
	for (int i = 0; i < NCOMP[shard]; ++i) { chk_same(C(b, i), c[i], nm("c", CN[i])); chk_same(getc(shard, b, i), c[i], nm("get", CN[i])); }
	chk_near(b->alpha(), a, is255(shard) ? 1e-4 : 0, "alpha");
}
static bool hue_at(int t, int i) { return i == 0 && t >= T_HSI && t <= T_HCY; }
ENTRY(saturate, NT)
{
	float z[4] = { 0, 0, 0, 0 };
	color_base* c = build(shard, z, 0, nullptr);
	int i = sym_choice("i", NCOMP[shard]);
	float lo = LO[shard][i], hi = HI[shard][i];
	if (hue_at(shard, i)) {
		float v = sym_f32("v", -3600, 3600);
		setc(shard, c, i, v);
		float h = C(c, i);
		chk_range(h, 0, 359, "hue_range");
		// congruent modulo 360 unless it falls into the (359,360) gap, where it saturates at 359
		float m = fmodf(v, 360.f); double r = m < 0 ? (double)m + 360.0 : (double)m;
		chk_near(h, r > 359 ? 359.0 : r, 5e-4, "hue_wrap");
	} else {
		float v = sym_f32("v", -1e30f, 1e30f);
		setc(shard, c, i, v);
		chk_same(C(c, i), v < lo ? lo : v > hi ? hi : v, "clamp");
	}
	float a = sym_f32("a", -1e6f, 1e6f);
	c->alpha(a);
	float am = amax(shard);
	chk_near(c->alpha(), a < 0 ? 0 : a > am ? am : a, am * 1e-6, "alpha");
}
// operator+ of two valid colors of the same type stays valid and is the saturated sum
ENTRY(plus, NT)
{
	color_base* a = any(shard, "a", nullptr); color_base* b = any(shard, "b", nullptr);
	color_base s = *a + *b;
	chk(s.get_color_type() == TY[shard], "type");
	float am = is255(shard) ? 255.f : 1.f;
	chk_near(s.alpha(), a->alpha() / am, 1e-6, "alpha_kept");
	for (int i = 0; i < NCOMP[shard]; ++i) {
		float x = C(a, i) + C(b, i), lo = LO[shard][i], hi = HI[shard][i], r = s.get_component(i);
		// the regions of the recorded findings get check ids of their own, so that nothing else hides behind them
		if (hue_at(shard, i)) {
			bool over = x > 1;
			chk_range(r, lo, hi, "sum_range0");
			if (over) chk(r == (x >= 360 ? x - 360 : x) || r == 359, "sum_hue_over_1");
			else chk_same(r, x, "sum0");
			continue;
		}
		if (shard >= T_LCHAB && i == 2 && x > 100) { chk_same(r, x > 359 ? 359 : x, "sum_hue_over_100"); continue; }
		if (shard == T_LAB && i == 0 && x > 100) { chk_same(r, 100, "sum_L_over_100"); chk_range(r, 0, 128, "sum_range0"); continue; }
		chk_range(r, lo, hi, nm("sum_range", CN[i]));
		chk_same(r, x < lo ? lo : x > hi ? hi : x, nm("sum", CN[i]));
	}
}
