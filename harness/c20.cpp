#include "calc.h"
#include "after.h"
static color_base* call(int how, int op, int t, color_base* a, color_base* b, float w, float v, bool alpha) { return how ? typed(op, t, a, b, w, v, alpha) : based(op, a, b, w, v, alpha); }
static double rule(int op, int t, double c1, double c2, double w, double v, double lo, double hi)
{
	double x = op == SUBTRACT ? c1 - w * c2 : t == T_TRUE || t == T_DEEP ? sqrt(w * c1 * c1 + v * c2 * c2) : w * c1 + v * c2;
	return x < lo ? lo : x > hi ? hi : x;
}
// models whose components are combined one by one
ENTRY(components, 16)
{
	rgbdef* d = SRGB();
	int t = LIN[shard & 7], op = shard & 8 ? SUBTRACT : ADD, how = sym_choice("overload", 2); bool ia = sym_choice("alpha", 2);
	color_base* a = any(t, "a", d); color_base* b = any(t, "b", d);
	float w = sym_f32("w1", 0, 1), v = sym_f32("w2", 0, 1);
	color_base* r = call(how, op, t, a, b, w, v, ia);
	chk(r->get_color_type() == TY[t], "type");
	chk(r->get_rgb_color_space() == d, "space");
	double eps = t == T_TRUE || t == T_DEEP ? 2e-5 : 1e-6;
	for (int i = 0; i < NCOMP[t]; ++i) chk_near(C(r, i), rule(op, t, C(a, i), C(b, i), w, v, LO[t][i], HI[t][i]), eps * (HI[t][i] - LO[t][i]), "component");
	double aa = ia ? rule(op, t, a->alpha(), b->alpha(), w, v, 0, amax(t)) : a->alpha();
	chk_near(r->alpha(), aa, eps * amax(t), "alpha");
}
// HSV colors are combined as vectors of the hue-saturation plane and their values
static const double RAD = 3.14159265358979323846 / 180;
static float cs(float h) { return cosf(h / 180.f * (float)M_PI); }
static float sn(float h) { return sinf(h / 180.f * (float)M_PI); }
ENTRY(polar, 2)
{
	rgbdef* d = SRGB();
	int op = shard ? SUBTRACT : ADD, how = sym_choice("overload", 2); bool ia = sym_choice("alpha", 2);
	color_base* a = any(T_HSV, "a", d); color_base* b = any(T_HSV, "b", d);
	float w = sym_f32("w1", 0, 1), v = sym_f32("w2", 0, 1);
	color_base* r = call(how, op, T_HSV, a, b, w, v, ia);
	// the vectors in the library's precision, their combination is compared through angles and lengths
	float x1 = cs(C(a, 0)) * C(a, 1), y1 = sn(C(a, 0)) * C(a, 1), x2 = cs(C(b, 0)) * C(b, 1), y2 = sn(C(b, 0)) * C(b, 1);
	double x = op == ADD ? w * x1 + v * x2 : x1 - w * x2, y = op == ADD ? w * y1 + v * y2 : y1 - w * y2, p = op == ADD ? w : 1, q = op == ADD ? v : -w;
	chk(r->get_color_type() == color_type::HSV, "type");
	double h = C(r, 0), s = C(r, 1), l = sqrt(x * x + y * y);
	if (y < 0) out(1, "lower"); else out(0, "upper");
	if (h < 358.98) { chk_near(l * cos(h * RAD), x, 2e-3, "x"); chk_near(l * sin(h * RAD), y, 2e-3, "y"); }
	else { chk(y <= 0.001, "above_358"); chk(-y <= 0.02 * x + 0.001, "above_358"); }
	if (x * x + y * y > 1) chk(s >= 0.9999, "saturates");
	else chk_near(s * s, x * x + y * y, 1e-4, "saturation");
	chk_near(C(r, 2), clip(p * C(a, 2) + q * C(b, 2), 0, 1), 1e-6, "value");
	chk_near(r->alpha(), ia ? clip(p * a->alpha() + q * b->alpha(), 0, 1) : a->alpha(), 1e-6, "alpha");
	chk(r->get_rgb_color_space() == d, "space");
}
static void same_color(int t, color_base* r, color_base* x, const char* id)
{
	for (int i = 0; i < NCOMP[t]; ++i) chk_near(C(r, i), C(x, i), 1e-6 * (HI[t][i] - LO[t][i]), nm(id, "component"));
	chk_near(r->alpha(), x->alpha(), 1e-6 * amax(t), nm(id, "alpha"));
	chk(r->get_rgb_color_space() == x->get_rgb_color_space(), nm(id, "space"));
}
// a few colors of a type, the third comes from a hue close to the first
static color_base* fixed(int t, int k, float alpha, rgbdef* d)
{
	float c[4];
	for (int i = 0; i < NCOMP[t]; ++i) c[i] = LO[t][i] + (HI[t][i] - LO[t][i]) * (k == 0 ? 0.25f + 0.125f * i : k == 1 ? 0.75f - 0.1875f * i : i ? 0.3f : 0.01f);
	return build(t, c, alpha, d);
}
// the other polar models go through HSV, the ones derived from CIE XYZ through XYZ
static const int VIA[6] = { T_HSI, T_HSL, T_HCY, T_LAB, T_LCHAB, T_LCHUV };
ENTRY(via, 36)
{
	rgbdef* d = SRGB();
	int t = VIA[shard % 6], k = shard / 6 % 3, op = shard / 18 ? SUBTRACT : ADD, m = t == T_HSI || t == T_HSL || t == T_HCY ? T_HSV : T_XYZ;
	int how = sym_choice("overload", 2); bool ia = sym_choice("alpha", 2), swap = sym_choice("swap", 2);
	color_base* a = any(t, "a", d); color_base* b = fixed(t, k, sym_f32("bA", 0, amax(t)), d);
	if (swap) { color_base* z = a; a = b; b = z; }
	float w = sym_f32("w1", 0, 1), v = sym_f32("w2", 0, 1);
	color_base* x = CC::convertTo(typed(op, m, CC::convertTo(a, TY[m]), CC::convertTo(b, TY[m]), w, v, ia), TY[t]);
	color_base* r = call(how, op, t, a, b, w, v, ia);
	chk(r->get_color_type() == TY[t], "type");
	same_color(t, r, x, "");
}
// a second color of another type is converted to the type of the first
ENTRY(mixed, 30)
{
	rgbdef* d = SRGB();
	int t = shard % 15, op = shard / 15 ? SUBTRACT : ADD, u = sym_choice("type", NT), k = (t + u) % 3; bool ia = sym_choice("alpha", 2), linear = t <= T_CMYK || t == T_HSV || t == T_XYZ || t == T_XYY || t == T_LUV;
	color_base* a = linear ? any(t, "a", d) : fixed(t, 1, sym_f32("aA", 0, amax(t)), d); color_base* b = fixed(u, k, sym_f32("bA", 0, amax(u)), (t + u) & 1 ? rgb_color_space_definition_presets().adobeRGB() : d);
	float w = sym_f32("w1", 0, 1), v = sym_f32("w2", 0, 1);
	color_base* x = typed(op, t, a, CC::convertTo(b, TY[t]), w, v, ia);
	color_base* r = based(op, a, b, w, v, ia);
	chk(r->get_color_type() == TY[t], "type"); chk(r->get_rgb_color_space() == d, "space");
	same_color(t, r, x, "");
}
// the operands stay as they are
ENTRY(operands, 30)
{
	rgbdef* d = SRGB();
	int t = shard % 15, op = shard / 15 ? SUBTRACT : ADD, swap = sym_choice("swap", 2), k = t % 3, how = sym_choice("overload", 2); bool ia = sym_choice("alpha", 2);
	color_base* a = any(t, "a", d); color_base* b = fixed(t, k, sym_f32("bA", 0, amax(t)), d);
	float x[4], y[4], xa = a->alpha(), ya = b->alpha();
	for (int i = 0; i < NCOMP[t]; ++i) { x[i] = C(a, i); y[i] = C(b, i); }
	float w = sym_f32("w1", 0, 1), v = sym_f32("w2", 0, 1);
	color_base* r = swap ? call(how, op, t, b, a, w, v, ia) : call(how, op, t, a, b, w, v, ia);
	chk(r != a, "distinct"); chk(r != b, "distinct");
	for (int i = 0; i < NCOMP[t]; ++i) { chk_near(C(a, i), x[i], 0, "first"); chk_near(C(b, i), y[i], 0, "second"); }
	chk_near(a->alpha(), xa, 0, "alpha"); chk_near(b->alpha(), ya, 0, "alpha");
	chk(a->get_color_type() == TY[t], "type"); chk(b->get_color_type() == TY[t], "type");
}
// one object as both operands acts like two equal ones
ENTRY(same_object, 30)
{
	rgbdef* d = SRGB();
	int t = shard % 15, op = shard / 15 ? SUBTRACT : ADD, how = sym_choice("overload", 2); bool ia = sym_choice("alpha", 2), fix = t > T_CMYK && t != T_HSV && t != T_XYZ && t != T_XYY && t != T_LUV;
	float x[4]; for (int i = 0; i < NCOMP[t]; ++i) x[i] = fix ? LO[t][i] + (HI[t][i] - LO[t][i]) * (0.25f + 0.125f * i) : sym_f32(nm("a", CN[i]), LO[t][i], HI[t][i]);
	float al = sym_f32("aA", 0, amax(t)), w = sym_f32("w1", 0, 1), v = sym_f32("w2", 0, 1);
	color_base *a = build(t, x, al, d), *b = build(t, x, al, d);
	color_base *r = call(how, op, t, a, a, w, v, ia), *e = call(how, op, t, a, b, w, v, ia);
	chk(r != a, "distinct");
	same_color(t, r, e, ""); same_color(t, a, b, "operand");
}
// operands changed in place since their last use
ENTRY(after_change, 30)
{
	int t = shard % 15, op = shard / 15 ? SUBTRACT : ADD; float w = sym_f32("w", 0, 1), v = 0.375f;
	after_change(t, t, t <= T_CMYK, [&](color_base* a, color_base* b) { return call(0, op, t, a, b, w, v, true); });
}
