#include "lib.h"
static color_base* copy(int t, color_base* b)
{
	switch (t) {
	case T_TRUE: return new rgb_truecolor(*static_cast<rgb_truecolor*>(b));
	case T_DEEP: return new rgb_deepcolor(*static_cast<rgb_deepcolor*>(b));
	case T_GT: return new grey_truecolor(*static_cast<grey_truecolor*>(b));
	case T_GD: return new grey_deepcolor(*static_cast<grey_deepcolor*>(b));
	case T_CMYK: return new cmyk(*static_cast<cmyk*>(b));
	case T_HSI: return new hsi(*static_cast<hsi*>(b));
	case T_HSV: return new hsv(*static_cast<hsv*>(b));
	case T_HSL: return new hsl(*static_cast<hsl*>(b));
	case T_HCY: return new hcy(*static_cast<hcy*>(b));
	case T_XYZ: return new xyz(*static_cast<xyz*>(b));
	case T_XYY: return new xyy(*static_cast<xyy*>(b));
	case T_LUV: return new cieluv(*static_cast<cieluv*>(b));
	case T_LAB: return new lab(*static_cast<lab*>(b));
	case T_LCHAB: return new lch_ab(*static_cast<lch_ab*>(b));
	default: return new lch_uv(*static_cast<lch_uv*>(b));
	}
}
static color_base* from_base(int t, const color_base& b)
{
	switch (t) {
	case T_TRUE: return new rgb_truecolor(b);
	case T_DEEP: return new rgb_deepcolor(b);
	case T_GT: return new grey_truecolor(b);
	case T_GD: return new grey_deepcolor(b);
	case T_CMYK: return new cmyk(b);
	case T_HSI: return new hsi(b);
	case T_HSV: return new hsv(b);
	case T_HSL: return new hsl(b);
	case T_HCY: return new hcy(b);
	case T_XYZ: return new xyz(b);
	case T_XYY: return new xyy(b);
	case T_LUV: return new cieluv(b);
	case T_LAB: return new lab(b);
	case T_LCHAB: return new lch_ab(b);
	default: return new lch_uv(b);
	}
}
static void assign(int t, color_base* a, color_base* b)
{
	switch (t) {
	case T_TRUE: *static_cast<rgb_truecolor*>(a) = *static_cast<rgb_truecolor*>(b); break;
	case T_DEEP: *static_cast<rgb_deepcolor*>(a) = *static_cast<rgb_deepcolor*>(b); break;
	case T_GT: *static_cast<grey_truecolor*>(a) = *static_cast<grey_truecolor*>(b); break;
	case T_GD: *static_cast<grey_deepcolor*>(a) = *static_cast<grey_deepcolor*>(b); break;
	case T_CMYK: *static_cast<cmyk*>(a) = *static_cast<cmyk*>(b); break;
	case T_HSI: *static_cast<hsi*>(a) = *static_cast<hsi*>(b); break;
	case T_HSV: *static_cast<hsv*>(a) = *static_cast<hsv*>(b); break;
	case T_HSL: *static_cast<hsl*>(a) = *static_cast<hsl*>(b); break;
	case T_HCY: *static_cast<hcy*>(a) = *static_cast<hcy*>(b); break;
	case T_XYZ: *static_cast<xyz*>(a) = *static_cast<xyz*>(b); break;
	case T_XYY: *static_cast<xyy*>(a) = *static_cast<xyy*>(b); break;
	case T_LUV: *static_cast<cieluv*>(a) = *static_cast<cieluv*>(b); break;
	case T_LAB: *static_cast<lab*>(a) = *static_cast<lab*>(b); break;
	case T_LCHAB: *static_cast<lch_ab*>(a) = *static_cast<lch_ab*>(b); break;
	default: *static_cast<lch_uv*>(a) = *static_cast<lch_uv*>(b); break;
	}
}
static void same(color_base* a, color_base* b, int t, const char* id)
{
	chk(a->get_color_type() == TY[t], nm(id, ".type"));
	std::vector<float> x = a->get_component_vector(), y = b->get_component_vector();
	chk((int)x.size() == NCOMP[t] && (int)y.size() == NCOMP[t], nm(id, ".size"));
	for (int i = 0; i < NCOMP[t]; ++i) chk_same(x[i], y[i], nm(id, CN[i]));
}
ENTRY(copy, NT)
{
	rgbdef d;
	color_base* a = any(shard, "a", &d);
	color_base* b = copy(shard, a);
	same(b, a, shard, "copy");
	chk_near(b->alpha(), a->alpha(), 1e-4 * amax(shard), "copy_alpha");
	chk(b->get_rgb_color_space() == &d, "copy_space");
	chk(b->get_component_max() == a->get_component_max() && b->get_component_min() == a->get_component_min(), "copy_limits");
	chk(*a == *b && !(*a != *b), "copy_equal");
	// the copy is independent in both directions
	std::vector<float> v = b->get_component_vector();
	float al = b->alpha();
	for (int i = 0; i < NCOMP[shard]; ++i) a->set_component(sym_f32(nm("n", CN[i]), LO[shard][0], HI[shard][0]), i);
	a->alpha(sym_f32("nA", 0, 1)); a->set_rgb_color_space(nullptr);
	for (int i = 0; i < NCOMP[shard]; ++i) chk_same(C(b, i), v[i], "independent");
	chk_same(b->alpha(), al, "independent_alpha");
	chk(b->get_rgb_color_space() == &d, "independent_space");
}
ENTRY(base_object, NT)
{
	rgbdef d;
	color_base* a = any(shard, "a", &d); color_base* b = any(shard, "b", &d);
	color_base s = *a + *b;
	color_base* r = from_base(shard, s);
	same(r, &s, shard, "sum");
	chk_near(r->alpha(), a->alpha(), 1e-4 * amax(shard), "sum_alpha");
	chk(r->get_rgb_color_space() == &d, "sum_space");
	color_base* q = from_base(shard, *a);
	same(q, a, shard, "obj");
	chk_near(q->alpha(), a->alpha(), 1e-4 * amax(shard), "obj_alpha");
	// the operands of + are untouched
	chk(*q == *a, "operand");
}
ENTRY(base_object_wrong, NT)
{
	int o = sym_choice("other", NT);
	color_base* a = any(o, "a", nullptr);
	int t = throws([&] { from_base(shard, *a); });
	chk((t != 0) == (o != shard), "throws_iff_type_differs");
	int p = throws([&] { color_base* b = any(shard, "b", nullptr); *a + *b; });
	chk((p != 0) == (o != shard), "plus_throws_iff_type_differs");
}
ENTRY(equality, NT)
{
	int o = sym_choice("other", NT);
	color_base* a = wild(shard, "a", nullptr); color_base* b = wild(o, "b", nullptr);
	bool eq = o == shard;
	if (eq) for (int i = 0; i < NCOMP[shard]; ++i) eq = eq & (C(a, i) == C(b, i));
	chk((*a == *b) == eq, "equal_iff_type_and_components");
	chk((*a != *b) == !eq, "unequal_is_negation");
	chk((*b == *a) == eq, "symmetric");
	chk(*a == *a, "reflexive");
}
ENTRY(assignment, NT)
{
	rgbdef d;
	color_base* a = any(shard, "a", &d); color_base* b = any(shard, "b", &d);
	std::vector<float> v = b->get_component_vector();
	float al = b->alpha();
	assign(shard, a, b);
	for (int i = 0; i < NCOMP[shard]; ++i) { chk_same(C(a, i), v[i], nm("assigned", CN[i])); chk_same(C(b, i), v[i], "source"); }
	chk_same(b->alpha(), al, "source_alpha");
	chk(*a == *b, "assigned_equal");
	assign(shard, a, a);
	for (int i = 0; i < NCOMP[shard]; ++i) chk_same(C(a, i), v[i], "self");
}
ENTRY(index, NT)
{
	color_base* a = any(shard, "a", nullptr);
	std::vector<float> v = a->get_component_vector();
	int i = sym_int("i", -2147483647 - 1, 2147483647);
	bool ok = i >= 0 && i < NCOMP[shard];
	float g = 0;
	int t = throws([&] { g = a->get_component(i); });
	chk((t != 0) == !ok, "get_throws_iff_out_of_range");
	if (t == 0) { bool f = false; for (int k = 0; k < NCOMP[shard]; ++k) f = f | ((i == k) & (g == v[k])); chk(f, "get_value"); }
	float w = sym_f32("w", 0, 1);
	int u = throws([&] { a->set_component(w, i); });
	chk((u != 0) == !ok, "set_throws_iff_out_of_range");
	for (int k = 0; k < NCOMP[shard]; ++k) chk(a->get_component(k) == (ok && i == k ? w : v[k]), "set_only_index");
	int q = throws([&] { a->set_component(w, i, 0.5f, 0.25f); });
	chk((q != 0) == !ok, "set2_throws_iff_out_of_range");
	for (int k = 0; k < NCOMP[shard]; ++k) chk(a->get_component(k) == (ok && i == k ? (w > 0.5f ? 0.5f : w < 0.25f ? 0.25f : w) : v[k]), "set2_only_index");
}
ENTRY(premultiply, NT)
{
	color_base* a = any(shard, "a", nullptr);
	std::vector<float> v = a->get_component_vector();
	float al = a->alpha() / amax(shard);
	a->alpha_multiply();
	for (int i = 0; i < NCOMP[shard]; ++i) chk_near(C(a, i), (double)v[i] * al, 4e-6 * (HI[shard][i] + 1), nm("premul", CN[i]));
	chk_near(a->alpha() / amax(shard), al, 1e-6, "alpha");
	bool zero = al == 0;
	if (!zero) sym_assume(al >= 1e-3f);
	a->alpha_divide();
	for (int i = 0; i < NCOMP[shard]; ++i) {
		if (zero) chk(C(a, i) == 0, "alpha0");
		else chk_near(C(a, i), v[i], 4e-6 * (HI[shard][i] + 1), nm("roundtrip", CN[i]));
	}
}
ENTRY(index_valid, NT)
{
	color_base* a = any(shard, "a", nullptr);
	std::vector<float> v = a->get_component_vector();
	int i = sym_choice("i", NCOMP[shard]);
	chk_same(a->get_component(i), v[i], "get_value");
	float w = sym_f32("w", LO[shard][0], 1);
	a->set_component(w, i);
	for (int k = 0; k < NCOMP[shard]; ++k) chk_same(a->get_component(k), i == k ? w : v[k], "set_value");
}
