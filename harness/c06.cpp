#include "lib.h"
static void snapshot(color_base* a, int s, std::vector<float>& v, float& al) { v = a->get_component_vector(); al = a->alpha(); }
static void unchanged(color_base* a, int s, const std::vector<float>& v, float al, rgbdef* d, const char* id)
{
	chk(a->get_color_type() == TY[s], nm(id, ".type"));
	for (int i = 0; i < NCOMP[s]; ++i) chk_same(C(a, i), v[i], nm(id, CN[i]));
	chk_same(a->alpha(), al, nm(id, ".alpha"));
	chk(a->get_rgb_color_space() == d, nm(id, ".space"));
}
ENTRY(pure, NT * NT)
{
	int s = shard / NT, t = shard % NT;
	rgbdef* d = SRGB();
	color_base* a = any(s, "a", d);
	std::vector<float> v; float al; snapshot(a, s, v, al);
	color_base* r = CC::convertTo(a, TY[t]);
	unchanged(a, s, v, al, d, "input");
	// the result does not alias the input unless the type is the same, so writing to it cannot change the input
	if (s != t) {
		chk(r != a, "fresh");
		std::vector<float> w = r->get_component_vector();
		float wl = r->alpha();
		color_base* q = CC::convertTo(a, TY[t]);
		chk(q != r, "fresh2");
		for (int i = 0; i < NCOMP[t]; ++i) chk_near(C(q, i), w[i], 1e-6 * (HI[t][i] + 1), nm("repeat", CN[i]));
		chk_near(q->alpha(), wl, 1e-6 * amax(t), "repeat_alpha");
		for (int i = 0; i < NCOMP[t]; ++i) q->set_component(0.25f, i);
		q->alpha(0.125f);
		unchanged(a, s, v, al, d, "alias");
		for (int i = 0; i < NCOMP[t]; ++i) chk_same(C(r, i), w[i], "distinct");
	}
	else unchanged(r, s, v, al, d, "identity");
}
ENTRY(dispatch, NT * NT)
{
	int s = shard / NT, t = shard % NT;
	rgbdef* d = SRGB();
	color_base* a = any(s, "a", d);
	color_base* r = CC::convertTo(a, TY[t]);
	std::vector<float> w = r->get_component_vector();
	float wl = r->alpha();
	color_base* q = named(t, a);
	chk(q->get_color_type() == TY[t], "named_type");
	for (int i = 0; i < NCOMP[t]; ++i) chk_near(C(q, i), w[i], 1e-6 * (HI[t][i] + 1), nm("named", CN[i]));
	chk_near(q->alpha(), wl, 1e-6 * amax(t), "named_alpha");
	chk(q->get_rgb_color_space() == r->get_rgb_color_space(), "named_space");
}
// after a color was changed - another space, then other components - conversion sees the new color only
ENTRY(after_change, NT * NT)
{
	int s = shard / NT, t = shard % NT;
	rgbdef *d = SRGB(), *o = rgb_color_space_definition_presets().adobeRGB();
	color_base *a = warm_color(s, 0, o), *f = warm_color(s, 0, d);
	CC::convertTo(a, TY[t]); named(t, a);
	a->set_rgb_color_space(d);
	color_base *r = CC::convertTo(a, TY[t]), *q = named(t, f), *p = named(t, a);
	for (int i = 0; i < NCOMP[t]; ++i) { chk_near(C(r, i), C(q, i), 1e-5 * (HI[t][i] + 1), nm("space", CN[i])); chk_near(C(p, i), C(q, i), 1e-5 * (HI[t][i] + 1), nm("space_named", CN[i])); }
	chk(r->get_rgb_color_space() == d && p->get_rgb_color_space() == d, "space");
	// the space object itself is changed
	rgbdef *g = SRGB(), *e = SRGB(); white_point *w0 = g->get_white_point(), *w1 = white_point_presets().A_2Degree();
	e->set_white_point(w0); g->set_white_point(w1);
	color_base *x = warm_color(s, 0, g), *y = warm_color(s, 0, e);
	CC::convertTo(x, TY[t]); named(t, x);
	g->set_white_point(w0);
	r = CC::convertTo(x, TY[t]); p = named(t, x); q = CC::convertTo(y, TY[t]);
	for (int i = 0; i < NCOMP[t]; ++i) { chk_near(C(r, i), C(q, i), 1e-5 * (HI[t][i] + 1), nm("white", CN[i])); chk_near(C(p, i), C(q, i), 1e-5 * (HI[t][i] + 1), nm("white_named", CN[i])); }
	gamma *g0 = e->get_gamma_curve(), *g1 = gamma_presets().gamma1_8();
	g->set_gamma_curve(g1); CC::convertTo(x, TY[t]); named(t, x); g->set_gamma_curve(g0);
	r = CC::convertTo(x, TY[t]); p = named(t, x);
	for (int i = 0; i < NCOMP[t]; ++i) { chk_near(C(r, i), C(q, i), 1e-5 * (HI[t][i] + 1), nm("curve", CN[i])); chk_near(C(p, i), C(q, i), 1e-5 * (HI[t][i] + 1), nm("curve_named", CN[i])); }
	color_base* b = any(s, "b", d);
	for (int i = 0; i < NCOMP[s]; ++i) a->set_component(C(b, i), i, HI[s][i], LO[s][i]);
	a->alpha(b->alpha());
	r = CC::convertTo(a, TY[t]); q = named(t, b);
	for (int i = 0; i < NCOMP[t]; ++i) chk_near(C(r, i), C(q, i), 1e-6 * (HI[t][i] + 1), nm("changed", CN[i]));
	chk_near(r->alpha(), q->alpha(), 1e-6 * amax(t), "changed_alpha");
}
