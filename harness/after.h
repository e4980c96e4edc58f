// History through the operands: objects that were used with other contents and in another space, and then changed in place,
// have to act like new objects with the same contents.
#pragma once
#include "lib.h"
static inline color_base* later(int t, const char* p, bool all, rgbdef* d)
{
	float c[4]; for (int i = 0; i < NCOMP[t]; ++i) c[i] = all ? sym_f32(nm(p, CN[i]), LO[t][i], HI[t][i]) : LO[t][i] + (HI[t][i] - LO[t][i]) * (0.375f + 0.0625f * i);
	if (!all && (t == T_XYZ || t == T_XYY)) for (int i = 0; i < 3; ++i) c[i] /= 100;
	return build(t, c, is255(t) ? 255.f : sym_f32(nm(p, "A"), 0, 1), d);
}
static inline void become(color_base* a, color_base* x, int t)
{
	for (int i = 0; i < NCOMP[t]; ++i) a->set_component(C(x, i), i, HI[t][i], LO[t][i]);
	a->alpha(x->alpha());
	a->set_rgb_color_space(x->get_rgb_color_space());
}
static inline void like(color_base* r, color_base* q, const char* id)
{
	int t = tindex(q->get_color_type());
	chk(r->get_color_type() == q->get_color_type(), nm(id, ".type"));
	chk(r->get_rgb_color_space() == q->get_rgb_color_space() || *r->get_rgb_color_space()->get_white_point() == *q->get_rgb_color_space()->get_white_point(), nm(id, ".space"));
	if (tindex(r->get_color_type()) != t) return;
	for (int i = 0; i < NCOMP[t]; ++i) chk_near(C(r, i), C(q, i), 1e-5 * (HI[t][i] - LO[t][i]), nm(id, CN[i]));
	chk_near(r->alpha(), q->alpha(), 1e-5 * amax(t), nm(id, ".alpha"));
}
static inline void like(const std::vector<color_base*>& r, const std::vector<color_base*>& q, const char* id) { chk(r.size() == q.size(), nm(id, ".n")); for (size_t i = 0; i < r.size() && i < q.size(); ++i) like(r[i], q[i], id); }
static inline void like(float r, float q, const char* id) { chk_near(r, q, 1e-5, id); }
// op of two colors of types s and t, the first one arbitrary (all) or fixed afterwards
template <class F> static inline void after_change(int s, int t, bool all, F op)
{
	rgbdef *o = rgb_color_space_definition_presets().adobeRGB(), *d = SRGB();
	color_base *a = warm_color(s, 0, o), *b = warm_color(t, 1, o);
	op(a, b); a->set_rgb_color_space(d); b->set_rgb_color_space(d); op(a, b);
	color_base *x = later(s, "a", all, d), *y = later(t, "b", false, d);
	become(b, y, t); like(op(a, b), op(warm_color(s, 0, d), y), "second");
	become(a, x, s); like(op(a, b), op(x, y), "both");
}
template <class F> static inline void after_change(int s, bool all, F op) { after_change(s, T_GD, all, [&](color_base* a, color_base*) { return op(a); }); }
// the conversions between the types of a list, in both directions
static inline void changed_conversions(int s, int t, bool all) { after_change(s, all, [&](color_base* a) { return CC::convertTo(a, TY[t]); }); }
