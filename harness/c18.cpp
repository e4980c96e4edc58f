#include "lib.h"
#include "after.h"
#include "manipulation/porter_duff.h"
typedef porter_duff PD;
typedef color_base* (*op_t)(color_base*, color_base*);
static color_base* run(int op, color_base* s, color_base* d)
{
	switch (op) {
	case 0: return PD::src(s, d);
	case 1: return PD::dest(s, d);
	case 2: return PD::atop(s, d);
	case 3: return PD::dest_atop(s, d);
	case 4: return PD::over(s, d);
	case 5: return PD::dest_over(s, d);
	case 6: return PD::in(s, d);
	case 7: return PD::dest_in(s, d);
	case 8: return PD::out(s, d);
	case 9: return PD::dest_out(s, d);
	case 10: return PD::x_or(s, d);
	default: return PD::clear(s, d);
	}
}
// which regions of the pixel are painted, and by which color the shared one (0 nothing, 1 source, 2 destination)
static const int K[12][3] = { {1,0,1}, {0,1,2}, {0,1,1}, {1,0,2}, {1,1,1}, {1,1,2}, {0,0,1}, {0,0,2}, {1,0,0}, {0,1,0}, {1,1,0}, {0,0,0} };
static double alpha_of(int op, double sa, double da)
{
	double a = 0;
	if (K[op][0]) a += sa * (1 - da);
	if (K[op][1]) a += da * (1 - sa);
	if (K[op][2]) a += sa * da;
	return a;
}
static double sum_of(int op, double sa, double da, double s, double d)
{
	double v = 0;
	if (K[op][0]) v += sa * (1 - da) * s;
	if (K[op][1]) v += da * (1 - sa) * d;
	if (K[op][2]) v += sa * da * (K[op][2] == 1 ? s : d);
	return v;
}
// the Porter-Duff equation for deep colors
ENTRY(equation, 12)
{
	rgbdef* d = SRGB();
	color_base* s = any(T_DEEP, "s", d); color_base* t = any(T_DEEP, "d", d);
	double sa = s->alpha(), da = t->alpha();
	color_base* r = run(shard, s, t);
	in_range(r, T_DEEP, "range");
	double a = alpha_of(shard, sa, da);
	chk_near(r->alpha(), a, 1e-6, "alpha");
	if (r->alpha() >= 0.004f) for (int i = 0; i < 3; ++i)
		chk_near(C(r, i), sum_of(shard, sa, da, C(s, i), C(t, i)) / a, 1e-4, "component");
	chk(r->get_rgb_color_space() == d, "space");
}
// operands stay as they were, for every type and operator
ENTRY(pure, 12)
{
	rgbdef* d = SRGB();
	static const int ST[5] = { T_TRUE, T_DEEP, T_GT, T_GD, T_CMYK };
	int t = ST[sym_choice("ts", 5)], u = sym_choice("td", 2);
	color_base* s = any(t, "s", d); color_base* x = any(u, "d", d);
	float a[4], b[4]; float sa = s->alpha(), xa = x->alpha();
	for (int i = 0; i < NCOMP[t]; ++i) a[i] = C(s, i);
	for (int i = 0; i < NCOMP[u]; ++i) b[i] = C(x, i);
	color_base* r = run(shard, s, x);
	in_range(r, t, "range");
	chk(r->get_rgb_color_space() == d, "space");
	chk(r != s && r != x, "new_color");
	for (int i = 0; i < NCOMP[t]; ++i) chk_near(C(s, i), a[i], 0, "source");
	for (int i = 0; i < NCOMP[u]; ++i) chk_near(C(x, i), b[i], 0, "destination");
	chk_near(s->alpha(), sa, 0, "source_alpha"); chk_near(x->alpha(), xa, 0, "destination_alpha");
}
// operands of any type: the operator acts on their deep form and returns the source's type
ENTRY(types, 15)
{
	rgbdef* d = SRGB();
	int u = shard >= T_XYZ ? T_DEEP : (shard * 7 + 3) % T_XYZ, op = shard >= T_XYZ ? 4 : shard >= T_HSI ? 4 + 2 * sym_choice("op", 4) : sym_choice("op", 12);
	color_base* s = any(shard, "s", d); color_base* x = any(u, "d", d);
	color_base* r = run(op, s, x);
	color_base* e = CC::convertTo(run(op, CC::to_rgb_deep(s), CC::to_rgb_deep(x)), TY[shard]);
	chk(r->get_color_type() == TY[shard], "type");
	for (int i = 0; i < NCOMP[shard]; ++i) chk_near(C(r, i), C(e, i), 1e-6 * HI[shard][i], "component");
	chk_near(r->alpha(), e->alpha(), 1e-6 * amax(shard), "alpha");
}
ENTRY(reject, 12)
{
	rgbdef* d = SRGB(); rgbdef* o = SRGB();
	int t = sym_choice("t", NT), k = sym_choice("k", 4);
	color_base* s = any(t, "s", d); color_base* x = any(T_DEEP, "d", k == 2 ? o : k == 3 ? nullptr : d);
	chk(throws([&] { run(shard, k == 0 ? nullptr : s, k == 1 ? nullptr : x); }) == 1, "rejected");
}
// one object as source and destination acts like two equal ones
ENTRY(same_object, 12)
{
	rgbdef* d = SRGB();
	color_base* s = any(T_DEEP, "s", d); rgb_deepcolor c(C(s, 0), C(s, 1), C(s, 2), s->alpha(), d);
	double sa = s->alpha(); color_base *r = run(shard, s, s), *e = run(shard, s, &c);
	chk(r != s, "new_color");
	chk_near(r->alpha(), alpha_of(shard, sa, sa), 1e-6, "alpha");
	for (int i = 0; i < 3; ++i) { chk_near(C(r, i), C(e, i), 1e-6, "component"); chk_near(C(s, i), C(&c, i), 0, "operand"); }
	chk_near(s->alpha(), sa, 0, "operand_alpha");
}
// operands changed in place since their last use
static const int OTHERS[12] = { T_TRUE, T_GT, T_GD, T_CMYK, T_HSI, T_HSV, T_HSL, T_HCY, T_XYZ, T_LUV, T_LAB, T_LCHUV };
ENTRY(after_change, 24) { int t = shard < 12 ? T_DEEP : OTHERS[shard - 12]; after_change(t, t, false, [&](color_base* a, color_base* b) { return run(shard % 12, a, b); }); }
