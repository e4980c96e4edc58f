#include "lib.h"
#include "after.h"
#include <cmath>
// a color with its second chromatic component on or off the axis; explores the quadrants separately (the library's hue branches on the sign of the angle)
static color_base* some(int t)
{
	float c[3];
	for (int i = 0; i < 3; ++i) c[i] = sym_f32(nm("a", CN[i]), LO[t][i], HI[t][i]);
	int axis = sym_choice("axis", 4);
	if (axis == 0) sym_assume(c[2] >= 1e-20f);
	else if (axis == 1) sym_assume(c[2] <= -1e-20f);
	else c[2] = axis == 2 ? 0.f : -0.f;
	if (sym_choice("left", 2)) sym_assume(c[1] <= (axis < 2 ? 0 : -1e-20f)); else sym_assume(c[1] >= 0);
	return build(t, c, sym_f32("aA", 0, amax(t)), SRGB());
}
// shard 0: Lab <-> LCH(ab), shard 1: Luv <-> LCH(uv)
static const int CART[2] = { T_LAB, T_LUV }, POL[2] = { T_LCHAB, T_LCHUV };
static const double RAD = 3.14159265358979323846 / 180;
ENTRY(to_polar, 2)
{
	color_base* a = some(CART[shard]);
	double u = C(a, 1), v = C(a, 2), r2 = u * u + v * v;
	color_base* x = CC::convertTo(a, TY[POL[shard]]);
	double ch = C(x, 1), h = C(x, 2);
	chk_near(C(x, 0), C(a, 0), 0, "lightness");
	chk(C(x, 2) >= 0 && C(x, 2) <= 359, "hue_range");
	if (r2 > 10000) { chk(C(x, 1) > 99.999f, "chroma_saturates"); }
	else {
		chk_near(ch, sqrt(r2), 1e-4, "chroma");
		if (h < 358.98) {
			chk_near(ch * cos(h * RAD), u, 2e-3, "cos");
			chk_near(ch * sin(h * RAD), v, 2e-3, "sin");
		} else {	// hues above 359 saturate at 359
			chk_near(ch * cos(h * RAD), u, 0.0176 * 100, "cos_359");
			chk_near(ch * sin(h * RAD), v, 0.0176 * 100, "sin_359");
		}
	}
	chk_near(x->alpha(), a->alpha(), 0, "alpha");
}
// the angle does not depend on the radius being saturated
ENTRY(angle, 2)
{
	color_base* a = some(CART[shard]);
	double u = C(a, 1), v = C(a, 2), r = sqrt(u * u + v * v);
	color_base* x = CC::convertTo(a, TY[POL[shard]]);
	double h = C(x, 2);
	if (h < 358.98) {
		chk_near(r * cos(h * RAD), u, 4e-3, "cos");
		chk_near(r * sin(h * RAD), v, 4e-3, "sin");
	}
}
ENTRY(from_polar, 2)
{
	color_base* a = any(POL[shard], "a", SRGB());
	color_base* x = CC::convertTo(a, TY[CART[shard]]);
	double ch = C(a, 1), h = C(a, 2);
	chk_near(C(x, 0), C(a, 0), 0, "lightness");
	chk_near(C(x, 1), ch * cos(h * RAD), 1e-3, "cos");
	chk_near(C(x, 2), ch * sin(h * RAD), 1e-3, "sin");
	chk_near(x->alpha(), a->alpha(), 0, "alpha");
}
// there and back
ENTRY(round_trip, 2)
{
	color_base* a = some(CART[shard]);
	double u = C(a, 1), v = C(a, 2), r2 = u * u + v * v;
	sym_assume(r2 <= 9990);
	color_base* p = CC::convertTo(a, TY[POL[shard]]);
	color_base* x = CC::convertTo(p, TY[CART[shard]]);
	chk_near(C(x, 0), C(a, 0), 0, "lightness");
	if (C(p, 2) < 358.98f) { chk_near(C(x, 1), u, 4e-3, "u"); chk_near(C(x, 2), v, 4e-3, "v"); }
	else { chk_near(C(x, 1), u, 1.77, "u_359"); chk_near(C(x, 2), v, 1.77, "v_359"); }
}
// operands changed in place since their last use
ENTRY(after_change, 4) { static const int S[4] = { T_LAB, T_LUV, T_LCHAB, T_LCHUV }, T[4] = { T_LCHAB, T_LCHUV, T_LAB, T_LUV }; changed_conversions(S[shard], T[shard], false); }
