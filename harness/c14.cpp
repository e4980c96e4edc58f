#include "lib.h"
#include <cmath>
// ---- part selection -------------------------------------------------------------------------------------------
static float f0(float) { return 10; }
static float f1(float) { return 11; }
static float f2(float) { return 12; }
static std::function<float(float)> FN(int i) { return i == 0 ? f0 : i == 1 ? f1 : f2; }
// r is the output for x of a curve with parts 0..n-1 (mask: which of them are present) and borders b
static void selected(float r, float x, const float* b, int n, int mask, const char* id)
{
	bool any = false;
	for (int i = 0; i < n; ++i) if (((mask >> i) & 1) && x <= b[i]) any = true;
	if (!any) { chk_same(r, x, nm(id, ".none")); return; }
	bool ok = false;
	for (int i = 0; i < n; ++i) if (((mask >> i) & 1) && r == 10 + i)
	{
		ok = x <= b[i];
		for (int j = 0; j < n; ++j) if (((mask >> j) & 1) && x <= b[j] && b[j] < b[i]) ok = false;
	}
	chk(ok, nm(id, ".part"));
}
static const char* const BN[3] = { "b0", "b1", "b2" };
// shard: how the parts get into the curve (0 constructor, 1 add one by one, 2 set, 3 add then remove one, 4 copy, 5 assign,
// 6 constructor with an empty (null) part between, 7 set with a part without function)
static void run_parts(int how, int n)
{
	float b[3]; std::vector<gamma_part*> ps, qs;
	for (int i = 0; i < n; ++i) b[i] = sym_f32(BN[i], 0, 1);
	float x = sym_f32("x", 0, 1);
	bool inverse = sym_choice("inverse", 2) == 1;
	for (int i = 0; i < n; ++i)
	{
		ps.push_back(new gamma_part(FN(i), b[i]));
		if (how == 6 && i == 0) ps.push_back(nullptr);
		if (how == 7 && i == 0) ps.push_back(new gamma_part());
	}
	int mask = (1 << n) - 1;
	gamma* g; gamma other;
	std::vector<gamma_part*> none;
	switch (how)
	{
	case 0: case 6: g = inverse ? new gamma(none, ps) : new gamma(ps, none); break;
	case 1: case 3:
		g = new gamma();
		for (int i = 0; i < n; ++i) if (inverse) g->add_inverse_gamma_curve_part(ps[i]); else g->add_gamma_curve_part(ps[i]);
		break;
	case 2: case 7: g = new gamma(); if (inverse) g->set_inverse_gamma_curve_parts(ps); else g->set_gamma_curve_parts(ps); break;
	case 4: g = new gamma(inverse ? gamma(none, ps) : gamma(ps, none)); break;
	default: other = inverse ? gamma(none, ps) : gamma(ps, none); g = &other; break;
	}
	float r = inverse ? g->inverse_gamma_correction(x) : g->gamma_correction(x);
	selected(r, x, b, n, mask, "sel");
	// the other direction has no parts: identity
	chk_same(inverse ? g->gamma_correction(x) : g->inverse_gamma_correction(x), x, "other_direction");
	// the accessors list all parts in ascending order of the borders
	std::vector<gamma_part*> l = inverse ? g->get_inverse_gamma_curve_parts() : g->get_gamma_curve_parts();
	chk(l.size() == ps.size(), "count");
	for (size_t i = 0; i + 1 < l.size(); ++i) if (l[i] && l[i + 1]) chk(l[i]->get_upper_border() <= l[i + 1]->get_upper_border(), "order");
	for (size_t i = 0; i < ps.size(); ++i) { bool f = false; for (size_t j = 0; j < l.size(); ++j) if (l[j] == ps[i]) f = true; chk(f, "kept"); }
	if (how == 1)
	{	// moving a border and setting the function of a part is seen by the curve
		ps[0]->set_gamma_function(f2);
		chk(ps[0]->get_upper_border() == b[0], "border_kept");
		chk((inverse ? g->inverse_gamma_correction(x) : g->gamma_correction(x)) == (r == 10 ? 12 : r), "new_function");
	}
}
ENTRY(parts, 8) { run_parts(shard, 1 + sym_choice("n", 2)); }
ENTRY(parts3_thorough, 8) { run_parts(shard, 3); }
ENTRY(parts3, 1) { run_parts(0, 3); }
// parts: copies, assignment, comparison
ENTRY(part_values, 1)
{
	float a = sym_f32("a", 0, 1), b = sym_f32("b", 0, 1), x = sym_f32("x", 0, 1);
	gamma_part p(f0, a), q(f1, b), d;
	chk(d.get_upper_border() == 1 && !d.get_gamma_function(), "default");
	chk(gamma_part(f0).get_upper_border() == 1, "default_border");
	gamma_part c(p);
	chk(c.get_upper_border() == a && c.get_gamma_function()(x) == 10, "copy");
	c = q;
	chk(c.get_upper_border() == b && c.get_gamma_function()(x) == 11, "assign");
	c.set_upper_border(a); c.set_gamma_function(f0);
	chk(c.get_upper_border() == a && c.get_gamma_function()(x) == 10, "set");
	const gamma_part& P = p; const gamma_part& Q = q;
	chk((P < Q) == (a < b) && (p < q) == (a < b), "lt");
	chk((P > Q) == (a > b) && (p > q) == (a > b), "gt");
	chk((P <= Q) == (a <= b) && (p <= q) == (a <= b), "le");
	chk((P >= Q) == (a >= b) && (p >= q) == (a >= b), "ge");
}
// ---- built-in curves ------------------------------------------------------------------------------------------
static const int NCURVE = 8;
static gamma* CURVE(int i)
{
	gamma_presets p;
	switch (i) {
	case 0: return p.gamma1_8(); case 1: return p.gamma2_2(); case 2: return p.gamma2_6(); case 3: return p.gamma2_8();
	case 4: return p.sRGB(); case 5: return p.gammaAdobe(); case 6: return p.gammaRomm(); default: return p.gammaUHDTV();
	}
}
static const double EXPO[NCURVE] = { 1.8f, 2.2f, 2.6f, 2.8f, 2.4f, 2.19921875f, 1.8f, 0.45f };
// neighbourhoods of the junctions, linear side and companded side
static const double LIN0[NCURVE] = { 0, 0, 0, 0, .0031, 0, .00194, .0179 }, LIN1[NCURVE] = { 0, 0, 0, 0, .00315, 0, .00197, .0182 };
static const double ENC0[NCURVE] = { 0, 0, 0, 0, .0402, 0, .0311, .0807 }, ENC1[NCURVE] = { 0, 0, 0, 0, .0407, 0, .0315, .0816 };
// splits the path by the side of the junction: -1 below, 0 near, 1 above
static int side(float x, const double* lo, const double* hi, int i)
{
	if (hi[i] == 0) { out(1, "side"); return 1; }
	if (x < lo[i]) { out(-1, "side"); return -1; }
	if (x > hi[i]) { out(1, "side"); return 1; }
	out(0, "side"); return 0;
}
static double enc(int i, double x)
{
	switch (i) {
	case 4: return x <= .0031308 ? 12.92 * x : 1.055 * pow(x, 1 / 2.4) - .055;
	case 6: return x <= .001953 ? 16 * x : pow(x, 1 / 1.8);
	case 7: return x <= .018053968510807 ? 4.5 * x : 1.099 * pow(x, .45) - .099;
	default: return pow(x, (double)(float)(1.f / (float)EXPO[i]));
	}
}
static double dec(int i, double x)
{
	switch (i) {
	case 4: return x <= .04045 ? x / 12.92 : pow((x + .055) / 1.055, 2.4);
	case 6: return x <= .031248 ? x / 16 : pow(x, 1.8);
	case 7: return x <= .081 ? x / 4.5 : pow((x + .099) / 1.099, 1 / .45);
	default: return pow(x, EXPO[i]);
	}
}
ENTRY(formula, NCURVE * 2)
{
	int i = shard / 2; gamma* g = CURVE(i);
	float x = sym_f32("x", 0, 1);
	if (shard % 2) { side(x, ENC0, ENC1, i); chk_near(g->inverse_gamma_correction(x), dec(i, x), 1e-4, "decode"); }
	else { side(x, LIN0, LIN1, i); chk_near(g->gamma_correction(x), enc(i, x), 3e-4, "encode"); }
}
ENTRY(fixed_points, NCURVE)
{
	gamma* g = CURVE(shard);
	float z = sym_f32("z", 0, 0), o = sym_f32("o", 1, 1);
	chk_near(g->gamma_correction(z), 0, 1e-6, "encode0"); chk_near(g->inverse_gamma_correction(z), 0, 1e-6, "decode0");
	chk_near(g->gamma_correction(o), 1, 1e-6, "encode1"); chk_near(g->inverse_gamma_correction(o), 1, 1e-6, "decode1");
}
ENTRY(inverse, NCURVE * 2)
{
	int i = shard / 2; gamma* g = CURVE(i);
	float x = sym_f32("x", 0, 1);
	if (shard % 2) { side(x, ENC0, ENC1, i); chk_near(g->gamma_correction(g->inverse_gamma_correction(x)), x, i == 7 ? 4e-4 : 1e-4, "encode_decode"); }
	else { side(x, LIN0, LIN1, i); chk_near(g->inverse_gamma_correction(g->gamma_correction(x)), x, 1e-4, "decode_encode"); }
}
ENTRY(monotone, NCURVE * 2)
{
	int i = shard / 2; gamma* g = CURVE(i);
	float x = sym_f32("x", 0, 1), y = sym_f32("y", 0, 1);
	sym_assume(x <= y);
	bool d = shard % 2;
	side(x, d ? ENC0 : LIN0, d ? ENC1 : LIN1, i);
	side(y, d ? ENC0 : LIN0, d ? ENC1 : LIN1, i);
	if (d) chk(g->inverse_gamma_correction(x) <= g->inverse_gamma_correction(y) + (i == 7 ? 1e-4f : 1e-5f), "decode");
	else chk(g->gamma_correction(x) <= g->gamma_correction(y) + 1e-4f, "encode");
}
ENTRY(unit_range, NCURVE)
{
	gamma* g = CURVE(shard);
	float x = sym_f32("x", 0, 1);
	chk_range(g->gamma_correction(x), -1e-6f, 1.000001f, "encode");
	chk_range(g->inverse_gamma_correction(x), -1e-6f, 1.000001f, "decode");
}
// a curve that was used and then changed
ENTRY(after_change, 2)
{
	float b[3] = { sym_f32("b0", 0, 1), sym_f32("b1", 0, 1), .5f }, x = sym_f32("x", 0, 1);
	gamma_part *p = new gamma_part(FN(0), b[0]), *q = new gamma_part(FN(1), b[1]); std::vector<gamma_part*> none;
	bool inv = shard; gamma* g = inv ? new gamma(none, { p }) : new gamma({ p }, none);
	auto at = [&]() { return inv ? g->inverse_gamma_correction(x) : g->gamma_correction(x); };
	selected(at(), x, b, 2, 1, "one");
	if (inv) g->add_inverse_gamma_curve_part(q); else g->add_gamma_curve_part(q);
	selected(at(), x, b, 2, 3, "added");
	gamma o = inv ? gamma(none, { p, q }) : gamma({ p, q }, none); *g = o;
	selected(at(), x, b, 2, 3, "assigned");
	if (inv) g->set_inverse_gamma_curve_parts({ p }); else g->set_gamma_curve_parts({ p });
	selected(at(), x, b, 2, 1, "set");
	float r = inv ? o.inverse_gamma_correction(x) : o.gamma_correction(x); selected(r, x, b, 2, 3, "other");
}
