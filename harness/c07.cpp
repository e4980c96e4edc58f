#include "lib.h"
// The conversion graph is a tree: every type is defined relative to one neighbour (Lab and Luv polar forms to Lab and Luv,
// xyY, Lab and Luv to XYZ, the RGB family to deep color) and deep color and XYZ are linked by the RGB space.
static int up(int t)
{
	switch (t) { case T_LCHAB: return T_LAB; case T_LCHUV: return T_LUV; case T_LAB: case T_LUV: case T_XYY: return T_XYZ; case T_XYZ: return T_DEEP; default: return t == T_DEEP ? -1 : T_DEEP; }
}
static std::vector<int> way(int s, int t)
{
	std::vector<int> a, b;
	for (int x = s; x >= 0; x = up(x)) a.push_back(x);
	for (int x = t; x >= 0; x = up(x)) b.push_back(x);
	while (a.size() > 1 && b.size() > 1 && a[a.size() - 2] == b[b.size() - 2]) { a.pop_back(); b.pop_back(); }
	b.pop_back();
	while (!b.empty()) { a.push_back(b.back()); b.pop_back(); }
	return a;
}
static bool own_formula(int s, int t) { return (s == T_HSV && t == T_HSL) || (s == T_HSL && t == T_HSV); }
static void compare(color_base* r, color_base* q, int s, int t, const char* id)
{
	double tol = 1e-5; // of the range
	if (is255(t) && is255(s)) tol = 0.501 / 255; // the way through 0..1 rounds again
	for (int i = 0; i < NCOMP[t]; ++i) chk_near(C(r, i), C(q, i), tol * (HI[t][i] + (HI[t][i] <= 1 ? 0 : 1)), nm(id, CN[i]));
	chk_near(r->alpha(), q->alpha(), is255(t) ? 0.501 : 1e-5, nm(id, ".alpha"));
	chk(r->get_color_type() == TY[t], nm(id, ".type"));
	chk(r->get_rgb_color_space() == q->get_rgb_color_space(), nm(id, ".space"));
}
ENTRY(steps, NT * NT)
{
	int s = shard / NT, t = shard % NT;
	std::vector<int> w = way(s, t);
	if (w.size() < 3 || own_formula(s, t)) return;
	rgbdef* d = shard % 2 ? SRGB() : rgb_color_space_definition_presets().adobeRGB();
	color_base *a = any(s, "a", d), *q = a;
	for (size_t i = 1; i < w.size(); ++i) q = CC::convertTo(q, TY[w[i]]);
	compare(CC::convertTo(a, TY[t]), q, s, t, "direct");
}
