#include "lib.h"
struct def { double p[6]; int white; int curve; };	// primaries, white (0 D65, 1 D50, 2 C, 3 E)
static const int ND = 20;
static rgbdef* make(int i)
{
	rgb_color_space_definition_presets p;
	switch (i) {
	case 0: return p.sRGB(); case 1: return p.adobeRGB(); case 2: return p.pal_secam(); case 3: return p.americaNTSC(); case 4: return p.oldNTSC();
	case 5: return p.appleRGB(); case 6: return p.dci_p3(); case 7: return p.uhdtv(); case 8: return p.adobeWideGammutRGB(); case 9: return p.rommRGB();
	case 10: return p.bestRGB(); case 11: return p.betaRGB(); case 12: return p.bruceRGB(); case 13: return p.colorMatchRGB(); case 14: return p.donRGB4();
	case 15: return p.ektaSpacePS5(); case 16: return p.ProPhotoRGB(); case 17: return p.SMPTE_C_RGB(); case 18: return p.cieRGB(); default: return p.cieXYZ();
	}
}
// published primaries; decoding of 1/2 by the space's curve
static const double PUB[ND][6] = {
	{ .64, .33, .30, .60, .15, .06 }, { .64, .33, .21, .71, .15, .06 }, { .64, .33, .29, .60, .15, .06 }, { .63, .34, .31, .595, .155, .07 }, { .67, .33, .21, .71, .14, .08 },
	{ .625, .34, .28, .595, .155, .07 }, { .68, .32, .265, .69, .15, .06 }, { .708, .292, .17, .797, .131, .046 }, { .735, .265, .115, .826, .157, .018 }, { .7347, .2653, .1596, .8404, .0366, .0001 },
	{ .7347, .2653, .215, .775, .13, .035 }, { .6888, .3112, .1986, .7551, .1265, .0352 }, { .64, .33, .28, .65, .15, .06 }, { .63, .34, .295, .605, .15, .075 }, { .696, .30, .215, .765, .13, .035 },
	{ .695, .305, .26, .70, .11, .005 }, { .7347, .2653, .1596, .8404, .0366, .0001 }, { .63, .34, .31, .595, .155, .07 }, { .735, .265, .274, .717, .167, .009 }, { 1, 0, 0, 1, 0, 0 } };
static const int WHITE[ND] = { 0, 0, 0, 0, 2, 0, 0, 0, 1, 1, 1, 1, 0, 1, 1, 1, 1, 0, 3, 3 };
static const double WXY[4][2] = { { .31271, .32902 }, { .34567, .35850 }, { .31006, .31616 }, { 1 / 3., 1 / 3. } };
static double half(int i)
{
	switch (i) {
	case 0: return .21404114; case 1: case 8: return pow(.5, 2.19921875); case 2: return pow(.5, 2.8); case 5: case 9: case 13: case 16: return pow(.5, 1.8);
	case 6: return pow(.5, 2.6); case 7: return pow((.5 + .099) / 1.099, 1 / .45); default: return pow(.5, 2.2);
	}
}
// the defining equations of the pair of matrices
static void equations(rgbdef* d, const double* w, double tol, const char* id)
{
	std::array<float, 3> P[3] = { d->get_red_chromaticity_coordinate(), d->get_green_chromaticity_coordinate(), d->get_blue_chromaticity_coordinate() };
	std::vector<float> m, n; { std::vector<std::vector<float>> M = d->get_transform_matrix().values(), N = d->get_inverse_transform_matrix().values(); for (auto& r : M) for (float x : r) m.push_back(x); for (auto& r : N) for (float x : r) n.push_back(x); }
	chk(m.size() == 9 && n.size() == 9, nm(id, ".size"));
	for (int r = 0; r < 3; ++r) chk_near((double)m[3 * r] + m[3 * r + 1] + m[3 * r + 2], w[r], tol, nm(id, r == 0 ? ".wX" : r == 1 ? ".wY" : ".wZ"));
	// each column is proportional to the chromaticity of its primary
	for (int c = 0; c < 3; ++c)
	{
		double s = (double)m[c] + m[3 + c] + m[6 + c];
		for (int r = 0; r < 3; ++r) chk_near(m[3 * r + c], P[c][r] * s, tol, nm(id, c == 0 ? ".red" : c == 1 ? ".green" : ".blue"));
	}
	for (int r = 0; r < 3; ++r) for (int c = 0; c < 3; ++c)
	{
		double s = 0; for (int k = 0; k < 3; ++k) s += (double)n[3 * r + k] * m[3 * k + c];
		chk_near(s, r == c, 20 * tol, nm(id, ".inv"));
	}
}
static void same(matrix<float> a, matrix<float> b, const char* id)
{
	chk(a.rows() == b.rows() && a.columns() == b.columns(), nm(id, ".shape"));
	for (int i = 0; i < a.rows() && i < b.rows(); ++i) for (int j = 0; j < a.columns() && j < b.columns(); ++j) chk_same(a(i, j), b(i, j), id);
}
ENTRY(builtin, 1)
{
	int i = sym_choice("space", ND);
	rgbdef* d = make(i);
	double p[6] = { d->get_red_x(), d->get_red_y(), d->get_green_x(), d->get_green_y(), d->get_blue_x(), d->get_blue_y() };
	for (int k = 0; k < 6; ++k) chk_near(p[k], PUB[i][k], 6e-4, "published");
	chk_near(d->get_red_z(), 1 - p[0] - p[1], 1e-6, "rz"); chk_near(d->get_green_z(), 1 - p[2] - p[3], 1e-6, "gz"); chk_near(d->get_blue_z(), 1 - p[4] - p[5], 1e-6, "bz");
	white_point* w = d->get_white_point();
	chk_near(w->get_chromaticity_x(), WXY[WHITE[i]][0], 2e-4, "white_x"); chk_near(w->get_chromaticity_y(), WXY[WHITE[i]][1], 2e-4, "white_y");
	double W[3] = { w->get_tristimulus_x(), w->get_tristimulus_y(), w->get_tristimulus_z() };
	equations(d, W, 2e-5, "eq");
	chk_near(d->get_gamma_curve()->inverse_gamma_correction(.5f), half(i), 1e-4, "curve");
}
// every white point with the primaries of the built-in spaces; also after changing the white point
ENTRY(any_white, ND)
{
	double W[3] = { sym_f32("X", 0.9f, 1.15f), 1, sym_f32("Z", 0.35f, 1.25f) };
	const double* q = PUB[shard];
	white_point* w = new white_point((float)W[0], 1, (float)W[2]);
	gamma* g = gamma_presets().gamma2_2();
	rgbdef* d;
	bool later = sym_choice("later", 2) == 1;
	if (later) { d = make(shard); d->set_white_point(w); chk(d->get_gamma_curve() != nullptr, "curve_kept"); }
	else d = new rgbdef((float)q[0], (float)q[1], (float)q[2], (float)q[3], (float)q[4], (float)q[5], w, g);
	chk(d->get_white_point() == w, "white");
	equations(d, W, 1e-4, "eq");
	// copies and the array constructor carry the same data
	rgbdef c(*d);
	same(c.get_transform_matrix(), d->get_transform_matrix(), "copy.m"); same(c.get_inverse_transform_matrix(), d->get_inverse_transform_matrix(), "copy.inv");
	chk(c.get_red_chromaticity_coordinate() == d->get_red_chromaticity_coordinate() && c.get_green_chromaticity_coordinate() == d->get_green_chromaticity_coordinate() && c.get_blue_chromaticity_coordinate() == d->get_blue_chromaticity_coordinate(), "copy.primaries");
	chk(c.get_white_point() == w && c.get_gamma_curve() == d->get_gamma_curve(), "copy_parts");
}
ENTRY(arrays, 1)
{
	float x = sym_f32("x", 0.60f, 0.70f);
	white_point* w = white_point_presets().D65_2Degree();
	gamma* g = gamma_presets().sRGB();
	std::array<float, 2> r = { x, .33f }, gr = { .3f, .6f }, b = { .15f, .06f };
	rgbdef d(r, gr, b, w, g);
	chk(d.get_red_x() == x && d.get_red_y() == .33f && d.get_green_x() == .3f && d.get_green_y() == .6f && d.get_blue_x() == .15f && d.get_blue_y() == .06f, "coordinates");
	chk_near(d.get_red_z(), 1 - (double)x - .33, 1e-6, "z");
	chk(d.get_white_point() == w && d.get_gamma_curve() == g, "parts");
	gamma* h = gamma_presets().gamma1_8();
	d.set_gamma_curve(h);
	chk(d.get_gamma_curve() == h && d.get_white_point() == w, "set_curve");
}
// primaries around the built-in ones
ENTRY(any_primary, 6)
{
	float x = sym_f32("x", -0.01f, 0.01f);
	float p[6] = { .64f, .33f, .3f, .6f, .15f, .06f };
	p[shard] += x;
	white_point* w = white_point_presets().D65_2Degree();
	rgbdef d(p[0], p[1], p[2], p[3], p[4], p[5], w, gamma_presets().sRGB());
	double W[3] = { w->get_tristimulus_x(), w->get_tristimulus_y(), w->get_tristimulus_z() };
	equations(&d, W, 1e-4, "eq");
}
// whites of another luminance
ENTRY(any_luminance, 4)
{
	static const int LUM[4] = { 0, 1, 5, 10 };
	double W[3] = { sym_f32("X", 0.73f, 0.93f), .8125, sym_f32("Z", 0.3f, 1) };
	const double* q = PUB[LUM[shard]];
	white_point* w = new white_point((float)W[0], .8125f, (float)W[2]);
	rgbdef* d;
	if (sym_choice("later", 2)) { d = make(LUM[shard]); d->set_white_point(w); }
	else d = new rgbdef((float)q[0], (float)q[1], (float)q[2], (float)q[3], (float)q[4], (float)q[5], w, gamma_presets().gamma2_2());
	equations(d, W, 1e-4, "eq");
}
// a sequence of changes: the white object itself modified and set again, another white, the first values once more; a copy changes on its own
ENTRY(changes, 4)
{
	rgbdef* d = make(shard); rgbdef* e = new rgbdef(*d);
	white_point *o = e->get_white_point(), *w = new white_point(.9375f, 1.f, .8125f);
	double O[3] = { o->get_tristimulus_x(), o->get_tristimulus_y(), o->get_tristimulus_z() }, W[3] = { sym_f32("X", 0.9f, 1.15f), 1, sym_f32("Z", 0.35f, 1.25f) };
	d->set_white_point(w);
	*w = white_point((float)W[0], 1.f, (float)W[2]); d->set_white_point(w);
	equations(d, W, 1e-4, "eq");
	chk(e->get_white_point() == o, "copy_white"); equations(e, O, 1e-4, "copy_eq");
	white_point* n = new white_point((float)O[0], (float)O[1], (float)O[2]); d->set_white_point(n);
	chk(d->get_white_point() == n, "white");
	equations(d, O, 1e-4, "back");
	matrix<float> a = d->get_transform_matrix(), b = d->get_inverse_transform_matrix();
	a += a; b.fill(0);
	equations(d, O, 1e-4, "own");
}
