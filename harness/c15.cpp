#include "lib.h"
static void tri(white_point* w, double x, double y, double z, double tol, const char* id)
{
	std::array<float, 3> t = w->get_tristimulus();
	chk_near(t[0], x, tol, nm(id, ".X")); chk_near(t[1], y, tol, nm(id, ".Y")); chk_near(t[2], z, tol, nm(id, ".Z"));
	chk_same(w->get_tristimulus_x(), t[0], nm(id, ".gettersx")); chk_same(w->get_tristimulus_y(), t[1], nm(id, ".gettersy")); chk_same(w->get_tristimulus_z(), t[2], nm(id, ".gettersz"));
}
static void cc(white_point* w, double x, double y, double tol, const char* id)
{
	std::array<float, 3> c = w->get_chromaticity_coordinate();
	chk_near(c[0], x, tol, nm(id, ".x")); chk_near(c[1], y, tol, nm(id, ".y")); chk_near(c[2], 1 - x - y, 2 * tol, nm(id, ".z"));
	chk_same(w->get_chromaticity_x(), c[0], nm(id, ".cgettersx")); chk_same(w->get_chromaticity_y(), c[1], nm(id, ".cgettersy")); chk_same(w->get_chromaticity_z(), c[2], nm(id, ".cgettersz"));
}
// from chromaticity: luminance 1, and back
ENTRY(from_xy, 1)
{
	float x = sym_f32("x", 0, 1), y = sym_f32("y", 0.05f, 1);
	sym_assume(1.f - x - y >= 0);
	white_point w(x, y);
	cc(&w, x, y, 1e-6, "cc");
	tri(&w, (double)x / y, 1, (1.0 - x - y) / y, 4e-5, "tri");
	white_point v(w.get_tristimulus_x(), w.get_tristimulus_y(), w.get_tristimulus_z());
	cc(&v, x, y, 4e-4, "back");
}
// from tristimulus, and back (scaled to luminance 1 / to the given luminance)
ENTRY(from_xyz, 1)
{
	float X = sym_f32("X", 0, 2), Y = sym_f32("Y", 0.05f, 2), Z = sym_f32("Z", 0, 2);
	white_point w(X, Y, Z);
	double s = (double)X + Y + Z;
	tri(&w, X, Y, Z, 0, "tri");
	cc(&w, X / s, Y / s, 2e-6, "cc");
	chk_near((double)w.get_chromaticity_x() + w.get_chromaticity_y() + w.get_chromaticity_z(), 1, 2e-6, "sum");
	std::array<float, 3> t = white_point::chromaticity_coordinate_to_tristimulus(w.get_chromaticity_coordinate(), Y);
	chk_near(t[0], X, 1e-4, "back.X"); chk_near(t[1], Y, 1e-4, "back.Y"); chk_near(t[2], Z, 1e-4, "back.Z");
}
ENTRY(statics, 1)
{
	float x = sym_f32("x", 0, 1), y = sym_f32("y", 0.05f, 1), z = sym_f32("z", 0, 1), Y = sym_f32("Y", 0, 100);
	std::array<float, 3> c = { x, y, z };
	std::array<float, 3> t = white_point::chromaticity_coordinate_to_tristimulus(c, Y), u = white_point::chromaticity_coordinate_to_tristimulus(c);
	chk_near(t[0], (double)x / y * Y, 4e-3, "X"); chk_near(t[1], Y, 1e-3, "Y"); chk_near(t[2], (double)z / y * Y, 4e-3, "Z");
	chk_near(u[0], (double)x / y, 4e-5, "X1"); chk_near(u[1], 1, 1e-5, "Y1"); chk_near(u[2], (double)z / y, 4e-5, "Z1");
	std::array<float, 3> b = white_point::tristimulus_to_chromaticity_coordinate(c);
	double s = (double)x + y + z;
	chk_near(b[0], x / s, 2e-6, "x"); chk_near(b[1], y / s, 2e-6, "y"); chk_near(b[2], z / s, 2e-6, "z");
}
ENTRY(explicit_values, 1)
{
	float X = sym_f32("X", 0, 2), Y = sym_f32("Y", 0, 2), Z = sym_f32("Z", 0, 2), x = sym_f32("x", 0, 1), y = sym_f32("y", 0, 1);
	white_point w(X, Y, Z, x, y);
	tri(&w, X, Y, Z, 0, "tri"); cc(&w, x, y, 1e-6, "cc");
	std::array<float, 3> t = { X, Y, Z }; std::array<float, 2> c = { x, y };
	white_point a(t, c), k(w);
	tri(&a, X, Y, Z, 0, "arr"); cc(&a, x, y, 1e-6, "arrc");
	tri(&k, X, Y, Z, 0, "copy"); cc(&k, x, y, 1e-6, "copyc");
	chk(w == a && !(w != a) && a == k, "equal");
}
// equality is exactly equality of all coordinates; shard: the coordinate in which they differ
ENTRY(equality, 5)
{
	float v[10]; static const char* const N[10] = { "a0", "a1", "a2", "a3", "a4", "b0", "b1", "b2", "b3", "b4" };
	for (int i = 0; i < 10; ++i) v[i] = sym_f32(N[i], 0, 2);
	white_point a(v[0], v[1], v[2], v[3], v[4]), b(v[5], v[6], v[7], v[8], v[9]), c(v[0], v[1], v[2], v[3], v[4]);
	const white_point& A = a; const white_point& B = b; const white_point& K = c;
	chk(a == c && A == K && !(a != c) && !(A != K), "same");
	sym_assume(v[shard] != v[shard + 5]);
	chk(!(a == b), "eq"); chk(a != b, "ne"); chk(!(A == B), "ceq"); chk(A != B, "cne");
}
// built-in illuminants: published chromaticities, luminance 1, tristimulus and chromaticity agree
struct wp { white_point* (white_point_presets::*f)(); double x, y; };
static const int NW = 40;
static wp TAB(int i)
{
	typedef white_point_presets W;
	switch (i) {
	case 0: return { &W::A_2Degree, .44757, .40745 }; case 1: return { &W::B_2Degree, .34842, .35161 }; case 2: return { &W::C_2Degree, .31006, .31616 };
	case 3: return { &W::D50_2Degree, .34567, .35850 }; case 4: return { &W::D55_2Degree, .33242, .34743 }; case 5: return { &W::D65_2Degree, .31271, .32902 };
	case 6: return { &W::D75_2Degree, .29902, .31485 }; case 7: return { &W::E_2Degree, 1 / 3., 1 / 3. }; case 8: return { &W::F1_2Degree, .31310, .33727 };
	case 9: return { &W::F2_2Degree, .37208, .37529 }; case 10: return { &W::F3_2Degree, .40910, .39430 }; case 11: return { &W::F4_2Degree, .44018, .40329 };
	case 12: return { &W::F5_2Degree, .31379, .34531 }; case 13: return { &W::F6_2Degree, .37790, .38835 }; case 14: return { &W::F7_2Degree, .31292, .32933 };
	case 15: return { &W::F8_2Degree, .34588, .35875 }; case 16: return { &W::F9_2Degree, .37417, .37281 }; case 17: return { &W::F10_2Degree, .34609, .35986 };
	case 18: return { &W::F11_2Degree, .38052, .37713 }; case 19: return { &W::F12_2Degree, .43695, .40441 };
	case 20: return { &W::A_10Degree, .45117, .40594 }; case 21: return { &W::B_10Degree, .34980, .35270 }; case 22: return { &W::C_10Degree, .31039, .31905 };
	case 23: return { &W::D50_10Degree, .34773, .35952 }; case 24: return { &W::D55_10Degree, .33411, .34877 }; case 25: return { &W::D65_10Degree, .31382, .33100 };
	case 26: return { &W::D75_10Degree, .29968, .31740 }; case 27: return { &W::E_10Degree, 1 / 3., 1 / 3. }; case 28: return { &W::F1_10Degree, .31811, .33559 };
	case 29: return { &W::F2_10Degree, .37925, .36733 }; case 30: return { &W::F3_10Degree, .41761, .38324 }; case 31: return { &W::F4_10Degree, .44920, .39074 };
	case 32: return { &W::F5_10Degree, .31975, .34246 }; case 33: return { &W::F6_10Degree, .38660, .37847 }; case 34: return { &W::F7_10Degree, .31569, .32960 };
	case 35: return { &W::F8_10Degree, .34902, .35939 }; case 36: return { &W::F9_10Degree, .37829, .37045 }; case 37: return { &W::F10_10Degree, .35090, .35444 };
	case 38: return { &W::F11_10Degree, .38541, .37123 }; default: return { &W::F12_10Degree, .44256, .39717 };
	}
}
ENTRY(builtin, 1)
{
	wp t = TAB(sym_choice("illuminant", NW));
	white_point_presets p;
	white_point* w = (p.*t.f)();
	cc(w, t.x, t.y, 4e-4, "published");
	chk(w->get_tristimulus_y() == 1, "luminance");
	tri(w, t.x / t.y, 1, (1 - t.x - t.y) / t.y, 3e-3, "consistent");
}
// the same close to the edges of the diagram, one decade of y (Y) at a time
static const float DEC[4] = { 0.05f, 0.005f, 0.0005f, 0.00005f };
ENTRY(from_xy_low, 3)
{
	float hi = DEC[shard], lo = DEC[shard + 1], x = sym_f32("x", 0, 1), y = sym_f32("y", lo, hi);
	sym_assume(1.f - x - y >= 0);
	white_point w(x, y);
	cc(&w, x, y, 1e-6, "cc");
	tri(&w, (double)x / y, 1, (1.0 - x - y) / y, 2e-6 / lo, "tri");
}
ENTRY(from_xyz_low, 3)
{
	float hi = DEC[shard], lo = DEC[shard + 1], X = sym_f32("X", 0, 2), Y = sym_f32("Y", lo, hi), Z = sym_f32("Z", 0, 2);
	white_point w(X, Y, Z);
	double s = (double)X + Y + Z;
	tri(&w, X, Y, Z, 0, "tri");
	cc(&w, X / s, Y / s, 2e-6, "cc");
}
ENTRY(statics_low, 3)
{
	float hi = DEC[shard], lo = DEC[shard + 1], x = sym_f32("x", 0, 1), y = sym_f32("y", lo, hi), z = sym_f32("z", 0, 1), Y = sym_f32("Y", 0, 1);
	std::array<float, 3> c = { x, y, z };
	std::array<float, 3> t = white_point::chromaticity_coordinate_to_tristimulus(c, Y), u = white_point::chromaticity_coordinate_to_tristimulus(c);
	chk_near(t[0], (double)x / y * Y, 2e-6 / lo, "X"); chk_near(t[1], Y, 1e-5, "Y"); chk_near(t[2], (double)z / y * Y, 2e-6 / lo, "Z");
	chk_near(u[0], (double)x / y, 2e-6 / lo, "X1"); chk_near(u[1], 1, 1e-5, "Y1"); chk_near(u[2], (double)z / y, 2e-6 / lo, "Z1");
}
// a bright source: tristimulus values up to 1000 and luminance factors up to 1000
ENTRY(bright, 1)
{
	float X = sym_f32("X", 0, 1000), Y = sym_f32("Y", 2, 1000), Z = sym_f32("Z", 0, 1000);
	white_point w(X, Y, Z); double s = (double)X + Y + Z;
	tri(&w, X, Y, Z, 0, "tri"); cc(&w, X / s, Y / s, 2e-6, "cc");
	std::array<float, 3> t = white_point::chromaticity_coordinate_to_tristimulus(w.get_chromaticity_coordinate(), Y);
	chk_near(t[0], X, 2e-2, "back.X"); chk_near(t[1], Y, 2e-2, "back.Y"); chk_near(t[2], Z, 2e-2, "back.Z");
}
