#include "lib.h"
#include "after.h"
#include <cmath>
// reference hue in degrees [0,360)
static double ref_hue(double r, double g, double b, double mx, double d)
{
	double h;
	if (mx == r) { h = 60 * ((g - b) / d); if (g < b) h += 360; }
	else if (mx == g) h = 60 * ((b - r) / d + 2);
	else h = 60 * ((r - g) / d + 4);
	return h;
}
static void hue_is(double got, double want, const char* id) { chk_near(got, want > 359 ? 359 : want, 2e-3, id); }
struct rgb3 { color_base* c; double r, g, b, mx, mn, d; };
static rgb3 pick(rgbdef* def)
{
	rgb3 q;
	if (sym_choice("grey", 2) == 1) { float g = sym_f32("g", 0, 1); q.c = new rgb_deepcolor(g, g, g, 1, def); }
	else q.c = any(T_DEEP, "a", def);
	q.r = C(q.c, 0); q.g = C(q.c, 1); q.b = C(q.c, 2);
	q.mx = fmax(fmax(q.r, q.g), q.b); q.mn = fmin(fmin(q.r, q.g), q.b); q.d = q.mx - q.mn;
	return q;
}
ENTRY(hsv, 1)
{
	rgb3 q = pick(SRGB());
	color_base* x = CC::convertTo(q.c, color_type::HSV);
	chk_near(C(x, 2), q.mx, 1e-6, "value");
	if (q.d == 0) { chk(C(x, 0) == 0, "grey_hue"); chk(C(x, 1) == 0, "grey_sat"); return; }
	hue_is(C(x, 0), ref_hue(q.r, q.g, q.b, q.mx, q.d), "hue");
	chk_near((double)C(x, 1) * q.mx, q.d, 1e-6, "sat");
}
ENTRY(hsl, 1)
{
	rgb3 q = pick(SRGB());
	color_base* x = CC::convertTo(q.c, color_type::HSL);
	double l = (q.mx + q.mn) / 2;
	chk_near(C(x, 2), l, 1e-6, "lightness");
	if (q.d == 0) { chk(C(x, 0) == 0, "grey_hue"); chk(C(x, 1) == 0, "grey_sat"); return; }
	hue_is(C(x, 0), ref_hue(q.r, q.g, q.b, q.mx, q.d), "hue");
	sym_assume(q.mx >= 0.01 && q.mn <= 0.99);
	chk_near((double)C(x, 1) * (1 - fabs(2 * l - 1)), q.d, 1e-4, "sat");
}
ENTRY(hsi, 1)
{
	rgb3 q = pick(SRGB());
	color_base* x = CC::convertTo(q.c, color_type::HSI);
	double i = (q.r + q.g + q.b) / 3;
	if (q.mx != 0) sym_assume(q.mx >= 1e-4);
	chk_near(C(x, 2), i, 1e-6, "intensity");
	if (q.d == 0) { chk(C(x, 0) == 0, "grey_hue"); chk(C(x, 1) == 0, "grey_sat"); return; }
	hue_is(C(x, 0), ref_hue(q.r, q.g, q.b, q.mx, q.d), "hue");
	chk_near((double)C(x, 1) * i, i - q.mn, 1e-6, "sat");
}
ENTRY(hcy, 1)
{
	rgb3 q = pick(SRGB());
	color_base* x = CC::convertTo(q.c, color_type::HCY);
	double y = 0.2126 * q.r + 0.7152 * q.g + 0.0722 * q.b;
	chk_near(C(x, 2), y, 1e-6, "luma");
	chk_near(C(x, 1), q.d, 1e-6, "chroma");
	if (q.d == 0) { chk(C(x, 0) == 0, "grey_hue"); return; }
	hue_is(C(x, 0), ref_hue(q.r, q.g, q.b, q.mx, q.d), "hue");
}
ENTRY(cmyk, 1)
{
	rgb3 q = pick(SRGB());
	color_base* x = CC::convertTo(q.c, color_type::CMYK);
	chk_near(C(x, 3), 1 - q.mx, 1e-6, "key");
	if (q.mx == 0) { for (int i = 0; i < 3; ++i) chk(C(x, i) == 0, "black"); return; }
	sym_assume(q.mx >= 0.01);
	chk_near((double)C(x, 0) * q.mx, q.mx - q.r, 1e-4, "cyan");
	chk_near((double)C(x, 1) * q.mx, q.mx - q.g, 1e-4, "magenta");
	chk_near((double)C(x, 2) * q.mx, q.mx - q.b, 1e-4, "yellow");
}
// inverse directions against the textbook formulas, channel n in {5,3,1} / {0,8,4}
static double fhsv(double h, double s, double v, double n) { double k = n + h / 60; if (k >= 6) k -= 6; double m = fmax(0, fmin(fmin(k, 4 - k), 1)); return v - v * s * m; }
static double fhsl(double h, double s, double l, double n) { double k = n + h / 30; if (k >= 12) k -= 12; double a = s * fmin(l, 1 - l); return l - a * fmax(-1, fmin(fmin(k - 3, 9 - k), 1)); }
ENTRY(from_hsv, 1)
{
	color_base* a = any(T_HSV, "a", SRGB());
	color_base* x = CC::convertTo(a, color_type::RGB_DEEP);
	static const double n[3] = { 5, 3, 1 };
	for (int i = 0; i < 3; ++i) chk_near(C(x, i), fhsv(C(a, 0), C(a, 1), C(a, 2), n[i]), 4e-6, nm("rgb", CN[i]));
}
ENTRY(from_hsl, 1)
{
	color_base* a = any(T_HSL, "a", SRGB());
	color_base* x = CC::convertTo(a, color_type::RGB_DEEP);
	static const double n[3] = { 0, 8, 4 };
	for (int i = 0; i < 3; ++i) chk_near(C(x, i), fhsl(C(a, 0), C(a, 1), C(a, 2), n[i]), 4e-6, nm("rgb", CN[i]));
}
// hue colour of a hue in degrees: fully saturated RGB
static void pure(double h, double* o)
{
	double k = h / 60;
	o[0] = fmin(fmax(fabs(k - 3) - 1, 0), 1); o[1] = fmin(fmax(2 - fabs(k - 2), 0), 1); o[2] = fmin(fmax(2 - fabs(k - 4), 0), 1);
}
ENTRY(from_hsi, 1)
{
	color_base* a = any(T_HSI, "a", SRGB());
	color_base* x = CC::convertTo(a, color_type::RGB_DEEP);
	// r = m + c*p  with m = i(1-s) and mean i
	double p[3]; pure(C(a, 0), p);
	double s = C(a, 1), in = C(a, 2), sum = p[0] + p[1] + p[2];
	for (int i = 0; i < 3; ++i) {
		double v = in * (1 - s) + 3 * in * s * p[i] / sum;
		chk_near(C(x, i), v > 1 ? 1 : v, 2e-5, nm("rgb", CN[i]));
	}
}
ENTRY(from_hcy, 1)
{
	color_base* a = any(T_HCY, "a", SRGB());
	color_base* x = CC::convertTo(a, color_type::RGB_DEEP);
	double p[3]; pure(C(a, 0), p);
	double Y = 0.2126 * p[0] + 0.7152 * p[1] + 0.0722 * p[2];
	for (int i = 0; i < 3; ++i) {
		double v = (p[i] - Y) * C(a, 1) + C(a, 2);
		chk_near(C(x, i), v > 1 ? 1 : v < 0 ? 0 : v, 4e-6, nm("rgb", CN[i]));
	}
}
ENTRY(from_cmyk, 1)
{
	color_base* a = any(T_CMYK, "a", SRGB());
	color_base* x = CC::convertTo(a, color_type::RGB_DEEP);
	for (int i = 0; i < 3; ++i) chk_near(C(x, i), (1.0 - C(a, i)) * (1.0 - C(a, 3)), 1e-6, nm("rgb", CN[i]));
}
// HSV <-> HSL direct formulas
ENTRY(hsv_hsl, 1)
{
	color_base* a = any(T_HSV, "a", SRGB());
	double s = C(a, 1), v = C(a, 2), l = v * (1 - s / 2);
	color_base* x = CC::convertTo(a, color_type::HSL);
	chk_near(C(x, 0), C(a, 0), 1e-4, "hue");
	chk_near(C(x, 2), l, 1e-6, "lightness");
	sym_assume(l >= 0.01 && l <= 0.99);
	chk_near((double)C(x, 1) * (1 - fabs(2 * l - 1)), s * v, 1e-4, "sat");
}
ENTRY(hsl_hsv, 1)
{
	color_base* a = any(T_HSL, "a", SRGB());
	double s = C(a, 1), l = C(a, 2), v = l + s * fmin(l, 1 - l);
	color_base* x = CC::convertTo(a, color_type::HSV);
	chk_near(C(x, 0), C(a, 0), 1e-4, "hue");
	chk_near(C(x, 2), v, 1e-6, "value");
	if (v == 0) chk(C(x, 1) == 0, "black_sat");
	else { sym_assume(v >= 0.01); chk_near((double)C(x, 1) * v, 2 * (v - l), 1e-4, "sat"); }
}
// operands changed in place since their last use
ENTRY(after_change, 5) { static const int T[5] = { T_HSV, T_HSL, T_HSI, T_HCY, T_CMYK }; changed_conversions(T_DEEP, T[shard], true); changed_conversions(T[shard], T_DEEP, false); }
