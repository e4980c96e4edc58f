// Shared harness helpers. Only the public API of ColorMagic is used.
#pragma once
#include "sym.h"
#include "utils/colors.h"
#include "utils/matrix.h"
#include "manipulation/color_converter.h"
#include <cmath>
#include <array>
#include <string>
#include <vector>
#include <stdexcept>
#include <exception>
using namespace color_space; using namespace color_manipulation;
typedef rgb_color_space_definition rgbdef;
typedef color_converter CC;
static const int NT = 15;
static const color_type TY[NT] = { color_type::RGB_TRUE, color_type::RGB_DEEP, color_type::GREY_TRUE, color_type::GREY_DEEP, color_type::CMYK, color_type::HSI, color_type::HSV,
	color_type::HSL, color_type::HCY, color_type::XYZ, color_type::XYY, color_type::CIELUV, color_type::LAB, color_type::LCH_AB, color_type::LCH_UV };
enum { T_TRUE, T_DEEP, T_GT, T_GD, T_CMYK, T_HSI, T_HSV, T_HSL, T_HCY, T_XYZ, T_XYY, T_LUV, T_LAB, T_LCHAB, T_LCHUV };
static const int NCOMP[NT] = { 3, 3, 1, 1, 4, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3 };
static const float LO[NT][4] = { {0,0,0}, {0,0,0}, {0}, {0}, {0,0,0,0}, {0,0,0}, {0,0,0}, {0,0,0}, {0,0,0}, {0,0,0}, {0,0,0}, {0,-100,-100}, {0,-128,-128}, {0,0,0}, {0,0,0} };
static const float HI[NT][4] = { {255,255,255}, {1,1,1}, {255}, {1}, {1,1,1,1}, {359,1,1}, {359,1,1}, {359,1,1}, {359,1,1}, {100,100,100}, {100,100,100}, {100,100,100}, {100,128,128}, {100,100,359}, {100,100,359} };
static inline bool is255(int t) { return t == T_TRUE || t == T_GT; }
static inline float amax(int t) { return is255(t) ? 255.f : 1.f; }
static inline int tindex(color_type t) { for (int i = 0; i < NT; ++i) if (TY[i] == t) return i; return -1; }
// names: "<prefix><suffix>"
struct nm { char s[24]; nm(const char* p, const char* q) { int k = 0; while (*p && k < 15) s[k++] = *p++; while (*q && k < 22) s[k++] = *q++; s[k] = 0; } operator const char*() const { return s; } };
static const char* const CN[4] = { "0", "1", "2", "3" };
// a color of type t from explicit components (runs the library's constructor)
static inline color_base* build(int t, const float* c, float a, rgbdef* d)
{
	switch (t) {
	case T_TRUE: return new rgb_truecolor(c[0], c[1], c[2], a, d);
	case T_DEEP: return new rgb_deepcolor(c[0], c[1], c[2], a, d);
	case T_GT: return new grey_truecolor(c[0], a, d);
	case T_GD: return new grey_deepcolor(c[0], a, d);
	case T_CMYK: return new cmyk(c[0], c[1], c[2], c[3], a, d);
	case T_HSI: return new hsi(c[0], c[1], c[2], a, d);
	case T_HSV: return new hsv(c[0], c[1], c[2], a, d);
	case T_HSL: return new hsl(c[0], c[1], c[2], a, d);
	case T_HCY: return new hcy(c[0], c[1], c[2], a, d);
	case T_XYZ: return new xyz(c[0], c[1], c[2], a, d);
	case T_XYY: return new xyy(c[0], c[1], c[2], a, d);
	case T_LUV: return new cieluv(c[0], c[1], c[2], a, d);
	case T_LAB: return new lab(c[0], c[1], c[2], a, d);
	case T_LCHAB: return new lch_ab(c[0], c[1], c[2], a, d);
	default: return new lch_uv(c[0], c[1], c[2], a, d);
	}
}
// symbolic color with every component over its documented range
static inline color_base* any(int t, const char* p, rgbdef* d)
{
	float c[4];
	for (int i = 0; i < NCOMP[t]; ++i) c[i] = sym_f32(nm(p, CN[i]), LO[t][i], HI[t][i]);
	return build(t, c, sym_f32(nm(p, "A"), 0, amax(t)), d);
}
static inline color_base* any_a(int t, const char* p, float a, rgbdef* d)
{
	float c[4];
	for (int i = 0; i < NCOMP[t]; ++i) c[i] = sym_f32(nm(p, CN[i]), LO[t][i], HI[t][i]);
	return build(t, c, a, d);
}
// symbolic color with arbitrary bit patterns (NaN, infinities, denormals, huge)
static inline color_base* wild(int t, const char* p, rgbdef* d)
{
	float c[4];
	for (int i = 0; i < NCOMP[t]; ++i) c[i] = sym_f32_any(nm(p, CN[i]));
	return build(t, c, sym_f32_any(nm(p, "A")), d);
}
static inline float C(color_base* c, int i) { return c->get_component(i); }
static inline void in_range(color_base* c, int t, const char* id)
{
	chk(c->get_color_type() == TY[t], nm(id, ".type"));
	std::vector<float> v = c->get_component_vector();
	chk((int)v.size() == NCOMP[t], nm(id, ".size"));
	for (int i = 0; i < NCOMP[t]; ++i) chk_range(v[i], LO[t][i], HI[t][i], nm(id, CN[i]));
	chk_range(c->alpha(), 0, amax(t), nm(id, ".alpha"));
}
static inline rgbdef* SRGB() { return rgb_color_space_definition_presets().sRGB(); }
// 1 pointer exception, 2 value exception, 0 none
template <class F> static inline int throws(F f)
{
	try { f(); }
	catch (std::exception* e) { return 1; }
	catch (std::exception& e) { return 2; }
	return 0;
}
// conversion by name
static inline color_base* named(int t, color_base* c)
{
	switch (t) {
	case T_TRUE: return CC::to_rgb_true(c);
	case T_DEEP: return CC::to_rgb_deep(c);
	case T_GT: return CC::to_grey_true(c);
	case T_GD: return CC::to_grey_deep(c);
	case T_CMYK: return CC::to_cmyk(c);
	case T_HSI: return CC::to_hsi(c);
	case T_HSV: return CC::to_hsv(c);
	case T_HSL: return CC::to_hsl(c);
	case T_HCY: return CC::to_hcy(c);
	case T_XYZ: return CC::to_xyz(c);
	case T_XYY: return CC::to_xyy(c);
	case T_LUV: return CC::to_cieluv(c);
	case T_LAB: return CC::to_lab(c);
	case T_LCHAB: return CC::to_lch_ab(c);
	default: return CC::to_lch_uv(c);
	}
}
#include "warm.h"
