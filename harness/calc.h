#pragma once
#include "lib.h"
#include "manipulation/color_calculation.h"
typedef color_calculation K;
enum { ADD, SUBTRACT, MIX };
template <class T> static color_base* typed_op(int op, color_base* a, color_base* b, float w, float v, bool alpha)
{
	T* x = static_cast<T*>(a); T* y = static_cast<T*>(b);
	return op == ADD ? K::add(x, y, w, v, alpha) : op == SUBTRACT ? K::subtract(x, y, w, alpha) : K::mix(x, y, w, alpha);
}
// through the overload of the concrete type (both colors of type t)
static inline color_base* typed(int op, int t, color_base* a, color_base* b, float w, float v, bool alpha)
{
	switch (t) {
	case T_TRUE: return typed_op<rgb_truecolor>(op, a, b, w, v, alpha);
	case T_DEEP: return typed_op<rgb_deepcolor>(op, a, b, w, v, alpha);
	case T_GT: return typed_op<grey_truecolor>(op, a, b, w, v, alpha);
	case T_GD: return typed_op<grey_deepcolor>(op, a, b, w, v, alpha);
	case T_CMYK: return typed_op<cmyk>(op, a, b, w, v, alpha);
	case T_HSI: return typed_op<hsi>(op, a, b, w, v, alpha);
	case T_HSV: return typed_op<hsv>(op, a, b, w, v, alpha);
	case T_HSL: return typed_op<hsl>(op, a, b, w, v, alpha);
	case T_HCY: return typed_op<hcy>(op, a, b, w, v, alpha);
	case T_XYZ: return typed_op<xyz>(op, a, b, w, v, alpha);
	case T_XYY: return typed_op<xyy>(op, a, b, w, v, alpha);
	case T_LUV: return typed_op<cieluv>(op, a, b, w, v, alpha);
	case T_LAB: return typed_op<lab>(op, a, b, w, v, alpha);
	case T_LCHAB: return typed_op<lch_ab>(op, a, b, w, v, alpha);
	default: return typed_op<lch_uv>(op, a, b, w, v, alpha);
	}
}
// through the overload of the base class
static inline color_base* based(int op, color_base* a, color_base* b, float w, float v, bool alpha)
{
	return op == ADD ? K::add(a, b, w, v, alpha) : op == SUBTRACT ? K::subtract(a, b, w, alpha) : K::mix(a, b, w, alpha);
}
template <class T> static std::vector<T*> cast_all(const std::vector<color_base*>& v) { std::vector<T*> r; for (size_t i = 0; i < v.size(); ++i) r.push_back(static_cast<T*>(v[i])); return r; }
static inline color_base* average(int t, const std::vector<color_base*>& v, bool alpha)
{
	switch (t) {
	case T_TRUE: return K::average_rgb_true(cast_all<rgb_truecolor>(v), alpha);
	case T_DEEP: return K::average_rgb_deep(cast_all<rgb_deepcolor>(v), alpha);
	case T_GT: return K::average_grey_true(cast_all<grey_truecolor>(v), alpha);
	case T_GD: return K::average_grey_deep(cast_all<grey_deepcolor>(v), alpha);
	case T_CMYK: return K::average_cmyk(cast_all<cmyk>(v), alpha);
	case T_HSI: return K::average_hsi(cast_all<hsi>(v), alpha);
	case T_HSV: return K::average_hsv(cast_all<hsv>(v), alpha);
	case T_HSL: return K::average_hsl(cast_all<hsl>(v), alpha);
	case T_HCY: return K::average_hcy(cast_all<hcy>(v), alpha);
	case T_XYZ: return K::average_xyz(cast_all<xyz>(v), alpha);
	case T_XYY: return K::average_xyy(cast_all<xyy>(v), alpha);
	case T_LUV: return K::average_cieluv(cast_all<cieluv>(v), alpha);
	case T_LAB: return K::average_lab(cast_all<lab>(v), alpha);
	case T_LCHAB: return K::average_lch_ab(cast_all<lch_ab>(v), alpha);
	default: return K::average_lch_uv(cast_all<lch_uv>(v), alpha);
	}
}
static const int LIN[8] = { T_TRUE, T_DEEP, T_GT, T_GD, T_CMYK, T_XYZ, T_XYY, T_LUV };
static inline double clip(double v, double lo, double hi) { return v < lo ? lo : v > hi ? hi : v; }
