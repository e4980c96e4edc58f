// History before every check: each family of operations is used once with other colors, spaces, white points, curves and
// parameters, so that anything the code remembers from an earlier call is in place when the property is decided.
#pragma once
#include "manipulation/color_calculation.h"
#include "manipulation/color_blend.h"
#include "manipulation/porter_duff.h"
#include "manipulation/color_distance.h"
#include "manipulation/chromatic_adaptation.h"
#include "manipulation/color_combinations.h"
#include "manipulation/color_adjustments.h"
static const float WARM[2][4] = { { 0.31f, 0.62f, 0.17f, 0.23f }, { 0.71f, 0.28f, 0.54f, 0.11f } };
static inline color_base* warm_color(int t, int k, rgbdef* d)
{
	float c[4]; for (int i = 0; i < NCOMP[t]; ++i) c[i] = LO[t][i] + (HI[t][i] - LO[t][i]) * WARM[k][i];
	if (t == T_XYZ || t == T_XYY) for (int i = 0; i < 3; ++i) c[i] = WARM[k][i];
	return build(t, c, amax(t) * (k ? 0.4f : 0.8f), d);
}
static inline void warm_conversions(rgbdef* d)
{
	for (int s = 0; s < NT; ++s) { color_base* a = warm_color(s, s & 1, d); for (int t = 0; t < NT; ++t) CC::convertTo(a, TY[t]); }
}
static inline void warm_pairs(rgbdef* d)
{
	typedef color_base* (*op)(color_base*, color_base*);
	typedef color_base* (*bop)(color_base*, color_base*, bool, bool);
	typedef color_blend B; typedef porter_duff P;
	static const op pd[] = { P::src, P::dest, P::atop, P::dest_atop, P::over, P::dest_over, P::in, P::dest_in, P::out, P::dest_out, P::x_or, P::clear };
	static const bop bl[] = { B::normal, B::multiply, B::screen, B::overlay, B::darken, B::lighten, B::color_dodge, B::linear_dodge, B::color_burn, B::linear_burn, B::hard_light,
		B::soft_light, B::vivid_light, B::linear_light, B::pin_light, B::hard_mix, B::difference, B::subtract, B::divide, B::plus_lighter, B::plus_darker, B::exclusion, B::hue, B::saturation, B::color, B::luminosity };
	color_base *a = warm_color(T_TRUE, 0, d), *b = warm_color(T_TRUE, 1, d);
	for (op f : pd) f(a, b);
	for (bop f : bl) f(a, b, true, true);
	B::multiply(a, b, false, true); B::screen(a, b, true, false);
	for (int t = 0; t < NT; ++t) {
		color_base *x = warm_color(t, 0, d), *y = warm_color(t, 1, d);
		color_calculation::add(x, y, 0.9f, 0.7f, true); color_calculation::subtract(x, y, 0.6f, true); color_calculation::mix(x, y, 0.85f, true); color_calculation::mix(y, x, 0.1f, false);
	}
	color_distance::euclidean_distance(a, b); color_distance::euclidean_distance(a, b, color_type::LAB); color_distance::euclidean_distance_weighted(a, b); color_distance::cielab_delta_e_cie76(a, b);
	color_distance::cielab_delta_e_cie94(a, b, 2, 0.048f, 0.014f, 3, 4); color_distance::cielab_delta_e_cie94(b, a); color_distance::cielab_delta_e_cie00(a, b, 2, 3, 4); color_distance::cmc_delta_e_lc84(a, b, 3, 4); color_distance::cmc_delta_e_lc84(b, a, 1, 1);
}
static inline void warm_single(rgbdef* d)
{
	typedef color_combinations M; typedef color_adjustments J;
	for (int t : { T_TRUE, T_HSL, T_LAB }) {
		color_base* a = warm_color(t, 1, d);
		M::create_complimentary(a); M::create_triplet(a); M::create_quartet(a); M::create_quintet(a); M::create_combination(a, 7); M::create_analogous(a, 17); M::create_complimentary_split(a, 23);
		M::create_monochromatic(a, 0, 0.37f, 3); M::create_monochromatic(a, 1, 0.21f, 4); M::create_monochromatic(a, 2, 0.11f, 2);
		J::saturate_in_rgb_space(a, 0.63f); J::saturate_in_hsl_space(a, 1.4f); J::luminate_in_rgb_space(a, 0.77f); J::luminate_in_hsl_space(a, 0.58f);
	}
}
static inline void warm_adapt(rgbdef* d, white_point* w)
{
	typedef chromatic_adaptation A;
	color_base* a = warm_color(T_XYZ, 0, d);
	A::von_kries_adaptation(a, w); A::bradford_adaptation(a, w); A::bradford_adaptation_simplified(a, w); A::xyz_scale_adaptation(a, w); A::sharp_adaptation(a, w); A::cmccat97_adaptation_simplified(a, w);
	A::cmccat97_adaptation(a, w, 0.9f, 37); A::cmccat2000_adaptation_simplified(a, w); A::cmccat2000_adaptation(a, w, 0.8f, 41); A::cat02_adaptation_simplified(a, w); A::cat02_adaptation(a, w, 0.7f, 53);
}
static inline rgbdef* warm_space() { rgbdef* d = rgb_color_space_definition_presets().ProPhotoRGB(); d->set_white_point(white_point_presets().A_2Degree()); return d; }
static inline void warm_values(rgbdef* d)
{
	rgb_truecolor a(std::string("#8040C0"), d), b(std::string("20fFa003"), d), c((int)0x7f123456, d);
	predefined_color p((HexcodeColors)0xFF008080, d);
	matrix<float> m(3, 3, std::vector<float>{ 2, 1, 0, 0, 3, 1, 1, 0, 4 }), n(2, 2, std::vector<float>{ 2, 1, 1, 3 });
	m.determinante(); m.invert(); m.transpose(); m.adjoint(); n.determinante(); n.invert(); m * m; m + m; m - m; m * 3.f;
	for (int i = 0; i < 6; ++i) { float x = 0.17f * i; d->get_gamma_curve()->gamma_correction(x); d->get_gamma_curve()->inverse_gamma_correction(x); }
	white_point w(0.4f, 0.3f), v(0.9f, 1.f, 0.4f); w.get_tristimulus(); v.get_chromaticity_coordinate();
}
extern "C" { int n_warm = 8; }
extern "C" void warm(int k)
{
	rgbdef* d = k == 7 ? SRGB() : warm_space();
	switch (k) {
	case 0: warm_values(d); break;
	case 1: warm_conversions(d); break;
	case 2: warm_pairs(d); break;
	case 3: warm_single(d); break;
	case 4: warm_adapt(d, white_point_presets().D75_2Degree()); break;
	case 5: d = rgb_color_space_definition_presets().adobeRGB(); warm_conversions(d); break;
	case 6: warm_adapt(rgb_color_space_definition_presets().adobeRGB(), white_point_presets().A_2Degree()); break;
	default: d->set_white_point(white_point_presets().B_2Degree()); warm_conversions(d); break;
	}
}
