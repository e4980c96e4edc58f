From a5a10fb070dc9eca5ad42960e1d9572d9deaa2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:10 +0000
Subject: [PATCH 01/38] fix: convertTo returned nullptr for LCH_AB and LCH_UV

---
 ColorMagic/manipulation/color_converter.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ColorMagic/manipulation/color_converter.cpp b/ColorMagic/manipulation/color_converter.cpp
index c1c087b..f1d28e8 100644
--- a/ColorMagic/manipulation/color_converter.cpp
+++ b/ColorMagic/manipulation/color_converter.cpp
@@ -33,6 +33,10 @@ color_space::color_base* color_manipulation::color_converter::convertTo(color_sp
 		return color_manipulation::color_converter::to_cieluv(in_color);
 	case color_type::LAB:
 		return color_manipulation::color_converter::to_lab(in_color);
+	case color_type::LCH_AB:
+		return color_manipulation::color_converter::to_lch_ab(in_color);
+	case color_type::LCH_UV:
+		return color_manipulation::color_converter::to_lch_uv(in_color);
 	default:
 		return nullptr;
 	}
-- 
2.43.0


From 0593b53ab467bd44695616e6fc4bb0e4ceaf47d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:28 +0000
Subject: [PATCH 02/38] fix: rgb_deep_to_xyz linearised the color passed by the
 caller

---
 ColorMagic/manipulation/color_converter.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ColorMagic/manipulation/color_converter.cpp b/ColorMagic/manipulation/color_converter.cpp
index f1d28e8..1a010f2 100644
--- a/ColorMagic/manipulation/color_converter.cpp
+++ b/ColorMagic/manipulation/color_converter.cpp
@@ -217,9 +217,10 @@ color_space::hcy* color_manipulation::color_converter::rgb_deep_to_hcy(color_spa
 
 color_space::xyz* color_manipulation::color_converter::rgb_deep_to_xyz(color_space::rgb_deepcolor* color)
 {
-	color->do_inverse_gamma_correction();
+	auto linear_color = *color;
+	linear_color.do_inverse_gamma_correction();
 
-	auto xyz_components = color->get_rgb_color_space()->get_transform_matrix()* color->get_component_vector();
+	auto xyz_components = color->get_rgb_color_space()->get_transform_matrix()* linear_color.get_component_vector();
 	return new color_space::xyz(xyz_components[0], xyz_components[1], xyz_components[2], color->alpha(), color->get_rgb_color_space());
 }
 
-- 
2.43.0


From 7d6a6ebd5091a0164a4ac69a38a7724c7859523d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:29 +0000
Subject: [PATCH 03/38] fix: hsl_to_rgb_deep dropped the alpha of black colors

---
 ColorMagic/manipulation/color_converter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ColorMagic/manipulation/color_converter.cpp b/ColorMagic/manipulation/color_converter.cpp
index 1a010f2..dc872d6 100644
--- a/ColorMagic/manipulation/color_converter.cpp
+++ b/ColorMagic/manipulation/color_converter.cpp
@@ -654,7 +654,7 @@ color_space::rgb_truecolor* color_manipulation::color_converter::hsl_to_rgb_true
 
 color_space::rgb_deepcolor* color_manipulation::color_converter::hsl_to_rgb_deep(color_space::hsl* color)
 {
-	if (color->lightness() == 0.f) return new color_space::rgb_deepcolor(0.f, 0.f, color->get_rgb_color_space());
+	if (color->lightness() == 0.f) return new color_space::rgb_deepcolor(0.f, color->alpha(), color->get_rgb_color_space());
 
 	/* Old not optimized version
 
-- 
2.43.0


From 293f820b5fef2a4bd3b96d699862d08571b6471d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:32 +0000
Subject: [PATCH 04/38] fix: hsl_to_hsv ignored the saturation and divided by
 zero for black

---
 ColorMagic/manipulation/color_converter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ColorMagic/manipulation/color_converter.cpp b/ColorMagic/manipulation/color_converter.cpp
index dc872d6..45969f0 100644
--- a/ColorMagic/manipulation/color_converter.cpp
+++ b/ColorMagic/manipulation/color_converter.cpp
@@ -707,9 +707,9 @@ color_space::hsi* color_manipulation::color_converter::hsl_to_hsi(color_space::h
 color_space::hsv* color_manipulation::color_converter::hsl_to_hsv(color_space::hsl* color)
 {
 	auto l_temp = color->lightness()* 2.f;
-	auto m_sat = color->saturation()* (l_temp <= 1.f) ? l_temp : (2.f - l_temp);
+	auto m_sat = color->saturation() * ((l_temp <= 1.f) ? l_temp : (2.f - l_temp));
 	auto v = (l_temp + m_sat) / 2.f;
-	auto s = (2.f* m_sat) / (l_temp + m_sat);
+	auto s = (l_temp + m_sat) > 0.f ? (2.f * m_sat) / (l_temp + m_sat) : 0.f;
 	return new color_space::hsv(color->hue(), s, v, color->alpha(), color->get_rgb_color_space());
 }
 
-- 
2.43.0


From 6933a9528e5d5df329b187a5b22e2c5bfafd2e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:53 +0000
Subject: [PATCH 05/38] fix: hsi_to_rgb_deep dropped the achromatic part of
 unsaturated colors

---
 ColorMagic/manipulation/color_converter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ColorMagic/manipulation/color_converter.cpp b/ColorMagic/manipulation/color_converter.cpp
index 45969f0..73f6240 100644
--- a/ColorMagic/manipulation/color_converter.cpp
+++ b/ColorMagic/manipulation/color_converter.cpp
@@ -478,6 +478,7 @@ color_space::rgb_deepcolor* color_manipulation::color_converter::hsi_to_rgb_deep
 	auto Z = 1.f - std::fabsf(std::fmodf(h_temp, 2.f) - 1.f);
 	auto chroma = (3.f* color->intensity()* color->saturation()) / (1.f + Z);
 	auto x = chroma * Z;
+	auto m = color->intensity() * (1.f - color->saturation());
 
 	float r_temp, g_temp, b_temp;
 	if (h_temp >= 0.f && h_temp <= 1.f) { r_temp = chroma;	g_temp = x;			b_temp = 0.f; }
@@ -488,7 +489,7 @@ color_space::rgb_deepcolor* color_manipulation::color_converter::hsi_to_rgb_deep
 	else if (h_temp > 5.f && h_temp <= 6.f) { r_temp = chroma;	g_temp = 0.f;		b_temp = x; }
 	else { r_temp = 0.f;		g_temp = 0.f;		b_temp = 0.f; }
 
-	return new color_space::rgb_deepcolor(r_temp, g_temp, b_temp, color->alpha(), color->get_rgb_color_space());
+	return new color_space::rgb_deepcolor(r_temp + m, g_temp + m, b_temp + m, color->alpha(), color->get_rgb_color_space());
 }
 
 color_space::grey_truecolor* color_manipulation::color_converter::hsi_to_grey_true(color_space::hsi* color)
-- 
2.43.0


From 64d6b6aeb4aaf04f3e27cfd85bcba46fd4425b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:10 +0000
Subject: [PATCH 06/38] fix: xyz_to_cieluv computed L from X, used a wrong v
 reference and divided by zero for black

---
 ColorMagic/manipulation/color_converter.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/ColorMagic/manipulation/color_converter.cpp b/ColorMagic/manipulation/color_converter.cpp
index 73f6240..89b1c2e 100644
--- a/ColorMagic/manipulation/color_converter.cpp
+++ b/ColorMagic/manipulation/color_converter.cpp
@@ -904,16 +904,19 @@ color_space::xyy* color_manipulation::color_converter::xyz_to_xyy(color_space::x
 
 color_space::cieluv* color_manipulation::color_converter::xyz_to_cieluv(color_space::xyz* color)
 {
-	auto y_temp = color->x() / color->get_rgb_color_space()->get_white_point()->get_tristimulus_y();
-	auto u_temp = 4.f* color->x() / (color->x() + 15.f* color->y() + 3.f* color->z());
-	auto v_temp = 9.f* color->y() / (color->x() + 15.f* color->y() + 3.f* color->z());
+	auto divisor = color->x() + 15.f* color->y() + 3.f* color->z();
+	if (divisor == 0.f) return new color_space::cieluv(0.f, 0.f, 0.f, color->alpha(), color->get_rgb_color_space());
+
+	auto y_temp = color->y() / color->get_rgb_color_space()->get_white_point()->get_tristimulus_y();
+	auto u_temp = 4.f* color->x() / divisor;
+	auto v_temp = 9.f* color->y() / divisor;
 
 	auto u_w_temp = 4.f* color->get_rgb_color_space()->get_white_point()->get_tristimulus_x() /
 		(color->get_rgb_color_space()->get_white_point()->get_tristimulus_x() +
 			15.f* color->get_rgb_color_space()->get_white_point()->get_tristimulus_y() +
 			3.f* color->get_rgb_color_space()->get_white_point()->get_tristimulus_z());
 
-	auto v_w_temp = 4.f* color->get_rgb_color_space()->get_white_point()->get_tristimulus_y() /
+	auto v_w_temp = 9.f* color->get_rgb_color_space()->get_white_point()->get_tristimulus_y() /
 		(color->get_rgb_color_space()->get_white_point()->get_tristimulus_x() +
 			15.f* color->get_rgb_color_space()->get_white_point()->get_tristimulus_y() +
 			3.f* color->get_rgb_color_space()->get_white_point()->get_tristimulus_z());
-- 
2.43.0


From 7b5f4eb2bce5b088b220e140f3fb258814cb9f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:12 +0000
Subject: [PATCH 07/38] fix: cieluv_to_xyz turned black into NaN

---
 ColorMagic/manipulation/color_converter.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ColorMagic/manipulation/color_converter.cpp b/ColorMagic/manipulation/color_converter.cpp
index 89b1c2e..63d0c8c 100644
--- a/ColorMagic/manipulation/color_converter.cpp
+++ b/ColorMagic/manipulation/color_converter.cpp
@@ -1088,6 +1088,8 @@ color_space::xyz* color_manipulation::color_converter::cieluv_to_xyz(color_space
 			15.f* color->get_rgb_color_space()->get_white_point()->get_tristimulus_y() +
 			3.f* color->get_rgb_color_space()->get_white_point()->get_tristimulus_z());
 
+	if (color->L() == 0.f) return new color_space::xyz(0.f, 0.f, 0.f, color->alpha(), color->get_rgb_color_space());
+
 	auto Y = color->L() > 903.3f* 0.008856f ? powf((color->L() + 16.f) / 116.f, 3.f) : color->L() / 903.3f;
 	auto a = 1.f / 3.f* ((52.f* color->L() / (color->u() + 13.f* color->L()* u_temp)) - 1.f);
 	auto b = -5.f* Y;
-- 
2.43.0


From 1be096b86501e7df05f32d038d61c1815d3fb081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:25 +0000
Subject: [PATCH 08/38] fix: lab_to_lch_ab returned the hue in radians and a
 rescaled chroma

---
 ColorMagic/manipulation/color_converter.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ColorMagic/manipulation/color_converter.cpp b/ColorMagic/manipulation/color_converter.cpp
index 63d0c8c..b062931 100644
--- a/ColorMagic/manipulation/color_converter.cpp
+++ b/ColorMagic/manipulation/color_converter.cpp
@@ -1198,8 +1198,7 @@ color_space::xyy* color_manipulation::color_converter::lab_to_xyy(color_space::l
 color_space::lch_ab* color_manipulation::color_converter::lab_to_lch_ab(color_space::lab* color)
 {
 	auto chroma = sqrtf(powf(color->a(), 2.f) + powf(color->b(), 2.f));
-	chroma = transform_range(chroma, color->get_component_min(), color->get_component_max(), 0.f, 100.f);
-	auto hue = atan2f(color->b(), color->a());
+	auto hue = (float)(atan2f(color->b(), color->a())* 180.f / M_PI);
 	if (hue < 0.f) hue += 360.f;
 
 	auto lch = new color_space::lch_ab(color->luminance(), chroma, hue, 0.f, color->get_rgb_color_space());
-- 
2.43.0


From bd6aa01ead035b39a3fcfe28a9c1c76d3656c494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:27 +0000
Subject: [PATCH 09/38] fix: cieluv_to_lch_uv returned the hue in radians and a
 rescaled chroma

---
 ColorMagic/manipulation/color_converter.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ColorMagic/manipulation/color_converter.cpp b/ColorMagic/manipulation/color_converter.cpp
index b062931..20c0054 100644
--- a/ColorMagic/manipulation/color_converter.cpp
+++ b/ColorMagic/manipulation/color_converter.cpp
@@ -1119,8 +1119,7 @@ color_space::lch_ab* color_manipulation::color_converter::cieluv_to_lch_ab(color
 color_space::lch_uv* color_manipulation::color_converter::cieluv_to_lch_uv(color_space::cieluv* color)
 {
 	auto chroma = sqrtf(powf(color->u(), 2.f) + powf(color->v(), 2.f));
-	chroma = transform_range(chroma, color->get_component_min(), color->get_component_max(), 0.f, 100.f);
-	auto hue = atan2f(color->v(), color->u());
+	auto hue = (float)(atan2f(color->v(), color->u())* 180.f / M_PI);
 	if (hue < 0.f) hue += 360.f;
 
 	auto lch = new color_space::lch_uv(color->L(), chroma, hue, 0.f, color->get_rgb_color_space());
-- 
2.43.0


From f907fc157d96a8a07bf62123b62c0464e1c444cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:03 +0000
Subject: [PATCH 10/38] fix: color_base constructor stored alpha values outside
 of the range 0-1

---
 ColorMagic/spaces/color_base.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ColorMagic/spaces/color_base.h b/ColorMagic/spaces/color_base.h
index 074bd2a..1d4b030 100644
--- a/ColorMagic/spaces/color_base.h
+++ b/ColorMagic/spaces/color_base.h
@@ -32,7 +32,7 @@ namespace color_space
 		*/
 		color_base(float alpha, rgb_color_space_definition* color_space, size_t component_count, float component_max = 1.f, float component_min = 0.f)
 		{
-			m_alpha = alpha;
+			m_alpha = clamp(alpha, m_a_max, m_a_min);
 			m_rgb_color_space = color_space;
 			m_max = component_max;
 			m_min = component_min;
-- 
2.43.0


From 5d1c31d71e9300099a2351915b03d373b87032e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:13 +0000
Subject: [PATCH 11/38] fix: operator+ stored the 0-255 alpha of true colors as
 0-1 alpha

---
 ColorMagic/spaces/color_base.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ColorMagic/spaces/color_base.h b/ColorMagic/spaces/color_base.h
index 1d4b030..e4c3ad7 100644
--- a/ColorMagic/spaces/color_base.h
+++ b/ColorMagic/spaces/color_base.h
@@ -172,7 +172,7 @@ namespace color_space
 		*/
 		color_base operator+(const color_base& rhs)
 		{
-			color_base result(this->alpha(), this->get_rgb_color_space(), this->m_component_vector.size(), this->get_component_max(), this->get_component_min());
+			color_base result(this->m_alpha, this->get_rgb_color_space(), this->m_component_vector.size(), this->get_component_max(), this->get_component_min());
 			if (this->get_color_type() == rhs.get_color_type() && this->m_component_vector.size() == rhs.m_component_vector.size())
 			{
 				result.m_type = this->m_type;
-- 
2.43.0


From 6efa5df450958ffdb3d6ce300ea3517976047847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:17 +0000
Subject: [PATCH 12/38] fix: colors could not be constructed from the base
 object returned by operator+

---
 ColorMagic/spaces/cieluv.cpp         | 2 +-
 ColorMagic/spaces/grey_truecolor.cpp | 4 ++--
 ColorMagic/spaces/rgb_deepcolor.cpp  | 2 +-
 ColorMagic/spaces/rgb_truecolor.cpp  | 4 ++--
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/ColorMagic/spaces/cieluv.cpp b/ColorMagic/spaces/cieluv.cpp
index ae81bb5..b1af8fb 100644
--- a/ColorMagic/spaces/cieluv.cpp
+++ b/ColorMagic/spaces/cieluv.cpp
@@ -18,7 +18,7 @@ color_space::cieluv::cieluv(const color_space::cieluv & other) : color_base(othe
 
 color_space::cieluv::cieluv(const color_base & other) : color_base(other.alpha(), other.get_rgb_color_space(), 4, other.get_component_max(), other.get_component_min())
 {
-	if (other.get_color_type() == color_type::CIELUV && other.get_component_vector().size() == 4)
+	if (other.get_color_type() == color_type::CIELUV && other.get_component_vector().size() == 3)
 	{
 		this->m_type = color_type::CIELUV;
 		this->m_component_vector = other.get_component_vector();
diff --git a/ColorMagic/spaces/grey_truecolor.cpp b/ColorMagic/spaces/grey_truecolor.cpp
index 9906aa4..8e9d899 100644
--- a/ColorMagic/spaces/grey_truecolor.cpp
+++ b/ColorMagic/spaces/grey_truecolor.cpp
@@ -15,9 +15,9 @@ color_space::grey_truecolor::grey_truecolor(const color_space::grey_truecolor &
 	this->alpha(other.alpha());
 }
 
-color_space::grey_truecolor::grey_truecolor(const color_base & other) : color_base(other.alpha(), other.get_rgb_color_space(), 1, other.get_component_max(), other.get_component_min())
+color_space::grey_truecolor::grey_truecolor(const color_base & other) : color_base(other)
 {
-	if (other.get_color_type() == color_type::GREY_TRUE && other.get_component_vector().size() == 2)
+	if (other.get_color_type() == color_type::GREY_TRUE && other.get_component_vector().size() == 1)
 	{
 		this->m_type = color_type::GREY_TRUE;
 		this->m_component_vector = other.get_component_vector();
diff --git a/ColorMagic/spaces/rgb_deepcolor.cpp b/ColorMagic/spaces/rgb_deepcolor.cpp
index 791cdee..a23e8a8 100644
--- a/ColorMagic/spaces/rgb_deepcolor.cpp
+++ b/ColorMagic/spaces/rgb_deepcolor.cpp
@@ -26,7 +26,7 @@ color_space::rgb_deepcolor::rgb_deepcolor(const color_space::rgb_deepcolor & oth
 
 color_space::rgb_deepcolor::rgb_deepcolor(const color_base & other) : color_base(other.alpha(), other.get_rgb_color_space(), 3, other.get_component_max(), other.get_component_min())
 {
-	if (other.get_color_type() == color_type::RGB_DEEP && other.get_component_vector().size() == 4)
+	if (other.get_color_type() == color_type::RGB_DEEP && other.get_component_vector().size() == 3)
 	{
 		this->m_type = color_type::RGB_DEEP;
 		this->m_component_vector = other.get_component_vector();
diff --git a/ColorMagic/spaces/rgb_truecolor.cpp b/ColorMagic/spaces/rgb_truecolor.cpp
index ec9f2ca..4d53223 100644
--- a/ColorMagic/spaces/rgb_truecolor.cpp
+++ b/ColorMagic/spaces/rgb_truecolor.cpp
@@ -75,9 +75,9 @@ color_space::rgb_truecolor::rgb_truecolor(const color_space::rgb_truecolor & oth
 	this->alpha(other.alpha());
 }
 
-color_space::rgb_truecolor::rgb_truecolor(const color_base & other) : color_base(other.alpha(), other.get_rgb_color_space(), 3, other.get_component_max(), other.get_component_min())
+color_space::rgb_truecolor::rgb_truecolor(const color_base & other) : color_base(other)
 {
-	if (other.get_color_type() == color_type::RGB_TRUE && other.get_component_vector().size() == 4)
+	if (other.get_color_type() == color_type::RGB_TRUE && other.get_component_vector().size() == 3)
 	{
 		this->m_type = color_type::RGB_TRUE;
 		this->m_component_vector = other.get_component_vector();
-- 
2.43.0


From ccdc2e22bce97fdc1e0d513d76f6631189895b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:47 +0000
Subject: [PATCH 13/38] fix: saturate_in_hsl_space and luminate_in_hsl_space
 modified hsl colors passed by pointer

---
 ColorMagic/manipulation/color_adjustments.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ColorMagic/manipulation/color_adjustments.cpp b/ColorMagic/manipulation/color_adjustments.cpp
index 815adbe..112fc34 100644
--- a/ColorMagic/manipulation/color_adjustments.cpp
+++ b/ColorMagic/manipulation/color_adjustments.cpp
@@ -27,7 +27,7 @@ color_space::color_base * color_manipulation::color_adjustments::saturate_in_hsl
 {
 	if (percentage == 0.f) return color;
 
-	auto color_hsl = static_cast<color_space::hsl*>(color_manipulation::color_converter::convertTo(color, color_type::HSL));
+	auto color_hsl = new color_space::hsl(*static_cast<color_space::hsl*>(color_manipulation::color_converter::convertTo(color, color_type::HSL)));
 
 	auto factor = 1.f + percentage;
 	color_hsl->saturation(color_hsl->saturation() * factor);
@@ -61,7 +61,7 @@ color_space::color_base * color_manipulation::color_adjustments::luminate_in_hsl
 {
 	if (percentage == 0.f) return color;
 
-	auto color_hsl = static_cast<color_space::hsl*>(color_manipulation::color_converter::convertTo(color, color_type::HSL));
+	auto color_hsl = new color_space::hsl(*static_cast<color_space::hsl*>(color_manipulation::color_converter::convertTo(color, color_type::HSL)));
 
 	auto factor = 1.f + percentage;
 	color_hsl->lightness(color_hsl->lightness() * factor);
-- 
2.43.0


From 762f2b72823a184bfcf673208b904988ccdfec27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:48 +0000
Subject: [PATCH 14/38] fix: color combinations of true colors used the 0-255
 alpha as 0-1 alpha

---
 ColorMagic/manipulation/color_combinations.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ColorMagic/manipulation/color_combinations.cpp b/ColorMagic/manipulation/color_combinations.cpp
index 90daf8d..396ebe4 100644
--- a/ColorMagic/manipulation/color_combinations.cpp
+++ b/ColorMagic/manipulation/color_combinations.cpp
@@ -36,7 +36,7 @@ std::vector<color_space::color_base*> color_manipulation::color_combinations::cr
 
 	for (auto i = 1; i <= number_of_colors - 1; ++i)
 	{
-		auto new_color = new color_space::hsl(color_hsl->hue() + (i * degrees), color_hsl->saturation(), color_hsl->lightness(), color->alpha(), color->get_rgb_color_space());
+		auto new_color = new color_space::hsl(color_hsl->hue() + (i * degrees), color_hsl->saturation(), color_hsl->lightness(), color_hsl->alpha(), color->get_rgb_color_space());
 		combination.push_back(color_manipulation::color_converter::convertTo(new_color, color->get_color_type()));
 	}
 
@@ -51,9 +51,9 @@ std::vector<color_space::color_base*> color_manipulation::color_combinations::cr
 	std::vector<color_space::color_base*> triplet;
 	auto color_hsl = static_cast<color_space::hsl*>(color_manipulation::color_converter::convertTo(base_color, color_type::HSL));
 
-	triplet.push_back(color_manipulation::color_converter::convertTo(new color_space::hsl(color_hsl->hue() - distance_between, color_hsl->saturation(), color_hsl->lightness(), base_color->alpha(), base_color->get_rgb_color_space()), base_color->get_color_type()));
+	triplet.push_back(color_manipulation::color_converter::convertTo(new color_space::hsl(color_hsl->hue() - distance_between, color_hsl->saturation(), color_hsl->lightness(), color_hsl->alpha(), base_color->get_rgb_color_space()), base_color->get_color_type()));
 	triplet.push_back(base_color);
-	triplet.push_back(color_manipulation::color_converter::convertTo(new color_space::hsl(color_hsl->hue() + distance_between, color_hsl->saturation(), color_hsl->lightness(), base_color->alpha(), base_color->get_rgb_color_space()), base_color->get_color_type()));
+	triplet.push_back(color_manipulation::color_converter::convertTo(new color_space::hsl(color_hsl->hue() + distance_between, color_hsl->saturation(), color_hsl->lightness(), color_hsl->alpha(), base_color->get_rgb_color_space()), base_color->get_color_type()));
 
 	return triplet;
 }
@@ -75,13 +75,13 @@ std::vector<color_space::color_base*> color_manipulation::color_combinations::cr
 		switch (mode)
 		{
 		case 0:
-			combination.push_back(color_converter::convertTo(color_adjustments::saturate_in_hsl_space(new color_space::hsl(last_hsl->hue(), last_hsl->saturation(), last_hsl->lightness(), base_color->alpha(), base_color->get_rgb_color_space()), amount), in_color_type));
+			combination.push_back(color_converter::convertTo(color_adjustments::saturate_in_hsl_space(new color_space::hsl(last_hsl->hue(), last_hsl->saturation(), last_hsl->lightness(), last_hsl->alpha(), base_color->get_rgb_color_space()), amount), in_color_type));
 			break;
 		case 1:
-			combination.push_back(color_converter::convertTo(color_adjustments::luminate_in_hsl_space(new color_space::hsl(last_hsl->hue(), last_hsl->saturation(), last_hsl->lightness(), base_color->alpha(), base_color->get_rgb_color_space()), amount), in_color_type));
+			combination.push_back(color_converter::convertTo(color_adjustments::luminate_in_hsl_space(new color_space::hsl(last_hsl->hue(), last_hsl->saturation(), last_hsl->lightness(), last_hsl->alpha(), base_color->get_rgb_color_space()), amount), in_color_type));
 			break;
 		case 2:
-			combination.push_back(color_converter::convertTo(color_adjustments::luminate_in_hsl_space(color_adjustments::saturate_in_hsl_space(new color_space::hsl(last_hsl->hue(), last_hsl->saturation(), last_hsl->lightness(), base_color->alpha(), base_color->get_rgb_color_space()), amount), amount), in_color_type));
+			combination.push_back(color_converter::convertTo(color_adjustments::luminate_in_hsl_space(color_adjustments::saturate_in_hsl_space(new color_space::hsl(last_hsl->hue(), last_hsl->saturation(), last_hsl->lightness(), last_hsl->alpha(), base_color->get_rgb_color_space()), amount), amount), in_color_type));
 			break;
 		default:
 			throw new std::invalid_argument("Invalid mode.");;
-- 
2.43.0


From a704cf31fbf02d35c926e83055e1f938781cf5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:49 +0000
Subject: [PATCH 15/38] fix: create_combination accepted a negative number of
 colors

---
 ColorMagic/manipulation/color_combinations.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ColorMagic/manipulation/color_combinations.cpp b/ColorMagic/manipulation/color_combinations.cpp
index 396ebe4..e58a8af 100644
--- a/ColorMagic/manipulation/color_combinations.cpp
+++ b/ColorMagic/manipulation/color_combinations.cpp
@@ -23,6 +23,7 @@ std::vector<color_space::color_base*> color_manipulation::color_combinations::cr
 
 std::vector<color_space::color_base*> color_manipulation::color_combinations::create_combination(color_space::color_base * color, int number_of_colors)
 {
+	if (number_of_colors < 0) throw new std::invalid_argument("A color combination with a negative number of colors is invalid. Chose a color count >= 2");
 	if (number_of_colors == 0) throw new std::invalid_argument("A color combination with 0 colors in it is invalid. Chose a color count >= 2");
 	if (number_of_colors == 1) throw new std::invalid_argument("A color combination with 1 colors in it is invalid since it would just return the input color. Chose a color count >= 2");
 	if (number_of_colors > 360) throw new std::invalid_argument("A color combination with more than 360 colors is invalid.");
-- 
2.43.0


From 5ea082031dc0771afd03503878c01d37d7109481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:19 +0000
Subject: [PATCH 16/38] fix: generic add, mix and subtract returned nullptr for
 hsi, hcy, xyy and cieluv colors

---
 ColorMagic/manipulation/color_calculation.cpp | 20 +++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/ColorMagic/manipulation/color_calculation.cpp b/ColorMagic/manipulation/color_calculation.cpp
index 01b1b9d..790b42a 100644
--- a/ColorMagic/manipulation/color_calculation.cpp
+++ b/ColorMagic/manipulation/color_calculation.cpp
@@ -18,10 +18,14 @@ color_space::color_base * color_manipulation::color_calculation::add(color_space
 		return color_manipulation::color_calculation::add(color_manipulation::color_converter::to_grey_deep(color1), color_manipulation::color_converter::to_grey_deep(color2), weight1, weight2, include_alpha);
 	case color_type::CMYK:
 		return color_manipulation::color_calculation::add(color_manipulation::color_converter::to_cmyk(color1), color_manipulation::color_converter::to_cmyk(color2), weight1, weight2, include_alpha);
+	case color_type::HSI:
+		return color_manipulation::color_calculation::add(color_manipulation::color_converter::to_hsi(color1), color_manipulation::color_converter::to_hsi(color2), weight1, weight2, include_alpha);
 	case color_type::HSV:
 		return color_manipulation::color_calculation::add(color_manipulation::color_converter::to_hsv(color1), color_manipulation::color_converter::to_hsv(color2), weight1, weight2, include_alpha);
 	case color_type::HSL:
 		return color_manipulation::color_calculation::add(color_manipulation::color_converter::to_hsl(color1), color_manipulation::color_converter::to_hsl(color2), weight1, weight2, include_alpha);
+	case color_type::HCY:
+		return color_manipulation::color_calculation::add(color_manipulation::color_converter::to_hcy(color1), color_manipulation::color_converter::to_hcy(color2), weight1, weight2, include_alpha);
 	case color_type::XYZ:
 		return color_manipulation::color_calculation::add(color_manipulation::color_converter::to_xyz(color1), color_manipulation::color_converter::to_xyz(color2), weight1, weight2, include_alpha);
 	case color_type::XYY:
@@ -221,12 +225,20 @@ color_space::color_base * color_manipulation::color_calculation::mix(color_space
 		return color_manipulation::color_calculation::mix(color_manipulation::color_converter::to_grey_deep(color1), color_manipulation::color_converter::to_grey_deep(color2), weight, include_alpha);
 	case color_type::CMYK:
 		return color_manipulation::color_calculation::mix(color_manipulation::color_converter::to_cmyk(color1), color_manipulation::color_converter::to_cmyk(color2), weight, include_alpha);
+	case color_type::HSI:
+		return color_manipulation::color_calculation::mix(color_manipulation::color_converter::to_hsi(color1), color_manipulation::color_converter::to_hsi(color2), weight, include_alpha);
 	case color_type::HSV:
 		return color_manipulation::color_calculation::mix(color_manipulation::color_converter::to_hsv(color1), color_manipulation::color_converter::to_hsv(color2), weight, include_alpha);
 	case color_type::HSL:
 		return color_manipulation::color_calculation::mix(color_manipulation::color_converter::to_hsl(color1), color_manipulation::color_converter::to_hsl(color2), weight, include_alpha);
+	case color_type::HCY:
+		return color_manipulation::color_calculation::mix(color_manipulation::color_converter::to_hcy(color1), color_manipulation::color_converter::to_hcy(color2), weight, include_alpha);
 	case color_type::XYZ:
 		return color_manipulation::color_calculation::mix(color_manipulation::color_converter::to_xyz(color1), color_manipulation::color_converter::to_xyz(color2), weight, include_alpha);
+	case color_type::XYY:
+		return color_manipulation::color_calculation::mix(color_manipulation::color_converter::to_xyy(color1), color_manipulation::color_converter::to_xyy(color2), weight, include_alpha);
+	case color_type::CIELUV:
+		return color_manipulation::color_calculation::mix(color_manipulation::color_converter::to_cieluv(color1), color_manipulation::color_converter::to_cieluv(color2), weight, include_alpha);
 	case color_type::LAB:
 		return color_manipulation::color_calculation::mix(color_manipulation::color_converter::to_lab(color1), color_manipulation::color_converter::to_lab(color2), weight, include_alpha);
 	case color_type::LCH_AB:
@@ -357,12 +369,20 @@ color_space::color_base * color_manipulation::color_calculation::subtract(color_
 		return color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_grey_deep(color1), color_manipulation::color_converter::to_grey_deep(color2), weight, include_alpha);
 	case color_type::CMYK:
 		return color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_cmyk(color1), color_manipulation::color_converter::to_cmyk(color2), weight, include_alpha);
+	case color_type::HSI:
+		return color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_hsi(color1), color_manipulation::color_converter::to_hsi(color2), weight, include_alpha);
 	case color_type::HSV:
 		return color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_hsv(color1), color_manipulation::color_converter::to_hsv(color2), weight, include_alpha);
 	case color_type::HSL:
 		return color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_hsl(color1), color_manipulation::color_converter::to_hsl(color2), weight, include_alpha);
+	case color_type::HCY:
+		return color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_hcy(color1), color_manipulation::color_converter::to_hcy(color2), weight, include_alpha);
 	case color_type::XYZ:
 		return color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_xyz(color1), color_manipulation::color_converter::to_xyz(color2), weight, include_alpha);
+	case color_type::XYY:
+		return color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_xyy(color1), color_manipulation::color_converter::to_xyy(color2), weight, include_alpha);
+	case color_type::CIELUV:
+		return color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_cieluv(color1), color_manipulation::color_converter::to_cieluv(color2), weight, include_alpha);
 	case color_type::LAB:
 		return color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_lab(color1), color_manipulation::color_converter::to_lab(color2), weight, include_alpha);
 	case color_type::LCH_AB:
-- 
2.43.0


From 2cd88c46e809cbf285f48c4444b4dbc108b5ec36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:21 +0000
Subject: [PATCH 17/38] fix: generic mix and subtract rejected the valid weight
 0

---
 ColorMagic/manipulation/color_calculation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ColorMagic/manipulation/color_calculation.cpp b/ColorMagic/manipulation/color_calculation.cpp
index 790b42a..75e01e5 100644
--- a/ColorMagic/manipulation/color_calculation.cpp
+++ b/ColorMagic/manipulation/color_calculation.cpp
@@ -211,7 +211,7 @@ color_space::lch_uv * color_manipulation::color_calculation::add(color_space::lc
 
 color_space::color_base * color_manipulation::color_calculation::mix(color_space::color_base * color1, color_space::color_base * color2, float weight, bool include_alpha)
 {
-	if (weight <= 0.f || weight > 1.f) throw new std::invalid_argument("Parameter weight has to be in the range [0,1].");
+	if (weight < 0.f || weight > 1.f) throw new std::invalid_argument("Parameter weight has to be in the range [0,1].");
 
 	switch (color1->get_color_type())
 	{
@@ -355,7 +355,7 @@ color_space::lch_uv * color_manipulation::color_calculation::mix(color_space::lc
 
 color_space::color_base * color_manipulation::color_calculation::subtract(color_space::color_base * color1, color_space::color_base * color2, float weight, bool include_alpha)
 {
-	if (weight <= 0.f || weight > 1.f) throw new std::invalid_argument("Parameter weight has to be in the range [0,1].");
+	if (weight < 0.f || weight > 1.f) throw new std::invalid_argument("Parameter weight has to be in the range [0,1].");
 
 	switch (color1->get_color_type())
 	{
-- 
2.43.0


From a63c2c4b445233010e182717cd96cbd64900540b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:22 +0000
Subject: [PATCH 18/38] fix: subtract ignored include_alpha for hsi, hsl, hcy,
 lab and lch colors

---
 ColorMagic/manipulation/color_calculation.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ColorMagic/manipulation/color_calculation.cpp b/ColorMagic/manipulation/color_calculation.cpp
index 75e01e5..05ec45a 100644
--- a/ColorMagic/manipulation/color_calculation.cpp
+++ b/ColorMagic/manipulation/color_calculation.cpp
@@ -449,7 +449,7 @@ color_space::hsi * color_manipulation::color_calculation::subtract(color_space::
 {
 	if (weight < 0.f || weight > 1.f) throw new std::invalid_argument("Parameter weight has to be in the range [0,1].");
 
-	return color_manipulation::color_converter::to_hsi(color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_hsv(color1), color_manipulation::color_converter::to_hsv(color2), weight));
+	return color_manipulation::color_converter::to_hsi(color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_hsv(color1), color_manipulation::color_converter::to_hsv(color2), weight, include_alpha));
 }
 
 color_space::hsv * color_manipulation::color_calculation::subtract(color_space::hsv * color1, color_space::hsv * color2, float weight, bool include_alpha)
@@ -472,14 +472,14 @@ color_space::hsl * color_manipulation::color_calculation::subtract(color_space::
 {
 	if (weight < 0.f || weight > 1.f) throw new std::invalid_argument("Parameter weight has to be in the range [0,1].");
 
-	return color_manipulation::color_converter::to_hsl(color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_hsv(color1), color_manipulation::color_converter::to_hsv(color2), weight));
+	return color_manipulation::color_converter::to_hsl(color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_hsv(color1), color_manipulation::color_converter::to_hsv(color2), weight, include_alpha));
 }
 
 color_space::hcy * color_manipulation::color_calculation::subtract(color_space::hcy * color1, color_space::hcy * color2, float weight, bool include_alpha)
 {
 	if (weight < 0.f || weight > 1.f) throw new std::invalid_argument("Parameter weight has to be in the range [0,1].");
 
-	return color_manipulation::color_converter::to_hcy(color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_hsv(color1), color_manipulation::color_converter::to_hsv(color2), weight));
+	return color_manipulation::color_converter::to_hcy(color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_hsv(color1), color_manipulation::color_converter::to_hsv(color2), weight, include_alpha));
 }
 
 color_space::xyz * color_manipulation::color_calculation::subtract(color_space::xyz * color1, color_space::xyz * color2, float weight, bool include_alpha)
@@ -522,21 +522,21 @@ color_space::lab * color_manipulation::color_calculation::subtract(color_space::
 {
 	if (weight < 0.f || weight > 1.f) throw new std::invalid_argument("Parameter weight has to be in the range [0,1].");
 
-	return color_manipulation::color_converter::to_lab(color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_xyz(color1), color_manipulation::color_converter::to_xyz(color2), weight));
+	return color_manipulation::color_converter::to_lab(color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_xyz(color1), color_manipulation::color_converter::to_xyz(color2), weight, include_alpha));
 }
 
 color_space::lch_ab * color_manipulation::color_calculation::subtract(color_space::lch_ab * color1, color_space::lch_ab * color2, float weight, bool include_alpha)
 {
 	if (weight < 0.f || weight > 1.f) throw new std::invalid_argument("Parameter weight has to be in the range [0,1].");
 
-	return color_manipulation::color_converter::to_lch_ab(color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_xyz(color1), color_manipulation::color_converter::to_xyz(color2), weight));
+	return color_manipulation::color_converter::to_lch_ab(color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_xyz(color1), color_manipulation::color_converter::to_xyz(color2), weight, include_alpha));
 }
 
 color_space::lch_uv * color_manipulation::color_calculation::subtract(color_space::lch_uv * color1, color_space::lch_uv * color2, float weight, bool include_alpha)
 {
 	if (weight < 0.f || weight > 1.f) throw new std::invalid_argument("Parameter weight has to be in the range [0,1].");
 
-	return color_manipulation::color_converter::to_lch_uv(color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_xyz(color1), color_manipulation::color_converter::to_xyz(color2), weight));
+	return color_manipulation::color_converter::to_lch_uv(color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_xyz(color1), color_manipulation::color_converter::to_xyz(color2), weight, include_alpha));
 }
 
 color_space::rgb_truecolor * color_manipulation::color_calculation::average_rgb_true(std::vector<color_space::rgb_truecolor*> colors, bool include_alpha)
-- 
2.43.0


From 649b49bfd95991e12e245ceeb970923225f3c092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:23 +0000
Subject: [PATCH 19/38] fix: average_cmyk summed the black component into alpha

---
 ColorMagic/manipulation/color_calculation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ColorMagic/manipulation/color_calculation.cpp b/ColorMagic/manipulation/color_calculation.cpp
index 05ec45a..59c7f1d 100644
--- a/ColorMagic/manipulation/color_calculation.cpp
+++ b/ColorMagic/manipulation/color_calculation.cpp
@@ -606,7 +606,7 @@ color_space::cmyk * color_manipulation::color_calculation::average_cmyk(std::vec
 		sum[1] += colors[i]->magenta();
 		sum[2] += colors[i]->yellow();
 		sum[3] += colors[i]->black();
-		sum[4] = include_alpha ? sum[3] + colors[i]->alpha() : colors[0]->alpha();
+		sum[4] = include_alpha ? sum[4] + colors[i]->alpha() : colors[0]->alpha();
 	}
 	return new color_space::cmyk(sum[0] / colors.size(), sum[1] / colors.size(), sum[2] / colors.size(), sum[3] / colors.size(), include_alpha ? sum[4] / colors.size() : sum[4], colors[0]->get_rgb_color_space());
 }
-- 
2.43.0


From e4fdaac63d5d300663d48c5569d730f3a7719efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:47 +0000
Subject: [PATCH 20/38] fix: euclidean_distance ignored the calculation space

---
 ColorMagic/manipulation/color_distance.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ColorMagic/manipulation/color_distance.cpp b/ColorMagic/manipulation/color_distance.cpp
index d17a8b1..b7a5a9c 100644
--- a/ColorMagic/manipulation/color_distance.cpp
+++ b/ColorMagic/manipulation/color_distance.cpp
@@ -39,7 +39,7 @@ float color_manipulation::color_distance::euclidean_distance(color_space::color_
 {
 	if (color1 == color2) return 0.f; // both colors have same type and are equal
 
-	return sqrtf(euclidean_distance_squared(color1, color2));
+	return sqrtf(euclidean_distance_squared(color1, color2, calculation_space));
 }
 
 float color_manipulation::color_distance::euclidean_distance_weighted(color_space::color_base * color1, color_space::color_base * color2)
-- 
2.43.0


From 0805e1387addc582cde6f2425a9c391907687f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:48 +0000
Subject: [PATCH 21/38] fix: cie94 and cmc distances were NaN when rounding
 made the squared hue difference negative

---
 ColorMagic/manipulation/color_distance.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ColorMagic/manipulation/color_distance.cpp b/ColorMagic/manipulation/color_distance.cpp
index b7a5a9c..9770339 100644
--- a/ColorMagic/manipulation/color_distance.cpp
+++ b/ColorMagic/manipulation/color_distance.cpp
@@ -93,7 +93,7 @@ float color_manipulation::color_distance::cielab_delta_e_cie94(color_space::colo
 	auto c1 = sqrtf(powf(color1_lab->a(), 2.f) + powf(color1_lab->b(), 2.f));
 	auto c2 = sqrtf(powf(color2_lab->a(), 2.f) + powf(color2_lab->b(), 2.f));
 	auto delta_c = c1 - c2;
-	auto delta_h = sqrtf(powf(color1_lab->a() - color2_lab->a(), 2.f) + powf(color1_lab->b() - color2_lab->b(), 2.f) - powf(delta_c, 2.f));
+	auto delta_h = sqrtf(fmaxf(powf(color1_lab->a() - color2_lab->a(), 2.f) + powf(color1_lab->b() - color2_lab->b(), 2.f) - powf(delta_c, 2.f), 0.f));
 	auto sc = 1.f + k1 * c1;
 	auto sh = 1.f + k2 * c1;
 
@@ -178,7 +178,7 @@ float color_manipulation::color_distance::cmc_delta_e_lc84(color_space::color_ba
 	auto delta_C = C1 - C2;
 	auto delta_a = color1_lab->a() - color2_lab->a();
 	auto delta_b = color1_lab->b() - color2_lab->b();
-	auto delta_H = sqrtf(powf(delta_a, 2.f) + powf(delta_b, 2.f) - powf(delta_C, 2.f));
+	auto delta_H = sqrtf(fmaxf(powf(delta_a, 2.f) + powf(delta_b, 2.f) - powf(delta_C, 2.f), 0.f));
 	auto delta_L = color1_lab->luminance() - color2_lab->luminance();
 
 	auto H = to_deg(atan2(color1_lab->b(), color1_lab->a()));
-- 
2.43.0


From 41348089042752a79cfc510e6c5a2806cf106a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:42 +0000
Subject: [PATCH 22/38] fix: blending and porter duff operators returned
 components greater than 1

---
 ColorMagic/manipulation/base_color_blend.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ColorMagic/manipulation/base_color_blend.h b/ColorMagic/manipulation/base_color_blend.h
index dc7f702..f1f403f 100644
--- a/ColorMagic/manipulation/base_color_blend.h
+++ b/ColorMagic/manipulation/base_color_blend.h
@@ -67,6 +67,13 @@ namespace color_manipulation
 			}
 
 			resulting_color->alpha_divide();
+
+			// The division may exceed the components range
+			for (size_t i = 0; i < resulting_color->get_component_vector().size(); ++i)
+			{
+				resulting_color->set_component(resulting_color->get_component(i), i);
+			}
+
 			return resulting_color;
 		}
 	};
-- 
2.43.0


From 2dff52f24361fc3fe3b7fd63c105cb6ce7e62dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:33 +0000
Subject: [PATCH 23/38] fix: dissolve compared 0-255 alpha values of true
 colors with 0-1 alpha values of other colors

---
 ColorMagic/manipulation/color_blend.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ColorMagic/manipulation/color_blend.cpp b/ColorMagic/manipulation/color_blend.cpp
index af82a46..d5f79bd 100644
--- a/ColorMagic/manipulation/color_blend.cpp
+++ b/ColorMagic/manipulation/color_blend.cpp
@@ -26,7 +26,7 @@ color_space::color_base * color_manipulation::color_blend::dissolve(color_space:
 	if (destination == nullptr) throw new std::invalid_argument("destination color is null.");
 	if (source->get_rgb_color_space() != destination->get_rgb_color_space()) throw new std::invalid_argument("The rgb color space definitions of both colors do not match.");
 
-	float source_dest_alpha_diff = source->alpha() - destination->alpha();
+	float source_dest_alpha_diff = color_converter::to_rgb_deep(source)->alpha() - color_converter::to_rgb_deep(destination)->alpha();
 	return color_converter::convertTo(
 		(new color_blend())->general_porter_duff(
 			color_converter::to_rgb_deep(source),
-- 
2.43.0


From 7ec23e3854431f7c61d9151be8f57c3f8ad934db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:45 +0000
Subject: [PATCH 24/38] fix: matrix element access accepted negative indices
 and read beyond its error message

---
 ColorMagic/utils/matrix.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ColorMagic/utils/matrix.h b/ColorMagic/utils/matrix.h
index 199565c..9c8a857 100644
--- a/ColorMagic/utils/matrix.h
+++ b/ColorMagic/utils/matrix.h
@@ -6,6 +6,7 @@
 #pragma once
 #include <vector>
 #include <stdexcept>
+#include <string>
 
 template <typename T> class matrix
 {
@@ -110,16 +111,16 @@ public:
 	//! Accessment operator
 	T& operator() (int row, int column)
 	{
-		if (row >= m_rows) throw std::out_of_range(std::string("Matrix: %d is >= row count of matrix.", row));
-		if (column >= m_columns) throw std::out_of_range(std::string("Matrix: %d is >= column count of matrix.", column));
+		if (row < 0 || row >= m_rows) throw std::out_of_range("Matrix: " + std::to_string(row) + " is not a valid row index of the matrix.");
+		if (column < 0 || column >= m_columns) throw std::out_of_range("Matrix: " + std::to_string(column) + " is not a valid column index of the matrix.");
 		return m_values[row][column];
 	}
 
 	//! Accessment operator
 	const T& operator() (int row, int column) const
 	{
-		if (row >= m_rows) throw std::out_of_range(std::string("Matrix: %d is >= row count of matrix.", row));
-		if (column >= m_columns) throw std::out_of_range(std::string("Matrix: %d is >= column count of matrix.", column));
+		if (row < 0 || row >= m_rows) throw std::out_of_range("Matrix: " + std::to_string(row) + " is not a valid row index of the matrix.");
+		if (column < 0 || column >= m_columns) throw std::out_of_range("Matrix: " + std::to_string(column) + " is not a valid column index of the matrix.");
 		return m_values[row][column];
 	}
 
-- 
2.43.0


From 966d56c406cebcef5be8263e2e327e1871b67584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:57 +0000
Subject: [PATCH 25/38] fix: matrix insert read values of non quadratic
 matrices from wrong positions

---
 ColorMagic/utils/matrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ColorMagic/utils/matrix.h b/ColorMagic/utils/matrix.h
index 9c8a857..b4c6c6b 100644
--- a/ColorMagic/utils/matrix.h
+++ b/ColorMagic/utils/matrix.h
@@ -514,7 +514,7 @@ public:
 			{
 				for (int j = 0; j < m_columns; j++)
 				{
-					this->m_values[i][j] = values[i * m_rows + j];
+					this->m_values[i][j] = values[i * m_columns + j];
 				}
 			}
 		}
-- 
2.43.0


From 2af44fdd811547472395fe43a4fb45e1f459fccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:09 +0000
Subject: [PATCH 26/38] fix: transpose accessed non quadratic matrices out of
 bounds

---
 ColorMagic/utils/matrix.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ColorMagic/utils/matrix.h b/ColorMagic/utils/matrix.h
index b4c6c6b..bafa7c1 100644
--- a/ColorMagic/utils/matrix.h
+++ b/ColorMagic/utils/matrix.h
@@ -344,13 +344,13 @@ public:
 	*/
 	matrix<T> transpose()
 	{
-		matrix result(m_rows, m_columns);
+		matrix result(m_columns, m_rows);
 
 		for (int i = 0; i < m_rows; i++)
 		{
 			for (int j = 0; j < m_columns; j++)
 			{
-				result(i, j) = this->m_values[j][i];
+				result(j, i) = this->m_values[i][j];
 			}
 		}
 
-- 
2.43.0


From 18a36ecd5f9863b988e7466d33213b3f819dc7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:21 +0000
Subject: [PATCH 27/38] fix: matrix product of non quadratic matrices had wrong
 dimensions

---
 ColorMagic/utils/matrix.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ColorMagic/utils/matrix.h b/ColorMagic/utils/matrix.h
index bafa7c1..0960781 100644
--- a/ColorMagic/utils/matrix.h
+++ b/ColorMagic/utils/matrix.h
@@ -214,7 +214,7 @@ public:
 	//! Multiply two matrices
 	matrix<T> operator*(const matrix<T>& other)
 	{
-		int rows = other.rows();
+		int rows = m_rows;
 		int cols = other.columns();
 		matrix result(rows, cols);
 
@@ -222,7 +222,7 @@ public:
 		{
 			for (int j = 0; j < cols; j++)
 			{
-				for (int k = 0; k < rows; k++)
+				for (int k = 0; k < m_columns; k++)
 				{
 					result(i, j) += this->m_values[i][k] * other(k, j);
 				}
-- 
2.43.0


From 2b3b3247f349b69750900dfaeeb9d170d51c9c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:34 +0000
Subject: [PATCH 28/38] fix: product of a non quadratic matrix and a vector had
 the size of the operand

---
 ColorMagic/utils/matrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ColorMagic/utils/matrix.h b/ColorMagic/utils/matrix.h
index 0960781..2ff37ba 100644
--- a/ColorMagic/utils/matrix.h
+++ b/ColorMagic/utils/matrix.h
@@ -311,7 +311,7 @@ public:
 	*/
 	std::vector<T> operator*(const std::vector<T>& other)
 	{
-		std::vector<T> result(other.size());
+		std::vector<T> result(m_rows);
 
 		for (int i = 0; i < m_rows; i++)
 		{
-- 
2.43.0


From 966c37236ca1dde7d30be755bbc44c0a13ed3825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:11 +0000
Subject: [PATCH 29/38] fix: the UHDTV gamma curve and its inverse were swapped

---
 ColorMagic/spaces/gamma.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ColorMagic/spaces/gamma.h b/ColorMagic/spaces/gamma.h
index 02dcbc5..240ed78 100644
--- a/ColorMagic/spaces/gamma.h
+++ b/ColorMagic/spaces/gamma.h
@@ -471,11 +471,11 @@ namespace color_space
 			std::vector<gamma_part*> g;
 			std::vector<gamma_part*> ig;
 
-			g.push_back(new gamma_part([](float input) { return input / 4.5f; }, 0.081f));
-			g.push_back(new gamma_part([](float input) { return std::powf((input + 0.099f) / 1.099f, 1.f / 0.45f); }, 1.f));
+			g.push_back(new gamma_part([](float input) { return 4.5f * input; }, 0.018053968510807f));
+			g.push_back(new gamma_part([](float input) { return 1.099f * std::powf(input, 0.45f) - 0.099f; }, 1.f));
 
-			ig.push_back(new gamma_part([](float input) { return 4.5f * input; }, 0.018053968510807f));
-			ig.push_back(new gamma_part([](float input) { return 1.099f * std::powf(input, 0.45f) - 0.099f; }, 1.f));
+			ig.push_back(new gamma_part([](float input) { return input / 4.5f; }, 0.081f));
+			ig.push_back(new gamma_part([](float input) { return std::powf((input + 0.099f) / 1.099f, 1.f / 0.45f); }, 1.f));
 
 			return new gamma(g, ig);
 		}
-- 
2.43.0


From f13ac915cbaae29a8c9e9ac90378968efa368fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:22 +0000
Subject: [PATCH 30/38] fix: the inverse Romm gamma curve used the border of
 the gamma curve

---
 ColorMagic/spaces/gamma.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ColorMagic/spaces/gamma.h b/ColorMagic/spaces/gamma.h
index 240ed78..251e4a0 100644
--- a/ColorMagic/spaces/gamma.h
+++ b/ColorMagic/spaces/gamma.h
@@ -459,7 +459,7 @@ namespace color_space
 			g.push_back(new gamma_part([](float input) { return 16.f * input; }, 0.001953f));
 			g.push_back(new gamma_part([](float input) { return std::powf(input, 1.f / 1.8f); }, 1.f));
 
-			ig.push_back(new gamma_part([](float input) { return input / 16.f; }, 0.001953f));
+			ig.push_back(new gamma_part([](float input) { return input / 16.f; }, 0.031248f));
 			ig.push_back(new gamma_part([](float input) { return std::powf(input, 1.8f); }, 1.f));
 
 			return new gamma(g, ig);
-- 
2.43.0


From 9796111223c08dcfdaa25a3d55ddc517596f0a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:35 +0000
Subject: [PATCH 31/38] fix: removing gamma parts ended without returning a
 value

---
 ColorMagic/spaces/gamma.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ColorMagic/spaces/gamma.h b/ColorMagic/spaces/gamma.h
index 251e4a0..9113ba3 100644
--- a/ColorMagic/spaces/gamma.h
+++ b/ColorMagic/spaces/gamma.h
@@ -286,6 +286,7 @@ namespace color_space
 		bool remove_gamma_curve_part(std::vector<gamma_part*>::iterator position)
 		{
 			m_gamma_curve_parts.erase(position);
+			return true;
 		}
 
 		//! Replace the list of default gamma parts.
@@ -309,6 +310,7 @@ namespace color_space
 		bool remove_inverse_gamma_curve_part(std::vector<gamma_part*>::iterator position)
 		{
 			m_inverse_gamma_curve_parts.erase(position);
+			return true;
 		}
 
 		//! Replace the list of inverse gamma parts.
-- 
2.43.0


From f69d8a7dc7ae4f825c6ba811f1e45409a64413c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:48 +0000
Subject: [PATCH 32/38] fix: sorting gamma parts dereferenced null parts

---
 ColorMagic/spaces/gamma.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ColorMagic/spaces/gamma.h b/ColorMagic/spaces/gamma.h
index 9113ba3..dce0d11 100644
--- a/ColorMagic/spaces/gamma.h
+++ b/ColorMagic/spaces/gamma.h
@@ -354,13 +354,13 @@ namespace color_space
 		//! Sort the default gamma parts in ascending order depending on the upper border.
 		void sort_gamma_parts()
 		{
-			std::sort(m_gamma_curve_parts.begin(), m_gamma_curve_parts.end(), [](gamma_part* gp1, gamma_part* gp2) { return (*gp1) < (*gp2); });
+			std::sort(m_gamma_curve_parts.begin(), m_gamma_curve_parts.end(), [](gamma_part* gp1, gamma_part* gp2) { return gp1 != nullptr && (gp2 == nullptr || (*gp1) < (*gp2)); });
 		}
 
 		//! Sort the inverse gamma parts in ascending order depending on the upper border.
 		void sort_inverse_gamma_parts()
 		{
-			std::sort(m_inverse_gamma_curve_parts.begin(), m_inverse_gamma_curve_parts.end(), [](gamma_part* gp1, gamma_part* gp2) { return (*gp1) < (*gp2); });
+			std::sort(m_inverse_gamma_curve_parts.begin(), m_inverse_gamma_curve_parts.end(), [](gamma_part* gp1, gamma_part* gp2) { return gp1 != nullptr && (gp2 == nullptr || (*gp1) < (*gp2)); });
 		}
 
 		//! The default gamma parts in ascending order depending on their upper border.
-- 
2.43.0


From ded0b2ad1cee34e8b0399575c48bd340ad8ab932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:18 +0000
Subject: [PATCH 33/38] fix: white point presets with X > 1 had a misplaced
 decimal point

---
 ColorMagic/spaces/white_point.h | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/ColorMagic/spaces/white_point.h b/ColorMagic/spaces/white_point.h
index 5e6fae7..c6d10b3 100644
--- a/ColorMagic/spaces/white_point.h
+++ b/ColorMagic/spaces/white_point.h
@@ -249,7 +249,7 @@ namespace color_space
 		/*!
 		* Represents incandescent / tungsten (2856 Kelvin)
 		*/
-		white_point* A_2Degree() { return new white_point(0.10985f, 1.f, 0.3558f, 0.4475f, 0.4074f); }
+		white_point* A_2Degree() { return new white_point(1.0985f, 1.f, 0.3558f, 0.4475f, 0.4074f); }
 
 		//! CIE_B tristimulus white (2�)
 		/*!
@@ -269,7 +269,7 @@ namespace color_space
 		/*!
 		* Represents equal energy (5454 Kelvin)
 		*/
-		white_point* E_2Degree() { return new white_point(0.1f, 1.f, 0.1f, 0.3333f, 0.3333f); }
+		white_point* E_2Degree() { return new white_point(1.f, 1.f, 1.f, 0.3333f, 0.3333f); }
 
 		//! CIE_F1 tristimulus white (2�)
 		/*!
@@ -287,13 +287,13 @@ namespace color_space
 		/*!
 		* Represents white fluorescent (3450 Kelvin)
 		*/
-		white_point* F3_2Degree() { return new white_point(0.10375f, 1.f, 0.4986f, 0.4090f, 0.3943f); }
+		white_point* F3_2Degree() { return new white_point(1.0375f, 1.f, 0.4986f, 0.4090f, 0.3943f); }
 
 		//! CIE_F4 tristimulus white (2�)
 		/*!
 		* Represents warm white fluorescent (2940 Kelvin)
 		*/
-		white_point* F4_2Degree() { return new white_point(0.10914f, 1.f, 0.3881f, 0.4401f, 0.4033f); }
+		white_point* F4_2Degree() { return new white_point(1.0914f, 1.f, 0.3881f, 0.4401f, 0.4033f); }
 
 		//! CIE_F5 tristimulus white (2�)
 		/*!
@@ -323,7 +323,7 @@ namespace color_space
 		/*!
 		* Represents cool white deluxe fluorescent (4150 Kelvin)
 		*/
-		white_point* F9_2Degree() { return new white_point(0.10036f, 1.f, 0.6786f, 0.3741f, 0.3728f); }
+		white_point* F9_2Degree() { return new white_point(1.0036f, 1.f, 0.6786f, 0.3741f, 0.3728f); }
 
 		//! CIE_F10 tristimulus white (2�)
 		/*!
@@ -335,13 +335,13 @@ namespace color_space
 		/*!
 		* Represents Philips TL84, Ultralume 40 (4000 Kelvin)
 		*/
-		white_point* F11_2Degree() { return new white_point(0.10096f, 1.f, 0.6437f, 0.3805f, 0.3768f); }
+		white_point* F11_2Degree() { return new white_point(1.0096f, 1.f, 0.6437f, 0.3805f, 0.3768f); }
 
 		//! CIE_F12 tristimulus white (2�)
 		/*!
 		* Represents Philips TL83, Ultralume 30 (3000 Kelvin)
 		*/
-		white_point* F12_2Degree() { return new white_point(0.10804f, 1.f, 0.3922f, 0.4369f, 0.4044f); }
+		white_point* F12_2Degree() { return new white_point(1.0804f, 1.f, 0.3922f, 0.4369f, 0.4044f); }
 
 
 		//! CIE_D50 tristimulus white (10�)
@@ -373,7 +373,7 @@ namespace color_space
 		/*!
 		* Represents incandescent / tungsten (2856 Kelvin)
 		*/
-		white_point* A_10Degree() { return new white_point(0.11114f, 1.f, 0.3520f, 0.4511f, 0.4059f); }
+		white_point* A_10Degree() { return new white_point(1.1114f, 1.f, 0.3520f, 0.4511f, 0.4059f); }
 
 		//! CIE_B tristimulus white (10�)
 		/*!
@@ -393,7 +393,7 @@ namespace color_space
 		/*!
 		* Represents equal energy (5454 Kelvin)
 		*/
-		white_point* E_10Degree() { return new white_point(0.1f, 1.f, 0.1f, 0.3333f, 0.3333f); }
+		white_point* E_10Degree() { return new white_point(1.f, 1.f, 1.f, 0.3333f, 0.3333f); }
 
 		//! CIE_F1 tristimulus white (10�)
 		/*!
@@ -405,19 +405,19 @@ namespace color_space
 		/*!
 		* Represents cool white fluorescent (4230 Kelvin)
 		*/
-		white_point* F2_10Degree() { return new white_point(0.10328f, 1.f, 0.6902f, 0.3792f, 0.3672f); }
+		white_point* F2_10Degree() { return new white_point(1.0328f, 1.f, 0.6902f, 0.3792f, 0.3672f); }
 
 		//! CIE_F3 tristimulus white (10�)
 		/*!
 		* Represents white fluorescent (3450 Kelvin)
 		*/
-		white_point* F3_10Degree() { return new white_point(0.10896f, 1.f, 0.5196f, 0.4175f, 0.3832f); }
+		white_point* F3_10Degree() { return new white_point(1.0896f, 1.f, 0.5196f, 0.4175f, 0.3832f); }
 
 		//! CIE_F4 tristimulus white (10�)
 		/*!
 		* Represents warm white fluorescent (2940 Kelvin)
 		*/
-		white_point* F4_10Degree() { return new white_point(0.11496f, 1.f, 0.4096f, 0.4492f, 0.3907f); }
+		white_point* F4_10Degree() { return new white_point(1.1496f, 1.f, 0.4096f, 0.4492f, 0.3907f); }
 
 		//! CIE_F5 tristimulus white (10�)
 		/*!
@@ -429,7 +429,7 @@ namespace color_space
 		/*!
 		* Represents lite white fluorescent (4150 Kelvin)
 		*/
-		white_point* F6_10Degree() { return new white_point(0.10214f, 1.f, 0.6207f, 0.3865f, 0.3784f); }
+		white_point* F6_10Degree() { return new white_point(1.0214f, 1.f, 0.6207f, 0.3865f, 0.3784f); }
 
 		//! CIE_F7 tristimulus white (10�)
 		/*!
@@ -447,7 +447,7 @@ namespace color_space
 		/*!
 		* Represents cool white deluxe fluorescent (4150 Kelvin)
 		*/
-		white_point* F9_10Degree() { return new white_point(0.10211f, 1.f, 0.6782f, 0.3782f, 0.3704f); }
+		white_point* F9_10Degree() { return new white_point(1.0211f, 1.f, 0.6782f, 0.3782f, 0.3704f); }
 
 		//! CIE_F10 tristimulus white (10�)
 		/*!
@@ -459,12 +459,12 @@ namespace color_space
 		/*!
 		* Represents Philips TL84, Ultralume 40 (4000 Kelvin)
 		*/
-		white_point* F11_10Degree() { return new white_point(0.10386f, 1.f, 0.6562f, 0.3854f, 0.3710f); }
+		white_point* F11_10Degree() { return new white_point(1.0386f, 1.f, 0.6562f, 0.3854f, 0.3710f); }
 
 		//! CIE_F12 tristimulus white (10�)
 		/*!
 		* Represents Philips TL83, Ultralume 30 (3000 Kelvin)
 		*/
-		white_point* F12_10Degree() { return new white_point(0.11142f, 1.f, 0.4035f, 0.4425f, 0.3971f); }
+		white_point* F12_10Degree() { return new white_point(1.1142f, 1.f, 0.4035f, 0.4425f, 0.3971f); }
 	};
 }
\ No newline at end of file
-- 
2.43.0


From bdbeba7b44780f79d8fa17e28af4356e471cf8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:36 +0000
Subject: [PATCH 34/38] fix: bradford and cmccat97 adaptation normalised with
 the second component of the input color instead of its luminance

---
 .../manipulation/chromatic_adaptation.cpp     | 26 ++++++++++---------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/ColorMagic/manipulation/chromatic_adaptation.cpp b/ColorMagic/manipulation/chromatic_adaptation.cpp
index 38720be..cf7823a 100644
--- a/ColorMagic/manipulation/chromatic_adaptation.cpp
+++ b/ColorMagic/manipulation/chromatic_adaptation.cpp
@@ -118,10 +118,11 @@ color_space::color_base * color_manipulation::chromatic_adaptation::bradford_ada
 
 	// Convert to XYZ space and transform using bradford matrix (incl. normalization)
 	auto tmp_color = color_manipulation::color_converter::to_xyz(color);
+	auto luminance = tmp_color->y() != 0.f ? tmp_color->y() : 1.f;
 	auto rgb_comp = m_bradford * tmp_color->get_component_vector();
-	rgb_comp[0] /= color->get_component_vector()[1];
-	rgb_comp[1] /= color->get_component_vector()[1];
-	rgb_comp[2] /= color->get_component_vector()[1];
+	rgb_comp[0] /= luminance;
+	rgb_comp[1] /= luminance;
+	rgb_comp[2] /= luminance;
 
 	// Create scaled white point vectors (incl. normalization)
 	std::vector<float> source_wp = std::vector<float>();
@@ -140,11 +141,11 @@ color_space::color_base * color_manipulation::chromatic_adaptation::bradford_ada
 	// Adapt color (incl. undo of normalization)
 	auto p = powf(scaled_source_wp[2] / scaled_dest_wp[2], 0.0834f);
 	std::vector<float> tmp_rgb_comp;
-	tmp_rgb_comp.push_back((scaled_dest_wp[0] * (rgb_comp[0] / scaled_source_wp[0])) * color->get_component_vector()[1]);
-	tmp_rgb_comp.push_back((scaled_dest_wp[1] * (rgb_comp[1] / scaled_source_wp[1])) * color->get_component_vector()[1]);
+	tmp_rgb_comp.push_back((scaled_dest_wp[0] * (rgb_comp[0] / scaled_source_wp[0])) * luminance);
+	tmp_rgb_comp.push_back((scaled_dest_wp[1] * (rgb_comp[1] / scaled_source_wp[1])) * luminance);
 
 	float div = rgb_comp[2] / scaled_source_wp[2];
-	tmp_rgb_comp.push_back((scaled_dest_wp[2] * powf(fabsf(div), p)) * color->get_component_vector()[1]); // avoid overflow of float
+	tmp_rgb_comp.push_back((scaled_dest_wp[2] * powf(fabsf(div), p)) * luminance); // avoid overflow of float
 	if (div < 0.f) tmp_rgb_comp[2] *= -1.f;
 
 	auto transformed_components = m_inverted_bradford * tmp_rgb_comp;
@@ -205,10 +206,11 @@ color_space::color_base * color_manipulation::chromatic_adaptation::cmccat97_ada
 
 	// Convert to XYZ space and transform using cmccat97 matrix (incl. normalization)
 	auto tmp_color = color_manipulation::color_converter::to_xyz(color);
+	auto luminance = tmp_color->y() != 0.f ? tmp_color->y() : 1.f;
 	auto rgb_comp = m_cmccat97 * tmp_color->get_component_vector();
-	rgb_comp[0] /= color->get_component_vector()[1];
-	rgb_comp[1] /= color->get_component_vector()[1];
-	rgb_comp[2] /= color->get_component_vector()[1];
+	rgb_comp[0] /= luminance;
+	rgb_comp[1] /= luminance;
+	rgb_comp[2] /= luminance;
 
 	// Create scaled white point vectors (incl. normalization)
 	std::vector<float> source_wp = std::vector<float>();
@@ -232,9 +234,9 @@ color_space::color_base * color_manipulation::chromatic_adaptation::cmccat97_ada
 	// Adapt color (incl. undo of normalization)
 	auto p = powf(scaled_source_wp[2] / scaled_dest_wp[2], 0.0834f);
 	std::vector<float> rgbc;
-	rgbc.push_back(color->get_component_vector()[1] * (rgb_comp[0] * (d * (scaled_dest_wp[0] / scaled_source_wp[0]) + 1.f - d)));
-	rgbc.push_back(color->get_component_vector()[1] * (rgb_comp[1] * (d * (scaled_dest_wp[1] / scaled_source_wp[1]) + 1.f - d)));
-	rgbc.push_back(color->get_component_vector()[1] * (powf(fabsf(rgb_comp[2]), p) * (d * (scaled_dest_wp[2] / powf(scaled_source_wp[2], p)) + 1.f - d)));
+	rgbc.push_back(luminance * (rgb_comp[0] * (d * (scaled_dest_wp[0] / scaled_source_wp[0]) + 1.f - d)));
+	rgbc.push_back(luminance * (rgb_comp[1] * (d * (scaled_dest_wp[1] / scaled_source_wp[1]) + 1.f - d)));
+	rgbc.push_back(luminance * (powf(fabsf(rgb_comp[2]), p) * (d * (scaled_dest_wp[2] / powf(scaled_source_wp[2], p)) + 1.f - d)));
 
 	if (rgb_comp[2] < 0.f) rgbc[2] *= -1.f;
 
-- 
2.43.0


From 0f459dfe6aeedac2c5f399d1265244529baa59af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:52 +0000
Subject: [PATCH 35/38] fix: hex codes with a # inside were accepted and read
 uninitialised values

---
 ColorMagic/spaces/rgb_truecolor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ColorMagic/spaces/rgb_truecolor.cpp b/ColorMagic/spaces/rgb_truecolor.cpp
index 4d53223..a37da36 100644
--- a/ColorMagic/spaces/rgb_truecolor.cpp
+++ b/ColorMagic/spaces/rgb_truecolor.cpp
@@ -21,7 +21,7 @@ color_space::rgb_truecolor::rgb_truecolor(float r, float g, float b, float alpha
 
 color_space::rgb_truecolor::rgb_truecolor(std::string hex_code, rgb_color_space_definition* color_space) : color_base(0, color_space, 3, 255.f, 0.f)
 {
-	std::regex regex("^[#0-9A-Fa-f]+$");
+	std::regex regex("^#?[0-9A-Fa-f]+$");
 
 	if (!std::regex_match(hex_code, regex))
 	{
-- 
2.43.0


From 166f2002921cd3cfa66f5bcdbb8eeb17ee80d47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:28 +0000
Subject: [PATCH 36/38] fix: rgb_deep_to_cmyk divided by zero for black

---
 ColorMagic/manipulation/color_converter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ColorMagic/manipulation/color_converter.cpp b/ColorMagic/manipulation/color_converter.cpp
index 20c0054..c25ac8c 100644
--- a/ColorMagic/manipulation/color_converter.cpp
+++ b/ColorMagic/manipulation/color_converter.cpp
@@ -133,6 +133,7 @@ color_space::grey_deepcolor* color_manipulation::color_converter::rgb_deep_to_gr
 color_space::cmyk* color_manipulation::color_converter::rgb_deep_to_cmyk(color_space::rgb_deepcolor* color)
 {
 	auto k = 1 - std::fmaxf(std::fmaxf(color->red(), color->green()), color->blue());
+	if (k == 1.f) return new color_space::cmyk(0.f, 0.f, 0.f, k, color->alpha(), color->get_rgb_color_space());
 	auto c = (1 - color->red() - k) / (1.f - k);
 	auto m = (1 - color->green() - k) / (1.f - k);
 	auto y = (1 - color->blue() - k) / (1.f - k);
-- 
2.43.0


From 71fa07775bcd9fe314c911487354c498de557b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:01 +0000
Subject: [PATCH 37/38] fix: matrix operations read past short vectors and
 truncated operands of another shape

---
 ColorMagic/utils/matrix.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ColorMagic/utils/matrix.h b/ColorMagic/utils/matrix.h
index 2ff37ba..b1586b3 100644
--- a/ColorMagic/utils/matrix.h
+++ b/ColorMagic/utils/matrix.h
@@ -166,6 +166,8 @@ public:
 	//! Add two matrices
 	matrix<T> operator+(const matrix<T>& other)
 	{
+		if (m_rows != other.rows() || m_columns != other.columns()) throw std::out_of_range("Matrix: both matrices need to have the same number of rows and columns.");
+
 		matrix result(m_rows, m_columns);
 
 		for (int i = 0; i < m_rows; i++)
@@ -190,6 +192,8 @@ public:
 	//! Subtract two matrices
 	matrix<T> operator-(const matrix<T>& other)
 	{
+		if (m_rows != other.rows() || m_columns != other.columns()) throw std::out_of_range("Matrix: both matrices need to have the same number of rows and columns.");
+
 		matrix result(m_rows, m_columns);
 
 		for (int i = 0; i < m_rows; i++)
@@ -214,6 +218,8 @@ public:
 	//! Multiply two matrices
 	matrix<T> operator*(const matrix<T>& other)
 	{
+		if (m_columns != other.rows()) throw std::out_of_range("Matrix: the number of columns has to match the number of rows of the other matrix.");
+
 		int rows = m_rows;
 		int cols = other.columns();
 		matrix result(rows, cols);
@@ -311,6 +317,8 @@ public:
 	*/
 	std::vector<T> operator*(const std::vector<T>& other)
 	{
+		if (m_columns != (int)other.size()) throw std::out_of_range("Matrix: the number of columns has to match the size of the vector.");
+
 		std::vector<T> result(m_rows);
 
 		for (int i = 0; i < m_rows; i++)
-- 
2.43.0


From dae933dee5a7090ff502fadfa4c7782e5336f0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:26 +0000
Subject: [PATCH 38/38] fix: hue, saturation, color and luminosity blending
 accepted colors of different rgb spaces

---
 ColorMagic/manipulation/color_blend.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/ColorMagic/manipulation/color_blend.cpp b/ColorMagic/manipulation/color_blend.cpp
index d5f79bd..a9b2de4 100644
--- a/ColorMagic/manipulation/color_blend.cpp
+++ b/ColorMagic/manipulation/color_blend.cpp
@@ -442,6 +442,11 @@ color_space::color_base * color_manipulation::color_blend::custom_componentwise_
 
 color_space::color_base * color_manipulation::color_blend::hue(color_space::color_base * source, color_space::color_base * destination, bool use_source_region, bool use_destination_region)
 {
+	// Check input params
+	if (source == nullptr) throw new std::invalid_argument("source color is null.");
+	if (destination == nullptr) throw new std::invalid_argument("destination color is null.");
+	if (source->get_rgb_color_space() != destination->get_rgb_color_space()) throw new std::invalid_argument("The rgb color space definitions of both colors do not match.");
+
 	color_space::hcy* s_hcy = color_manipulation::color_converter::to_hcy(source);
 	color_space::hcy* d_hcy = color_manipulation::color_converter::to_hcy(destination);
 	color_space::hcy* result = new color_space::hcy(s_hcy->hue(), d_hcy->chroma(), d_hcy->luma(), s_hcy->alpha(), s_hcy->get_rgb_color_space());
@@ -450,6 +455,11 @@ color_space::color_base * color_manipulation::color_blend::hue(color_space::colo
 
 color_space::color_base * color_manipulation::color_blend::saturation(color_space::color_base * source, color_space::color_base * destination, bool use_source_region, bool use_destination_region)
 {
+	// Check input params
+	if (source == nullptr) throw new std::invalid_argument("source color is null.");
+	if (destination == nullptr) throw new std::invalid_argument("destination color is null.");
+	if (source->get_rgb_color_space() != destination->get_rgb_color_space()) throw new std::invalid_argument("The rgb color space definitions of both colors do not match.");
+
 	color_space::hcy* s_hcy = color_manipulation::color_converter::to_hcy(source);
 	color_space::hcy* d_hcy = color_manipulation::color_converter::to_hcy(destination);
 	color_space::hcy* result = new color_space::hcy(d_hcy->hue(), s_hcy->chroma(), d_hcy->luma(), s_hcy->alpha(), s_hcy->get_rgb_color_space());
@@ -458,6 +468,11 @@ color_space::color_base * color_manipulation::color_blend::saturation(color_spac
 
 color_space::color_base * color_manipulation::color_blend::color(color_space::color_base * source, color_space::color_base * destination, bool use_source_region, bool use_destination_region)
 {
+	// Check input params
+	if (source == nullptr) throw new std::invalid_argument("source color is null.");
+	if (destination == nullptr) throw new std::invalid_argument("destination color is null.");
+	if (source->get_rgb_color_space() != destination->get_rgb_color_space()) throw new std::invalid_argument("The rgb color space definitions of both colors do not match.");
+
 	color_space::hcy* s_hcy = color_manipulation::color_converter::to_hcy(source);
 	color_space::hcy* d_hcy = color_manipulation::color_converter::to_hcy(destination);
 	color_space::hcy* result = new color_space::hcy(s_hcy->hue(), s_hcy->chroma(), d_hcy->luma(), s_hcy->alpha(), s_hcy->get_rgb_color_space());
@@ -466,6 +481,11 @@ color_space::color_base * color_manipulation::color_blend::color(color_space::co
 
 color_space::color_base * color_manipulation::color_blend::luminosity(color_space::color_base * source, color_space::color_base * destination, bool use_source_region, bool use_destination_region)
 {
+	// Check input params
+	if (source == nullptr) throw new std::invalid_argument("source color is null.");
+	if (destination == nullptr) throw new std::invalid_argument("destination color is null.");
+	if (source->get_rgb_color_space() != destination->get_rgb_color_space()) throw new std::invalid_argument("The rgb color space definitions of both colors do not match.");
+
 	color_space::hcy* s_hcy = color_manipulation::color_converter::to_hcy(source);
 	color_space::hcy* d_hcy = color_manipulation::color_converter::to_hcy(destination);
 	color_space::hcy* result = new color_space::hcy(d_hcy->hue(), d_hcy->chroma(), s_hcy->luma(), s_hcy->alpha(), s_hcy->get_rgb_color_space());
-- 
2.43.0

