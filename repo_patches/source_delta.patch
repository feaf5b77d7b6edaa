From 370c0f0aabe1e5750f3c9571f587c63c04e60a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:59 +0000
Subject: [PATCH 01/40] fix: black converts to CMYK without dividing zero by
 zero

---
 ColorMagic/manipulation/color_converter.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ColorMagic/manipulation/color_converter.cpp b/ColorMagic/manipulation/color_converter.cpp
index c1c087b..a7983e3 100644
--- a/ColorMagic/manipulation/color_converter.cpp
+++ b/ColorMagic/manipulation/color_converter.cpp
@@ -129,6 +129,10 @@ color_space::grey_deepcolor* color_manipulation::color_converter::rgb_deep_to_gr
 color_space::cmyk* color_manipulation::color_converter::rgb_deep_to_cmyk(color_space::rgb_deepcolor* color)
 {
 	auto k = 1 - std::fmaxf(std::fmaxf(color->red(), color->green()), color->blue());
+	if (k >= 1.f) // black
+	{
+		return new color_space::cmyk(0.f, 0.f, 0.f, k, color->alpha(), color->get_rgb_color_space());
+	}
 	auto c = (1 - color->red() - k) / (1.f - k);
 	auto m = (1 - color->green() - k) / (1.f - k);
 	auto y = (1 - color->blue() - k) / (1.f - k);
-- 
2.43.0


From 3fae80abe497d0caeb60855d10713fc20263a020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:56 +0000
Subject: [PATCH 02/40] fix: HSI to RGB adds the achromatic offset

---
 ColorMagic/manipulation/color_converter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ColorMagic/manipulation/color_converter.cpp b/ColorMagic/manipulation/color_converter.cpp
index a7983e3..c3fc2d5 100644
--- a/ColorMagic/manipulation/color_converter.cpp
+++ b/ColorMagic/manipulation/color_converter.cpp
@@ -477,6 +477,7 @@ color_space::rgb_deepcolor* color_manipulation::color_converter::hsi_to_rgb_deep
 	auto Z = 1.f - std::fabsf(std::fmodf(h_temp, 2.f) - 1.f);
 	auto chroma = (3.f* color->intensity()* color->saturation()) / (1.f + Z);
 	auto x = chroma * Z;
+	auto m = color->intensity()* (1.f - color->saturation());
 
 	float r_temp, g_temp, b_temp;
 	if (h_temp >= 0.f && h_temp <= 1.f) { r_temp = chroma;	g_temp = x;			b_temp = 0.f; }
@@ -487,7 +488,7 @@ color_space::rgb_deepcolor* color_manipulation::color_converter::hsi_to_rgb_deep
 	else if (h_temp > 5.f && h_temp <= 6.f) { r_temp = chroma;	g_temp = 0.f;		b_temp = x; }
 	else { r_temp = 0.f;		g_temp = 0.f;		b_temp = 0.f; }
 
-	return new color_space::rgb_deepcolor(r_temp, g_temp, b_temp, color->alpha(), color->get_rgb_color_space());
+	return new color_space::rgb_deepcolor(r_temp + m, g_temp + m, b_temp + m, color->alpha(), color->get_rgb_color_space());
 }
 
 color_space::grey_truecolor* color_manipulation::color_converter::hsi_to_grey_true(color_space::hsi* color)
-- 
2.43.0


From 2d92fc113b239acdfbfd95c06e67245af43b4957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:00 +0000
Subject: [PATCH 03/40] fix: HSL to HSV uses the saturation, black has none

---
 ColorMagic/manipulation/color_converter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ColorMagic/manipulation/color_converter.cpp b/ColorMagic/manipulation/color_converter.cpp
index c3fc2d5..1811770 100644
--- a/ColorMagic/manipulation/color_converter.cpp
+++ b/ColorMagic/manipulation/color_converter.cpp
@@ -707,9 +707,9 @@ color_space::hsi* color_manipulation::color_converter::hsl_to_hsi(color_space::h
 color_space::hsv* color_manipulation::color_converter::hsl_to_hsv(color_space::hsl* color)
 {
 	auto l_temp = color->lightness()* 2.f;
-	auto m_sat = color->saturation()* (l_temp <= 1.f) ? l_temp : (2.f - l_temp);
+	auto m_sat = color->saturation()* ((l_temp <= 1.f) ? l_temp : (2.f - l_temp));
 	auto v = (l_temp + m_sat) / 2.f;
-	auto s = (2.f* m_sat) / (l_temp + m_sat);
+	auto s = v > 0.f ? m_sat / v : 0.f; // black has no saturation
 	return new color_space::hsv(color->hue(), s, v, color->alpha(), color->get_rgb_color_space());
 }
 
-- 
2.43.0


From 55c4ae681257bc04e78c82d208596ba7a0bef26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:01 +0000
Subject: [PATCH 04/40] fix: converting a black HSL color keeps its alpha

---
 ColorMagic/manipulation/color_converter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ColorMagic/manipulation/color_converter.cpp b/ColorMagic/manipulation/color_converter.cpp
index 1811770..b937e18 100644
--- a/ColorMagic/manipulation/color_converter.cpp
+++ b/ColorMagic/manipulation/color_converter.cpp
@@ -654,7 +654,7 @@ color_space::rgb_truecolor* color_manipulation::color_converter::hsl_to_rgb_true
 
 color_space::rgb_deepcolor* color_manipulation::color_converter::hsl_to_rgb_deep(color_space::hsl* color)
 {
-	if (color->lightness() == 0.f) return new color_space::rgb_deepcolor(0.f, 0.f, color->get_rgb_color_space());
+	if (color->lightness() == 0.f) return new color_space::rgb_deepcolor(0.f, color->alpha(), color->get_rgb_color_space());
 
 	/* Old not optimized version
 
-- 
2.43.0


From 4e7ef19038d5aec011336c79408c9bb2a94ba473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:02 +0000
Subject: [PATCH 05/40] fix: converting an RGB color to XYZ leaves the source
 color alone

---
 ColorMagic/manipulation/color_converter.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ColorMagic/manipulation/color_converter.cpp b/ColorMagic/manipulation/color_converter.cpp
index b937e18..26e9988 100644
--- a/ColorMagic/manipulation/color_converter.cpp
+++ b/ColorMagic/manipulation/color_converter.cpp
@@ -217,9 +217,10 @@ color_space::hcy* color_manipulation::color_converter::rgb_deep_to_hcy(color_spa
 
 color_space::xyz* color_manipulation::color_converter::rgb_deep_to_xyz(color_space::rgb_deepcolor* color)
 {
-	color->do_inverse_gamma_correction();
+	auto linear = *color;
+	linear.do_inverse_gamma_correction();
 
-	auto xyz_components = color->get_rgb_color_space()->get_transform_matrix()* color->get_component_vector();
+	auto xyz_components = color->get_rgb_color_space()->get_transform_matrix()* linear.get_component_vector();
 	return new color_space::xyz(xyz_components[0], xyz_components[1], xyz_components[2], color->alpha(), color->get_rgb_color_space());
 }
 
-- 
2.43.0


From 3a3465856c5820e4f86b5f1e9b9be3dd6f198401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:04 +0000
Subject: [PATCH 06/40] fix: XYZ to CIELUV uses Y for the lightness and the v'
 of the white point

---
 ColorMagic/manipulation/color_converter.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ColorMagic/manipulation/color_converter.cpp b/ColorMagic/manipulation/color_converter.cpp
index 26e9988..719793c 100644
--- a/ColorMagic/manipulation/color_converter.cpp
+++ b/ColorMagic/manipulation/color_converter.cpp
@@ -904,7 +904,13 @@ color_space::xyy* color_manipulation::color_converter::xyz_to_xyy(color_space::x
 
 color_space::cieluv* color_manipulation::color_converter::xyz_to_cieluv(color_space::xyz* color)
 {
-	auto y_temp = color->x() / color->get_rgb_color_space()->get_white_point()->get_tristimulus_y();
+	if (color->x() == 0.f && color->y() == 0.f && color->z() == 0.f)
+	{
+		// special case for black (its chromaticity is undefined)
+		return new color_space::cieluv(0.f, 0.f, 0.f, color->alpha(), color->get_rgb_color_space());
+	}
+
+	auto y_temp = color->y() / color->get_rgb_color_space()->get_white_point()->get_tristimulus_y();
 	auto u_temp = 4.f* color->x() / (color->x() + 15.f* color->y() + 3.f* color->z());
 	auto v_temp = 9.f* color->y() / (color->x() + 15.f* color->y() + 3.f* color->z());
 
@@ -913,7 +919,7 @@ color_space::cieluv* color_manipulation::color_converter::xyz_to_cieluv(color_sp
 			15.f* color->get_rgb_color_space()->get_white_point()->get_tristimulus_y() +
 			3.f* color->get_rgb_color_space()->get_white_point()->get_tristimulus_z());
 
-	auto v_w_temp = 4.f* color->get_rgb_color_space()->get_white_point()->get_tristimulus_y() /
+	auto v_w_temp = 9.f* color->get_rgb_color_space()->get_white_point()->get_tristimulus_y() /
 		(color->get_rgb_color_space()->get_white_point()->get_tristimulus_x() +
 			15.f* color->get_rgb_color_space()->get_white_point()->get_tristimulus_y() +
 			3.f* color->get_rgb_color_space()->get_white_point()->get_tristimulus_z());
-- 
2.43.0


From f6f20f2f49950e4e052706dd96aae2e40e2db4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:06 +0000
Subject: [PATCH 07/40] fix: CIELUV to XYZ is defined for black and imaginary
 chromaticities

---
 ColorMagic/manipulation/color_converter.cpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/ColorMagic/manipulation/color_converter.cpp b/ColorMagic/manipulation/color_converter.cpp
index 719793c..26d9af3 100644
--- a/ColorMagic/manipulation/color_converter.cpp
+++ b/ColorMagic/manipulation/color_converter.cpp
@@ -1092,13 +1092,22 @@ color_space::xyz* color_manipulation::color_converter::cieluv_to_xyz(color_space
 			3.f* color->get_rgb_color_space()->get_white_point()->get_tristimulus_z());
 
 	auto Y = color->L() > 903.3f* 0.008856f ? powf((color->L() + 16.f) / 116.f, 3.f) : color->L() / 903.3f;
-	auto a = 1.f / 3.f* ((52.f* color->L() / (color->u() + 13.f* color->L()* u_temp)) - 1.f);
-	auto b = -5.f* Y;
-	auto c = -1.f / 3.f;
-	auto d = Y * ((39.f* color->L() / (color->v() + 13.f* color->L()* v_temp)) - 5.f);
+	if (color->L() == 0.f)
+	{
+		// special case for black (its chromaticity is undefined)
+		return new color_space::xyz(0.f, 0.f, 0.f, color->alpha(), color->get_rgb_color_space());
+	}
+
+	auto u_prime = color->u() / (13.f* color->L()) + u_temp;
+	auto v_prime = color->v() / (13.f* color->L()) + v_temp;
+	if (v_prime <= 0.f)
+	{
+		// outside of the chromaticity diagram, X and Z are unbounded
+		return new color_space::xyz(0.f, Y, 0.f, color->alpha(), color->get_rgb_color_space());
+	}
 
-	auto X = (d - b) / (a - c);
-	auto Z = X * a + b;
+	auto X = Y * 9.f* u_prime / (4.f* v_prime);
+	auto Z = Y * (12.f - 3.f* u_prime - 20.f* v_prime) / (4.f* v_prime);
 	return new color_space::xyz(X, Y, Z, color->alpha(), color->get_rgb_color_space());
 }
 
-- 
2.43.0


From d318d175a35e0f9f73e6cd50dae30d5504f61f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:07 +0000
Subject: [PATCH 08/40] fix: Lab to LCH returns the hue in degrees and an
 unscaled chroma

---
 ColorMagic/manipulation/color_converter.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ColorMagic/manipulation/color_converter.cpp b/ColorMagic/manipulation/color_converter.cpp
index 26d9af3..54070d4 100644
--- a/ColorMagic/manipulation/color_converter.cpp
+++ b/ColorMagic/manipulation/color_converter.cpp
@@ -1208,8 +1208,7 @@ color_space::xyy* color_manipulation::color_converter::lab_to_xyy(color_space::l
 color_space::lch_ab* color_manipulation::color_converter::lab_to_lch_ab(color_space::lab* color)
 {
 	auto chroma = sqrtf(powf(color->a(), 2.f) + powf(color->b(), 2.f));
-	chroma = transform_range(chroma, color->get_component_min(), color->get_component_max(), 0.f, 100.f);
-	auto hue = atan2f(color->b(), color->a());
+	auto hue = (float)(atan2f(color->b(), color->a())* 180.f / M_PI);
 	if (hue < 0.f) hue += 360.f;
 
 	auto lch = new color_space::lch_ab(color->luminance(), chroma, hue, 0.f, color->get_rgb_color_space());
-- 
2.43.0


From 4666bac10ddf3bc7cdd58ddea2d4dbd623d67277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:08 +0000
Subject: [PATCH 09/40] fix: CIELUV to LCH returns the hue in degrees and an
 unscaled chroma

---
 ColorMagic/manipulation/color_converter.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ColorMagic/manipulation/color_converter.cpp b/ColorMagic/manipulation/color_converter.cpp
index 54070d4..6a98b51 100644
--- a/ColorMagic/manipulation/color_converter.cpp
+++ b/ColorMagic/manipulation/color_converter.cpp
@@ -1129,8 +1129,7 @@ color_space::lch_ab* color_manipulation::color_converter::cieluv_to_lch_ab(color
 color_space::lch_uv* color_manipulation::color_converter::cieluv_to_lch_uv(color_space::cieluv* color)
 {
 	auto chroma = sqrtf(powf(color->u(), 2.f) + powf(color->v(), 2.f));
-	chroma = transform_range(chroma, color->get_component_min(), color->get_component_max(), 0.f, 100.f);
-	auto hue = atan2f(color->v(), color->u());
+	auto hue = (float)(atan2f(color->v(), color->u())* 180.f / M_PI);
 	if (hue < 0.f) hue += 360.f;
 
 	auto lch = new color_space::lch_uv(color->L(), chroma, hue, 0.f, color->get_rgb_color_space());
-- 
2.43.0


From b35bef1e28e5d3d3a08dc130d2ea18672b3f770c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:10 +0000
Subject: [PATCH 10/40] fix: convertTo supports LCH_AB and LCH_UV

---
 ColorMagic/manipulation/color_converter.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ColorMagic/manipulation/color_converter.cpp b/ColorMagic/manipulation/color_converter.cpp
index 6a98b51..122e700 100644
--- a/ColorMagic/manipulation/color_converter.cpp
+++ b/ColorMagic/manipulation/color_converter.cpp
@@ -33,6 +33,10 @@ color_space::color_base* color_manipulation::color_converter::convertTo(color_sp
 		return color_manipulation::color_converter::to_cieluv(in_color);
 	case color_type::LAB:
 		return color_manipulation::color_converter::to_lab(in_color);
+	case color_type::LCH_AB:
+		return color_manipulation::color_converter::to_lch_ab(in_color);
+	case color_type::LCH_UV:
+		return color_manipulation::color_converter::to_lch_uv(in_color);
 	default:
 		return nullptr;
 	}
-- 
2.43.0


From 6d9b5add64f63b0c94724aa40f43ba1d9990fbc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:32 +0000
Subject: [PATCH 11/40] fix: the constructor of color_base limits alpha

---
 ColorMagic/spaces/color_base.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ColorMagic/spaces/color_base.h b/ColorMagic/spaces/color_base.h
index 074bd2a..de6e749 100644
--- a/ColorMagic/spaces/color_base.h
+++ b/ColorMagic/spaces/color_base.h
@@ -32,7 +32,7 @@ namespace color_space
 		*/
 		color_base(float alpha, rgb_color_space_definition* color_space, size_t component_count, float component_max = 1.f, float component_min = 0.f)
 		{
-			m_alpha = alpha;
+			m_alpha = clamp(alpha, m_a_max, m_a_min);
 			m_rgb_color_space = color_space;
 			m_max = component_max;
 			m_min = component_min;
@@ -176,6 +176,7 @@ namespace color_space
 			if (this->get_color_type() == rhs.get_color_type() && this->m_component_vector.size() == rhs.m_component_vector.size())
 			{
 				result.m_type = this->m_type;
+				result.m_alpha = this->alpha();
 				for (size_t i = 0; i < this->m_component_vector.size(); ++i)
 				{
 					result.m_component_vector[i] = clamp(this->m_component_vector[i] + rhs.m_component_vector[i], m_max, m_min);
-- 
2.43.0


From 4ce9fbfc0b30de20b25531814829df4b4f8f7e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:43 +0000
Subject: [PATCH 12/40] fix: dividing by alpha keeps the components in range

---
 ColorMagic/spaces/color_base.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ColorMagic/spaces/color_base.h b/ColorMagic/spaces/color_base.h
index de6e749..83062e7 100644
--- a/ColorMagic/spaces/color_base.h
+++ b/ColorMagic/spaces/color_base.h
@@ -211,7 +211,7 @@ namespace color_space
 
 			for (size_t i = 0; i < m_component_vector.size(); ++i)
 			{
-				m_component_vector[i] /= m_alpha;
+				m_component_vector[i] = clamp(m_component_vector[i] / m_alpha, m_max, m_min);
 			}
 		}
 
-- 
2.43.0


From e6f99a36c6df27d44a69dfdc61679d196c96f2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:47 +0000
Subject: [PATCH 13/40] fix: colors of every type can be constructed from a
 color_base of that type

---
 ColorMagic/spaces/cieluv.cpp         | 2 +-
 ColorMagic/spaces/grey_truecolor.cpp | 3 ++-
 ColorMagic/spaces/rgb_deepcolor.cpp  | 2 +-
 ColorMagic/spaces/rgb_truecolor.cpp  | 3 ++-
 4 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/ColorMagic/spaces/cieluv.cpp b/ColorMagic/spaces/cieluv.cpp
index ae81bb5..b1af8fb 100644
--- a/ColorMagic/spaces/cieluv.cpp
+++ b/ColorMagic/spaces/cieluv.cpp
@@ -18,7 +18,7 @@ color_space::cieluv::cieluv(const color_space::cieluv & other) : color_base(othe
 
 color_space::cieluv::cieluv(const color_base & other) : color_base(other.alpha(), other.get_rgb_color_space(), 4, other.get_component_max(), other.get_component_min())
 {
-	if (other.get_color_type() == color_type::CIELUV && other.get_component_vector().size() == 4)
+	if (other.get_color_type() == color_type::CIELUV && other.get_component_vector().size() == 3)
 	{
 		this->m_type = color_type::CIELUV;
 		this->m_component_vector = other.get_component_vector();
diff --git a/ColorMagic/spaces/grey_truecolor.cpp b/ColorMagic/spaces/grey_truecolor.cpp
index 9906aa4..589fb87 100644
--- a/ColorMagic/spaces/grey_truecolor.cpp
+++ b/ColorMagic/spaces/grey_truecolor.cpp
@@ -17,10 +17,11 @@ color_space::grey_truecolor::grey_truecolor(const color_space::grey_truecolor &
 
 color_space::grey_truecolor::grey_truecolor(const color_base & other) : color_base(other.alpha(), other.get_rgb_color_space(), 1, other.get_component_max(), other.get_component_min())
 {
-	if (other.get_color_type() == color_type::GREY_TRUE && other.get_component_vector().size() == 2)
+	if (other.get_color_type() == color_type::GREY_TRUE && other.get_component_vector().size() == 1)
 	{
 		this->m_type = color_type::GREY_TRUE;
 		this->m_component_vector = other.get_component_vector();
+		this->alpha(other.alpha());
 	}
 	else
 	{
diff --git a/ColorMagic/spaces/rgb_deepcolor.cpp b/ColorMagic/spaces/rgb_deepcolor.cpp
index 791cdee..a23e8a8 100644
--- a/ColorMagic/spaces/rgb_deepcolor.cpp
+++ b/ColorMagic/spaces/rgb_deepcolor.cpp
@@ -26,7 +26,7 @@ color_space::rgb_deepcolor::rgb_deepcolor(const color_space::rgb_deepcolor & oth
 
 color_space::rgb_deepcolor::rgb_deepcolor(const color_base & other) : color_base(other.alpha(), other.get_rgb_color_space(), 3, other.get_component_max(), other.get_component_min())
 {
-	if (other.get_color_type() == color_type::RGB_DEEP && other.get_component_vector().size() == 4)
+	if (other.get_color_type() == color_type::RGB_DEEP && other.get_component_vector().size() == 3)
 	{
 		this->m_type = color_type::RGB_DEEP;
 		this->m_component_vector = other.get_component_vector();
diff --git a/ColorMagic/spaces/rgb_truecolor.cpp b/ColorMagic/spaces/rgb_truecolor.cpp
index ec9f2ca..b35c6e2 100644
--- a/ColorMagic/spaces/rgb_truecolor.cpp
+++ b/ColorMagic/spaces/rgb_truecolor.cpp
@@ -77,10 +77,11 @@ color_space::rgb_truecolor::rgb_truecolor(const color_space::rgb_truecolor & oth
 
 color_space::rgb_truecolor::rgb_truecolor(const color_base & other) : color_base(other.alpha(), other.get_rgb_color_space(), 3, other.get_component_max(), other.get_component_min())
 {
-	if (other.get_color_type() == color_type::RGB_TRUE && other.get_component_vector().size() == 4)
+	if (other.get_color_type() == color_type::RGB_TRUE && other.get_component_vector().size() == 3)
 	{
 		this->m_type = color_type::RGB_TRUE;
 		this->m_component_vector = other.get_component_vector();
+		this->alpha(other.alpha());
 	}
 	else
 	{
-- 
2.43.0


From 7514f331195ecb2e43a768f97993ac4448e71b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:07 +0000
Subject: [PATCH 14/40] fix: components are limited to the range of their own
 channel

---
 ColorMagic/spaces/cieluv.h     |  7 +++++++
 ColorMagic/spaces/color_base.h | 26 +++++++++++++++++++++-----
 ColorMagic/spaces/hcy.h        |  7 +++++++
 ColorMagic/spaces/hsi.h        |  7 +++++++
 ColorMagic/spaces/hsl.h        |  7 +++++++
 ColorMagic/spaces/hsv.h        |  7 +++++++
 ColorMagic/spaces/lab.h        |  7 +++++++
 ColorMagic/spaces/lch_ab.h     |  7 +++++++
 ColorMagic/spaces/lch_uv.h     |  7 +++++++
 9 files changed, 77 insertions(+), 5 deletions(-)

diff --git a/ColorMagic/spaces/cieluv.h b/ColorMagic/spaces/cieluv.h
index 5e1f715..8beb44e 100644
--- a/ColorMagic/spaces/cieluv.h
+++ b/ColorMagic/spaces/cieluv.h
@@ -73,6 +73,13 @@ namespace color_space
 		//! \param new_v The v value to set.
 		void v(float new_v);
 
+	protected:
+		//! Maximum value (inclusive) of one component.
+		float component_max(size_t index) const override { return index == 0 ? 100.f : color_base::component_max(index); }
+
+		//! Minimum value (inclusive) of one component.
+		float component_min(size_t index) const override { return index == 0 ? 0.f : color_base::component_min(index); }
+
 	private:
 
 	};
diff --git a/ColorMagic/spaces/color_base.h b/ColorMagic/spaces/color_base.h
index 83062e7..dde309b 100644
--- a/ColorMagic/spaces/color_base.h
+++ b/ColorMagic/spaces/color_base.h
@@ -84,7 +84,7 @@ namespace color_space
 		void set_component(float new_value, int index) 
 		{
 			if (index < 0 || index >= m_component_vector.size()) throw new std::out_of_range("Index out of range by setting color component.");
-			m_component_vector[index] = clamp(new_value, m_max, m_min); 
+			m_component_vector[index] = clamp(new_value, component_max(index), component_min(index)); 
 		}
 
 		//! Setter for a component. 
@@ -179,7 +179,7 @@ namespace color_space
 				result.m_alpha = this->alpha();
 				for (size_t i = 0; i < this->m_component_vector.size(); ++i)
 				{
-					result.m_component_vector[i] = clamp(this->m_component_vector[i] + rhs.m_component_vector[i], m_max, m_min);
+					result.m_component_vector[i] = clamp(this->m_component_vector[i] + rhs.m_component_vector[i], component_max(i), component_min(i));
 				}
 			}
 			else
@@ -211,7 +211,7 @@ namespace color_space
 
 			for (size_t i = 0; i < m_component_vector.size(); ++i)
 			{
-				m_component_vector[i] = clamp(m_component_vector[i] / m_alpha, m_max, m_min);
+				m_component_vector[i] = clamp(m_component_vector[i] / m_alpha, component_max(i), component_min(i));
 			}
 		}
 
@@ -223,7 +223,7 @@ namespace color_space
 		{
 			for (size_t i = 0; i < m_component_vector.size(); ++i)
 			{
-				m_component_vector[i] = clamp(m_rgb_color_space->get_gamma_curve()->gamma_correction(m_component_vector[i]), m_max, m_min);
+				m_component_vector[i] = clamp(m_rgb_color_space->get_gamma_curve()->gamma_correction(m_component_vector[i]), component_max(i), component_min(i));
 			}
 		}
 
@@ -235,11 +235,27 @@ namespace color_space
 		{
 			for (size_t i = 0; i < m_component_vector.size(); ++i)
 			{
-				m_component_vector[i] = clamp(m_rgb_color_space->get_gamma_curve()->inverse_gamma_correction(m_component_vector[i]), m_max, m_min);
+				m_component_vector[i] = clamp(m_rgb_color_space->get_gamma_curve()->inverse_gamma_correction(m_component_vector[i]), component_max(i), component_min(i));
 			}
 		}
 
 	protected:
+		//! Maximum value (inclusive) of one component.
+		/*!
+		* Maximum value (inclusive) of one component. Color types whose components have different limits override this.
+		* \param index The index of the component.
+		* \return The maximum value of the component.
+		*/
+		virtual float component_max(size_t index) const { return m_max; }
+
+		//! Minimum value (inclusive) of one component.
+		/*!
+		* Minimum value (inclusive) of one component. Color types whose components have different limits override this.
+		* \param index The index of the component.
+		* \return The minimum value of the component.
+		*/
+		virtual float component_min(size_t index) const { return m_min; }
+
 		//! Clamps a given value between a given max and min value (inclusive).
 		/*!
 		* Clamps a given value between a given max and min value (inclusive).
diff --git a/ColorMagic/spaces/hcy.h b/ColorMagic/spaces/hcy.h
index 71459b1..d5490f6 100644
--- a/ColorMagic/spaces/hcy.h
+++ b/ColorMagic/spaces/hcy.h
@@ -74,6 +74,13 @@ namespace color_space
 		//! \param new_luma The luma value to set.
 		void luma(float new_luma);
 
+	protected:
+		//! Maximum value (inclusive) of one component.
+		float component_max(size_t index) const override { return index == 0 ? m_degrees_max : color_base::component_max(index); }
+
+		//! Minimum value (inclusive) of one component.
+		float component_min(size_t index) const override { return index == 0 ? m_degrees_min : color_base::component_min(index); }
+
 	private:
 		//! Specific maximum for hue component.
 		/*!
diff --git a/ColorMagic/spaces/hsi.h b/ColorMagic/spaces/hsi.h
index d338532..e719fe7 100644
--- a/ColorMagic/spaces/hsi.h
+++ b/ColorMagic/spaces/hsi.h
@@ -74,6 +74,13 @@ namespace color_space
 		//! \param new_intensity The intensity value to set.
 		void intensity(float new_intensity);
 
+	protected:
+		//! Maximum value (inclusive) of one component.
+		float component_max(size_t index) const override { return index == 0 ? m_degrees_max : color_base::component_max(index); }
+
+		//! Minimum value (inclusive) of one component.
+		float component_min(size_t index) const override { return index == 0 ? m_degrees_min : color_base::component_min(index); }
+
 	private:
 		//! Specific maximum for hue component.
 		/*!
diff --git a/ColorMagic/spaces/hsl.h b/ColorMagic/spaces/hsl.h
index bd639e3..2316731 100644
--- a/ColorMagic/spaces/hsl.h
+++ b/ColorMagic/spaces/hsl.h
@@ -74,6 +74,13 @@ namespace color_space
 		//! \param new_lightness The lightness value to set.
 		void lightness(float new_lightness);
 
+	protected:
+		//! Maximum value (inclusive) of one component.
+		float component_max(size_t index) const override { return index == 0 ? m_degrees_max : color_base::component_max(index); }
+
+		//! Minimum value (inclusive) of one component.
+		float component_min(size_t index) const override { return index == 0 ? m_degrees_min : color_base::component_min(index); }
+
 	private:
 		//! Specific maximum for hue component.
 		/*!
diff --git a/ColorMagic/spaces/hsv.h b/ColorMagic/spaces/hsv.h
index 06604fd..263e4a9 100644
--- a/ColorMagic/spaces/hsv.h
+++ b/ColorMagic/spaces/hsv.h
@@ -73,6 +73,13 @@ namespace color_space
 		//! \param value The value value to set.
 		void value(float value);
 
+	protected:
+		//! Maximum value (inclusive) of one component.
+		float component_max(size_t index) const override { return index == 0 ? m_degrees_max : color_base::component_max(index); }
+
+		//! Minimum value (inclusive) of one component.
+		float component_min(size_t index) const override { return index == 0 ? m_degrees_min : color_base::component_min(index); }
+
 	private:
 		//! Specific maximum for hue component.
 		/*!
diff --git a/ColorMagic/spaces/lab.h b/ColorMagic/spaces/lab.h
index 3487115..28a759b 100644
--- a/ColorMagic/spaces/lab.h
+++ b/ColorMagic/spaces/lab.h
@@ -73,6 +73,13 @@ namespace color_space
 		//! \param new_b The a value to set.
 		void b(float new_b);
 
+	protected:
+		//! Maximum value (inclusive) of one component.
+		float component_max(size_t index) const override { return index == 0 ? m_lightness_max : color_base::component_max(index); }
+
+		//! Minimum value (inclusive) of one component.
+		float component_min(size_t index) const override { return index == 0 ? m_lightness_min : color_base::component_min(index); }
+
 	private:
 		float m_lightness_max = 100.f;
 		float m_lightness_min = 0.f;
diff --git a/ColorMagic/spaces/lch_ab.h b/ColorMagic/spaces/lch_ab.h
index 339a550..348ad03 100644
--- a/ColorMagic/spaces/lch_ab.h
+++ b/ColorMagic/spaces/lch_ab.h
@@ -73,6 +73,13 @@ namespace color_space
 		//! \param new_hue The hue value to set.
 		void hue(float new_hue);
 
+	protected:
+		//! Maximum value (inclusive) of one component.
+		float component_max(size_t index) const override { return index == 2 ? m_degrees_max : color_base::component_max(index); }
+
+		//! Minimum value (inclusive) of one component.
+		float component_min(size_t index) const override { return index == 2 ? m_degrees_min : color_base::component_min(index); }
+
 	private:
 		//! Specific maximum for hue component.
 		/*!
diff --git a/ColorMagic/spaces/lch_uv.h b/ColorMagic/spaces/lch_uv.h
index 0bb8dcf..c870752 100644
--- a/ColorMagic/spaces/lch_uv.h
+++ b/ColorMagic/spaces/lch_uv.h
@@ -73,6 +73,13 @@ namespace color_space
 		//! \param new_hue The hue value to set.
 		void hue(float new_hue);
 
+	protected:
+		//! Maximum value (inclusive) of one component.
+		float component_max(size_t index) const override { return index == 2 ? m_degrees_max : color_base::component_max(index); }
+
+		//! Minimum value (inclusive) of one component.
+		float component_min(size_t index) const override { return index == 2 ? m_degrees_min : color_base::component_min(index); }
+
 	private:
 		//! Specific maximum for hue component.
 		/*!
-- 
2.43.0


From bad8d921968a49fac9ca62604a19c90761820d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:25 +0000
Subject: [PATCH 15/40] fix: the Euclidean distance is measured in the
 requested space

---
 ColorMagic/manipulation/color_distance.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ColorMagic/manipulation/color_distance.cpp b/ColorMagic/manipulation/color_distance.cpp
index d17a8b1..b7a5a9c 100644
--- a/ColorMagic/manipulation/color_distance.cpp
+++ b/ColorMagic/manipulation/color_distance.cpp
@@ -39,7 +39,7 @@ float color_manipulation::color_distance::euclidean_distance(color_space::color_
 {
 	if (color1 == color2) return 0.f; // both colors have same type and are equal
 
-	return sqrtf(euclidean_distance_squared(color1, color2));
+	return sqrtf(euclidean_distance_squared(color1, color2, calculation_space));
 }
 
 float color_manipulation::color_distance::euclidean_distance_weighted(color_space::color_base * color1, color_space::color_base * color2)
-- 
2.43.0


From 29abc0fa4f1d6930aafaaa2f4c7a223e2cc7bc53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:27 +0000
Subject: [PATCH 16/40] fix: hue differences are never the root of a negative
 rounding error

---
 ColorMagic/manipulation/color_distance.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ColorMagic/manipulation/color_distance.cpp b/ColorMagic/manipulation/color_distance.cpp
index b7a5a9c..127a37b 100644
--- a/ColorMagic/manipulation/color_distance.cpp
+++ b/ColorMagic/manipulation/color_distance.cpp
@@ -93,7 +93,7 @@ float color_manipulation::color_distance::cielab_delta_e_cie94(color_space::colo
 	auto c1 = sqrtf(powf(color1_lab->a(), 2.f) + powf(color1_lab->b(), 2.f));
 	auto c2 = sqrtf(powf(color2_lab->a(), 2.f) + powf(color2_lab->b(), 2.f));
 	auto delta_c = c1 - c2;
-	auto delta_h = sqrtf(powf(color1_lab->a() - color2_lab->a(), 2.f) + powf(color1_lab->b() - color2_lab->b(), 2.f) - powf(delta_c, 2.f));
+	auto delta_h = sqrtf(fmaxf(0.f, powf(color1_lab->a() - color2_lab->a(), 2.f) + powf(color1_lab->b() - color2_lab->b(), 2.f) - powf(delta_c, 2.f)));
 	auto sc = 1.f + k1 * c1;
 	auto sh = 1.f + k2 * c1;
 
@@ -178,7 +178,7 @@ float color_manipulation::color_distance::cmc_delta_e_lc84(color_space::color_ba
 	auto delta_C = C1 - C2;
 	auto delta_a = color1_lab->a() - color2_lab->a();
 	auto delta_b = color1_lab->b() - color2_lab->b();
-	auto delta_H = sqrtf(powf(delta_a, 2.f) + powf(delta_b, 2.f) - powf(delta_C, 2.f));
+	auto delta_H = sqrtf(fmaxf(0.f, powf(delta_a, 2.f) + powf(delta_b, 2.f) - powf(delta_C, 2.f)));
 	auto delta_L = color1_lab->luminance() - color2_lab->luminance();
 
 	auto H = to_deg(atan2(color1_lab->b(), color1_lab->a()));
-- 
2.43.0


From ed57e39a27ab45da2e12f652dc182ae60d4cfb86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:28 +0000
Subject: [PATCH 17/40] fix: CMC hue weight includes the lower border of its
 interval

---
 ColorMagic/manipulation/color_distance.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ColorMagic/manipulation/color_distance.cpp b/ColorMagic/manipulation/color_distance.cpp
index 127a37b..cc7bb1c 100644
--- a/ColorMagic/manipulation/color_distance.cpp
+++ b/ColorMagic/manipulation/color_distance.cpp
@@ -186,7 +186,7 @@ float color_manipulation::color_distance::cmc_delta_e_lc84(color_space::color_ba
 
 	auto F = sqrtf(powf(C1, 4.f) / (powf(C1, 4.f) + 1900.f));
 	float T;
-	if (H > 164.f && H <= 345.f)
+	if (H >= 164.f && H <= 345.f)
 	{
 		T = 0.56f + abs(0.2f * cosf(to_rad(H + 168.f)));
 	}
-- 
2.43.0


From 99f7cf4a42be9029c71e88de8e305aed0ab160da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:49 +0000
Subject: [PATCH 18/40] fix: adjusting an HSL color leaves the given color
 unchanged

---
 ColorMagic/manipulation/color_adjustments.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ColorMagic/manipulation/color_adjustments.cpp b/ColorMagic/manipulation/color_adjustments.cpp
index 815adbe..c4faeb8 100644
--- a/ColorMagic/manipulation/color_adjustments.cpp
+++ b/ColorMagic/manipulation/color_adjustments.cpp
@@ -30,9 +30,10 @@ color_space::color_base * color_manipulation::color_adjustments::saturate_in_hsl
 	auto color_hsl = static_cast<color_space::hsl*>(color_manipulation::color_converter::convertTo(color, color_type::HSL));
 
 	auto factor = 1.f + percentage;
-	color_hsl->saturation(color_hsl->saturation() * factor);
+	auto new_hsl = new color_space::hsl(*color_hsl); // an HSL color converts to itself, the given color must stay as it is
+	new_hsl->saturation(new_hsl->saturation() * factor);
 
-	return color_manipulation::color_converter::convertTo(color_hsl, color->get_color_type());
+	return color_manipulation::color_converter::convertTo(new_hsl, color->get_color_type());
 }
 
 void color_manipulation::color_adjustments::luminate_in_rgb_space(color_space::color_base & color, float percentage)
@@ -64,7 +65,8 @@ color_space::color_base * color_manipulation::color_adjustments::luminate_in_hsl
 	auto color_hsl = static_cast<color_space::hsl*>(color_manipulation::color_converter::convertTo(color, color_type::HSL));
 
 	auto factor = 1.f + percentage;
-	color_hsl->lightness(color_hsl->lightness() * factor);
+	auto new_hsl = new color_space::hsl(*color_hsl); // an HSL color converts to itself, the given color must stay as it is
+	new_hsl->lightness(new_hsl->lightness() * factor);
 
-	return color_manipulation::color_converter::convertTo(color_hsl, color->get_color_type());
+	return color_manipulation::color_converter::convertTo(new_hsl, color->get_color_type());
 }
-- 
2.43.0


From 8104a971797fe1f124f939bff68cfcf2f845dd11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:50 +0000
Subject: [PATCH 19/40] fix: combinations of 8-bit colors keep the alpha

---
 ColorMagic/manipulation/color_combinations.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ColorMagic/manipulation/color_combinations.cpp b/ColorMagic/manipulation/color_combinations.cpp
index 90daf8d..396ebe4 100644
--- a/ColorMagic/manipulation/color_combinations.cpp
+++ b/ColorMagic/manipulation/color_combinations.cpp
@@ -36,7 +36,7 @@ std::vector<color_space::color_base*> color_manipulation::color_combinations::cr
 
 	for (auto i = 1; i <= number_of_colors - 1; ++i)
 	{
-		auto new_color = new color_space::hsl(color_hsl->hue() + (i * degrees), color_hsl->saturation(), color_hsl->lightness(), color->alpha(), color->get_rgb_color_space());
+		auto new_color = new color_space::hsl(color_hsl->hue() + (i * degrees), color_hsl->saturation(), color_hsl->lightness(), color_hsl->alpha(), color->get_rgb_color_space());
 		combination.push_back(color_manipulation::color_converter::convertTo(new_color, color->get_color_type()));
 	}
 
@@ -51,9 +51,9 @@ std::vector<color_space::color_base*> color_manipulation::color_combinations::cr
 	std::vector<color_space::color_base*> triplet;
 	auto color_hsl = static_cast<color_space::hsl*>(color_manipulation::color_converter::convertTo(base_color, color_type::HSL));
 
-	triplet.push_back(color_manipulation::color_converter::convertTo(new color_space::hsl(color_hsl->hue() - distance_between, color_hsl->saturation(), color_hsl->lightness(), base_color->alpha(), base_color->get_rgb_color_space()), base_color->get_color_type()));
+	triplet.push_back(color_manipulation::color_converter::convertTo(new color_space::hsl(color_hsl->hue() - distance_between, color_hsl->saturation(), color_hsl->lightness(), color_hsl->alpha(), base_color->get_rgb_color_space()), base_color->get_color_type()));
 	triplet.push_back(base_color);
-	triplet.push_back(color_manipulation::color_converter::convertTo(new color_space::hsl(color_hsl->hue() + distance_between, color_hsl->saturation(), color_hsl->lightness(), base_color->alpha(), base_color->get_rgb_color_space()), base_color->get_color_type()));
+	triplet.push_back(color_manipulation::color_converter::convertTo(new color_space::hsl(color_hsl->hue() + distance_between, color_hsl->saturation(), color_hsl->lightness(), color_hsl->alpha(), base_color->get_rgb_color_space()), base_color->get_color_type()));
 
 	return triplet;
 }
@@ -75,13 +75,13 @@ std::vector<color_space::color_base*> color_manipulation::color_combinations::cr
 		switch (mode)
 		{
 		case 0:
-			combination.push_back(color_converter::convertTo(color_adjustments::saturate_in_hsl_space(new color_space::hsl(last_hsl->hue(), last_hsl->saturation(), last_hsl->lightness(), base_color->alpha(), base_color->get_rgb_color_space()), amount), in_color_type));
+			combination.push_back(color_converter::convertTo(color_adjustments::saturate_in_hsl_space(new color_space::hsl(last_hsl->hue(), last_hsl->saturation(), last_hsl->lightness(), last_hsl->alpha(), base_color->get_rgb_color_space()), amount), in_color_type));
 			break;
 		case 1:
-			combination.push_back(color_converter::convertTo(color_adjustments::luminate_in_hsl_space(new color_space::hsl(last_hsl->hue(), last_hsl->saturation(), last_hsl->lightness(), base_color->alpha(), base_color->get_rgb_color_space()), amount), in_color_type));
+			combination.push_back(color_converter::convertTo(color_adjustments::luminate_in_hsl_space(new color_space::hsl(last_hsl->hue(), last_hsl->saturation(), last_hsl->lightness(), last_hsl->alpha(), base_color->get_rgb_color_space()), amount), in_color_type));
 			break;
 		case 2:
-			combination.push_back(color_converter::convertTo(color_adjustments::luminate_in_hsl_space(color_adjustments::saturate_in_hsl_space(new color_space::hsl(last_hsl->hue(), last_hsl->saturation(), last_hsl->lightness(), base_color->alpha(), base_color->get_rgb_color_space()), amount), amount), in_color_type));
+			combination.push_back(color_converter::convertTo(color_adjustments::luminate_in_hsl_space(color_adjustments::saturate_in_hsl_space(new color_space::hsl(last_hsl->hue(), last_hsl->saturation(), last_hsl->lightness(), last_hsl->alpha(), base_color->get_rgb_color_space()), amount), amount), in_color_type));
 			break;
 		default:
 			throw new std::invalid_argument("Invalid mode.");;
-- 
2.43.0


From 3705ae808316a4689a682a66c86f81dd73457090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:51 +0000
Subject: [PATCH 20/40] fix: a color combination with a negative count is
 invalid

---
 ColorMagic/manipulation/color_combinations.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ColorMagic/manipulation/color_combinations.cpp b/ColorMagic/manipulation/color_combinations.cpp
index 396ebe4..f6ac972 100644
--- a/ColorMagic/manipulation/color_combinations.cpp
+++ b/ColorMagic/manipulation/color_combinations.cpp
@@ -23,7 +23,7 @@ std::vector<color_space::color_base*> color_manipulation::color_combinations::cr
 
 std::vector<color_space::color_base*> color_manipulation::color_combinations::create_combination(color_space::color_base * color, int number_of_colors)
 {
-	if (number_of_colors == 0) throw new std::invalid_argument("A color combination with 0 colors in it is invalid. Chose a color count >= 2");
+	if (number_of_colors <= 0) throw new std::invalid_argument("A color combination with 0 or less colors in it is invalid. Chose a color count >= 2");
 	if (number_of_colors == 1) throw new std::invalid_argument("A color combination with 1 colors in it is invalid since it would just return the input color. Chose a color count >= 2");
 	if (number_of_colors > 360) throw new std::invalid_argument("A color combination with more than 360 colors is invalid.");
 
-- 
2.43.0


From c416ee1edb325ad069eb5ca9b930256c6b03002d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:42 +0000
Subject: [PATCH 21/40] fix: soft light is continuous at a half source channel

---
 ColorMagic/manipulation/color_blend.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ColorMagic/manipulation/color_blend.h b/ColorMagic/manipulation/color_blend.h
index 2a12731..addd870 100644
--- a/ColorMagic/manipulation/color_blend.h
+++ b/ColorMagic/manipulation/color_blend.h
@@ -719,7 +719,7 @@ namespace color_manipulation
 		static float soft_light_func(float s, float d)
 		{
 			if (s <= 0.5f) return d * (s + 0.5f);
-			else return 1.f - (1.f - d) * (1.f * (s - 0.5f));
+			else return 1.f - (1.f - d) * (1.f - (s - 0.5f));
 		}
 
 		static float vivid_light_func(float s, float d)
-- 
2.43.0


From f21b0d265027a7b1417432570d0eeb8763265dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:46 +0000
Subject: [PATCH 22/40] fix: vivid light keeps its formula for a full source
 channel

---
 ColorMagic/manipulation/color_blend.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/ColorMagic/manipulation/color_blend.h b/ColorMagic/manipulation/color_blend.h
index addd870..32be6e1 100644
--- a/ColorMagic/manipulation/color_blend.h
+++ b/ColorMagic/manipulation/color_blend.h
@@ -733,7 +733,6 @@ namespace color_manipulation
 			else
 			{
 				if (d == 1.f) return 1.f;
-				else if (s == 1.f) return 0.f;
 				else return 1.f - (1.f - d) / (2.f * (s - 0.5f));
 			}
 		}
-- 
2.43.0


From ac18ad63f84b30117821281992091597cc077f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:55 +0000
Subject: [PATCH 23/40] fix: add, mix and subtract on color_base handle every
 color type

---
 ColorMagic/manipulation/color_calculation.cpp | 20 +++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/ColorMagic/manipulation/color_calculation.cpp b/ColorMagic/manipulation/color_calculation.cpp
index 01b1b9d..d10973a 100644
--- a/ColorMagic/manipulation/color_calculation.cpp
+++ b/ColorMagic/manipulation/color_calculation.cpp
@@ -20,8 +20,12 @@ color_space::color_base * color_manipulation::color_calculation::add(color_space
 		return color_manipulation::color_calculation::add(color_manipulation::color_converter::to_cmyk(color1), color_manipulation::color_converter::to_cmyk(color2), weight1, weight2, include_alpha);
 	case color_type::HSV:
 		return color_manipulation::color_calculation::add(color_manipulation::color_converter::to_hsv(color1), color_manipulation::color_converter::to_hsv(color2), weight1, weight2, include_alpha);
+	case color_type::HSI:
+		return color_manipulation::color_calculation::add(color_manipulation::color_converter::to_hsi(color1), color_manipulation::color_converter::to_hsi(color2), weight1, weight2, include_alpha);
 	case color_type::HSL:
 		return color_manipulation::color_calculation::add(color_manipulation::color_converter::to_hsl(color1), color_manipulation::color_converter::to_hsl(color2), weight1, weight2, include_alpha);
+	case color_type::HCY:
+		return color_manipulation::color_calculation::add(color_manipulation::color_converter::to_hcy(color1), color_manipulation::color_converter::to_hcy(color2), weight1, weight2, include_alpha);
 	case color_type::XYZ:
 		return color_manipulation::color_calculation::add(color_manipulation::color_converter::to_xyz(color1), color_manipulation::color_converter::to_xyz(color2), weight1, weight2, include_alpha);
 	case color_type::XYY:
@@ -223,10 +227,18 @@ color_space::color_base * color_manipulation::color_calculation::mix(color_space
 		return color_manipulation::color_calculation::mix(color_manipulation::color_converter::to_cmyk(color1), color_manipulation::color_converter::to_cmyk(color2), weight, include_alpha);
 	case color_type::HSV:
 		return color_manipulation::color_calculation::mix(color_manipulation::color_converter::to_hsv(color1), color_manipulation::color_converter::to_hsv(color2), weight, include_alpha);
+	case color_type::HSI:
+		return color_manipulation::color_calculation::mix(color_manipulation::color_converter::to_hsi(color1), color_manipulation::color_converter::to_hsi(color2), weight, include_alpha);
 	case color_type::HSL:
 		return color_manipulation::color_calculation::mix(color_manipulation::color_converter::to_hsl(color1), color_manipulation::color_converter::to_hsl(color2), weight, include_alpha);
+	case color_type::HCY:
+		return color_manipulation::color_calculation::mix(color_manipulation::color_converter::to_hcy(color1), color_manipulation::color_converter::to_hcy(color2), weight, include_alpha);
 	case color_type::XYZ:
 		return color_manipulation::color_calculation::mix(color_manipulation::color_converter::to_xyz(color1), color_manipulation::color_converter::to_xyz(color2), weight, include_alpha);
+	case color_type::XYY:
+		return color_manipulation::color_calculation::mix(color_manipulation::color_converter::to_xyy(color1), color_manipulation::color_converter::to_xyy(color2), weight, include_alpha);
+	case color_type::CIELUV:
+		return color_manipulation::color_calculation::mix(color_manipulation::color_converter::to_cieluv(color1), color_manipulation::color_converter::to_cieluv(color2), weight, include_alpha);
 	case color_type::LAB:
 		return color_manipulation::color_calculation::mix(color_manipulation::color_converter::to_lab(color1), color_manipulation::color_converter::to_lab(color2), weight, include_alpha);
 	case color_type::LCH_AB:
@@ -359,10 +371,18 @@ color_space::color_base * color_manipulation::color_calculation::subtract(color_
 		return color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_cmyk(color1), color_manipulation::color_converter::to_cmyk(color2), weight, include_alpha);
 	case color_type::HSV:
 		return color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_hsv(color1), color_manipulation::color_converter::to_hsv(color2), weight, include_alpha);
+	case color_type::HSI:
+		return color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_hsi(color1), color_manipulation::color_converter::to_hsi(color2), weight, include_alpha);
 	case color_type::HSL:
 		return color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_hsl(color1), color_manipulation::color_converter::to_hsl(color2), weight, include_alpha);
+	case color_type::HCY:
+		return color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_hcy(color1), color_manipulation::color_converter::to_hcy(color2), weight, include_alpha);
 	case color_type::XYZ:
 		return color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_xyz(color1), color_manipulation::color_converter::to_xyz(color2), weight, include_alpha);
+	case color_type::XYY:
+		return color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_xyy(color1), color_manipulation::color_converter::to_xyy(color2), weight, include_alpha);
+	case color_type::CIELUV:
+		return color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_cieluv(color1), color_manipulation::color_converter::to_cieluv(color2), weight, include_alpha);
 	case color_type::LAB:
 		return color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_lab(color1), color_manipulation::color_converter::to_lab(color2), weight, include_alpha);
 	case color_type::LCH_AB:
-- 
2.43.0


From 4a31d9b67030fdaabc56c872bfd0097d0f5b09da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:57 +0000
Subject: [PATCH 24/40] fix: mix and subtract on color_base accept the
 documented weight 0

---
 ColorMagic/manipulation/color_calculation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ColorMagic/manipulation/color_calculation.cpp b/ColorMagic/manipulation/color_calculation.cpp
index d10973a..53c45b8 100644
--- a/ColorMagic/manipulation/color_calculation.cpp
+++ b/ColorMagic/manipulation/color_calculation.cpp
@@ -211,7 +211,7 @@ color_space::lch_uv * color_manipulation::color_calculation::add(color_space::lc
 
 color_space::color_base * color_manipulation::color_calculation::mix(color_space::color_base * color1, color_space::color_base * color2, float weight, bool include_alpha)
 {
-	if (weight <= 0.f || weight > 1.f) throw new std::invalid_argument("Parameter weight has to be in the range [0,1].");
+	if (weight < 0.f || weight > 1.f) throw new std::invalid_argument("Parameter weight has to be in the range [0,1].");
 
 	switch (color1->get_color_type())
 	{
@@ -355,7 +355,7 @@ color_space::lch_uv * color_manipulation::color_calculation::mix(color_space::lc
 
 color_space::color_base * color_manipulation::color_calculation::subtract(color_space::color_base * color1, color_space::color_base * color2, float weight, bool include_alpha)
 {
-	if (weight <= 0.f || weight > 1.f) throw new std::invalid_argument("Parameter weight has to be in the range [0,1].");
+	if (weight < 0.f || weight > 1.f) throw new std::invalid_argument("Parameter weight has to be in the range [0,1].");
 
 	switch (color1->get_color_type())
 	{
-- 
2.43.0


From ce84dcf39a2e38ef817a4c02292f5b8c10977d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:59 +0000
Subject: [PATCH 25/40] fix: subtract forwards include_alpha for converted
 color types

---
 ColorMagic/manipulation/color_calculation.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ColorMagic/manipulation/color_calculation.cpp b/ColorMagic/manipulation/color_calculation.cpp
index 53c45b8..d30194f 100644
--- a/ColorMagic/manipulation/color_calculation.cpp
+++ b/ColorMagic/manipulation/color_calculation.cpp
@@ -449,7 +449,7 @@ color_space::hsi * color_manipulation::color_calculation::subtract(color_space::
 {
 	if (weight < 0.f || weight > 1.f) throw new std::invalid_argument("Parameter weight has to be in the range [0,1].");
 
-	return color_manipulation::color_converter::to_hsi(color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_hsv(color1), color_manipulation::color_converter::to_hsv(color2), weight));
+	return color_manipulation::color_converter::to_hsi(color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_hsv(color1), color_manipulation::color_converter::to_hsv(color2), weight, include_alpha));
 }
 
 color_space::hsv * color_manipulation::color_calculation::subtract(color_space::hsv * color1, color_space::hsv * color2, float weight, bool include_alpha)
@@ -472,14 +472,14 @@ color_space::hsl * color_manipulation::color_calculation::subtract(color_space::
 {
 	if (weight < 0.f || weight > 1.f) throw new std::invalid_argument("Parameter weight has to be in the range [0,1].");
 
-	return color_manipulation::color_converter::to_hsl(color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_hsv(color1), color_manipulation::color_converter::to_hsv(color2), weight));
+	return color_manipulation::color_converter::to_hsl(color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_hsv(color1), color_manipulation::color_converter::to_hsv(color2), weight, include_alpha));
 }
 
 color_space::hcy * color_manipulation::color_calculation::subtract(color_space::hcy * color1, color_space::hcy * color2, float weight, bool include_alpha)
 {
 	if (weight < 0.f || weight > 1.f) throw new std::invalid_argument("Parameter weight has to be in the range [0,1].");
 
-	return color_manipulation::color_converter::to_hcy(color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_hsv(color1), color_manipulation::color_converter::to_hsv(color2), weight));
+	return color_manipulation::color_converter::to_hcy(color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_hsv(color1), color_manipulation::color_converter::to_hsv(color2), weight, include_alpha));
 }
 
 color_space::xyz * color_manipulation::color_calculation::subtract(color_space::xyz * color1, color_space::xyz * color2, float weight, bool include_alpha)
@@ -522,21 +522,21 @@ color_space::lab * color_manipulation::color_calculation::subtract(color_space::
 {
 	if (weight < 0.f || weight > 1.f) throw new std::invalid_argument("Parameter weight has to be in the range [0,1].");
 
-	return color_manipulation::color_converter::to_lab(color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_xyz(color1), color_manipulation::color_converter::to_xyz(color2), weight));
+	return color_manipulation::color_converter::to_lab(color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_xyz(color1), color_manipulation::color_converter::to_xyz(color2), weight, include_alpha));
 }
 
 color_space::lch_ab * color_manipulation::color_calculation::subtract(color_space::lch_ab * color1, color_space::lch_ab * color2, float weight, bool include_alpha)
 {
 	if (weight < 0.f || weight > 1.f) throw new std::invalid_argument("Parameter weight has to be in the range [0,1].");
 
-	return color_manipulation::color_converter::to_lch_ab(color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_xyz(color1), color_manipulation::color_converter::to_xyz(color2), weight));
+	return color_manipulation::color_converter::to_lch_ab(color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_xyz(color1), color_manipulation::color_converter::to_xyz(color2), weight, include_alpha));
 }
 
 color_space::lch_uv * color_manipulation::color_calculation::subtract(color_space::lch_uv * color1, color_space::lch_uv * color2, float weight, bool include_alpha)
 {
 	if (weight < 0.f || weight > 1.f) throw new std::invalid_argument("Parameter weight has to be in the range [0,1].");
 
-	return color_manipulation::color_converter::to_lch_uv(color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_xyz(color1), color_manipulation::color_converter::to_xyz(color2), weight));
+	return color_manipulation::color_converter::to_lch_uv(color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_xyz(color1), color_manipulation::color_converter::to_xyz(color2), weight, include_alpha));
 }
 
 color_space::rgb_truecolor * color_manipulation::color_calculation::average_rgb_true(std::vector<color_space::rgb_truecolor*> colors, bool include_alpha)
-- 
2.43.0


From c52356ece6369ceab36185d761bb89eac5a8db7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:00 +0000
Subject: [PATCH 26/40] fix: average_cmyk accumulates alpha from the alpha sum

---
 ColorMagic/manipulation/color_calculation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ColorMagic/manipulation/color_calculation.cpp b/ColorMagic/manipulation/color_calculation.cpp
index d30194f..0f33872 100644
--- a/ColorMagic/manipulation/color_calculation.cpp
+++ b/ColorMagic/manipulation/color_calculation.cpp
@@ -606,7 +606,7 @@ color_space::cmyk * color_manipulation::color_calculation::average_cmyk(std::vec
 		sum[1] += colors[i]->magenta();
 		sum[2] += colors[i]->yellow();
 		sum[3] += colors[i]->black();
-		sum[4] = include_alpha ? sum[3] + colors[i]->alpha() : colors[0]->alpha();
+		sum[4] = include_alpha ? sum[4] + colors[i]->alpha() : colors[0]->alpha();
 	}
 	return new color_space::cmyk(sum[0] / colors.size(), sum[1] / colors.size(), sum[2] / colors.size(), sum[3] / colors.size(), include_alpha ? sum[4] / colors.size() : sum[4], colors[0]->get_rgb_color_space());
 }
-- 
2.43.0


From 7f729d02985e7f1148542edb920ea8a32d57a7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:05 +0000
Subject: [PATCH 27/40] fix: Bradford and CMCCAT97 normalise by the luminance Y
 of the color

---
 .../manipulation/chromatic_adaptation.cpp     | 26 ++++++++++---------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/ColorMagic/manipulation/chromatic_adaptation.cpp b/ColorMagic/manipulation/chromatic_adaptation.cpp
index 38720be..f32389e 100644
--- a/ColorMagic/manipulation/chromatic_adaptation.cpp
+++ b/ColorMagic/manipulation/chromatic_adaptation.cpp
@@ -119,9 +119,10 @@ color_space::color_base * color_manipulation::chromatic_adaptation::bradford_ada
 	// Convert to XYZ space and transform using bradford matrix (incl. normalization)
 	auto tmp_color = color_manipulation::color_converter::to_xyz(color);
 	auto rgb_comp = m_bradford * tmp_color->get_component_vector();
-	rgb_comp[0] /= color->get_component_vector()[1];
-	rgb_comp[1] /= color->get_component_vector()[1];
-	rgb_comp[2] /= color->get_component_vector()[1];
+	auto norm = tmp_color->y() == 0.f ? 1.f : tmp_color->y();
+	rgb_comp[0] /= norm;
+	rgb_comp[1] /= norm;
+	rgb_comp[2] /= norm;
 
 	// Create scaled white point vectors (incl. normalization)
 	std::vector<float> source_wp = std::vector<float>();
@@ -140,11 +141,11 @@ color_space::color_base * color_manipulation::chromatic_adaptation::bradford_ada
 	// Adapt color (incl. undo of normalization)
 	auto p = powf(scaled_source_wp[2] / scaled_dest_wp[2], 0.0834f);
 	std::vector<float> tmp_rgb_comp;
-	tmp_rgb_comp.push_back((scaled_dest_wp[0] * (rgb_comp[0] / scaled_source_wp[0])) * color->get_component_vector()[1]);
-	tmp_rgb_comp.push_back((scaled_dest_wp[1] * (rgb_comp[1] / scaled_source_wp[1])) * color->get_component_vector()[1]);
+	tmp_rgb_comp.push_back((scaled_dest_wp[0] * (rgb_comp[0] / scaled_source_wp[0])) * norm);
+	tmp_rgb_comp.push_back((scaled_dest_wp[1] * (rgb_comp[1] / scaled_source_wp[1])) * norm);
 
 	float div = rgb_comp[2] / scaled_source_wp[2];
-	tmp_rgb_comp.push_back((scaled_dest_wp[2] * powf(fabsf(div), p)) * color->get_component_vector()[1]); // avoid overflow of float
+	tmp_rgb_comp.push_back((scaled_dest_wp[2] * powf(fabsf(div), p)) * norm); // avoid overflow of float
 	if (div < 0.f) tmp_rgb_comp[2] *= -1.f;
 
 	auto transformed_components = m_inverted_bradford * tmp_rgb_comp;
@@ -206,9 +207,10 @@ color_space::color_base * color_manipulation::chromatic_adaptation::cmccat97_ada
 	// Convert to XYZ space and transform using cmccat97 matrix (incl. normalization)
 	auto tmp_color = color_manipulation::color_converter::to_xyz(color);
 	auto rgb_comp = m_cmccat97 * tmp_color->get_component_vector();
-	rgb_comp[0] /= color->get_component_vector()[1];
-	rgb_comp[1] /= color->get_component_vector()[1];
-	rgb_comp[2] /= color->get_component_vector()[1];
+	auto norm = tmp_color->y() == 0.f ? 1.f : tmp_color->y();
+	rgb_comp[0] /= norm;
+	rgb_comp[1] /= norm;
+	rgb_comp[2] /= norm;
 
 	// Create scaled white point vectors (incl. normalization)
 	std::vector<float> source_wp = std::vector<float>();
@@ -232,9 +234,9 @@ color_space::color_base * color_manipulation::chromatic_adaptation::cmccat97_ada
 	// Adapt color (incl. undo of normalization)
 	auto p = powf(scaled_source_wp[2] / scaled_dest_wp[2], 0.0834f);
 	std::vector<float> rgbc;
-	rgbc.push_back(color->get_component_vector()[1] * (rgb_comp[0] * (d * (scaled_dest_wp[0] / scaled_source_wp[0]) + 1.f - d)));
-	rgbc.push_back(color->get_component_vector()[1] * (rgb_comp[1] * (d * (scaled_dest_wp[1] / scaled_source_wp[1]) + 1.f - d)));
-	rgbc.push_back(color->get_component_vector()[1] * (powf(fabsf(rgb_comp[2]), p) * (d * (scaled_dest_wp[2] / powf(scaled_source_wp[2], p)) + 1.f - d)));
+	rgbc.push_back(norm * (rgb_comp[0] * (d * (scaled_dest_wp[0] / scaled_source_wp[0]) + 1.f - d)));
+	rgbc.push_back(norm * (rgb_comp[1] * (d * (scaled_dest_wp[1] / scaled_source_wp[1]) + 1.f - d)));
+	rgbc.push_back(norm * (powf(fabsf(rgb_comp[2]), p) * (d * (scaled_dest_wp[2] / powf(scaled_source_wp[2], p)) + 1.f - d)));
 
 	if (rgb_comp[2] < 0.f) rgbc[2] *= -1.f;
 
-- 
2.43.0


From a2f9b0d78c3dc579fc76baa9ae169d8b1b2adb28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:14 +0000
Subject: [PATCH 28/40] fix: matrix elements outside the matrix raise
 out_of_range for negative indices too

---
 ColorMagic/utils/matrix.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ColorMagic/utils/matrix.h b/ColorMagic/utils/matrix.h
index 199565c..fcfa86c 100644
--- a/ColorMagic/utils/matrix.h
+++ b/ColorMagic/utils/matrix.h
@@ -4,6 +4,7 @@
 /// See accompanying file LICENSE.txt
 
 #pragma once
+#include <string>
 #include <vector>
 #include <stdexcept>
 
@@ -110,16 +111,16 @@ public:
 	//! Accessment operator
 	T& operator() (int row, int column)
 	{
-		if (row >= m_rows) throw std::out_of_range(std::string("Matrix: %d is >= row count of matrix.", row));
-		if (column >= m_columns) throw std::out_of_range(std::string("Matrix: %d is >= column count of matrix.", column));
+		if (row < 0 || row >= m_rows) throw std::out_of_range("Matrix: row index " + std::to_string(row) + " is outside of the matrix.");
+		if (column < 0 || column >= m_columns) throw std::out_of_range("Matrix: column index " + std::to_string(column) + " is outside of the matrix.");
 		return m_values[row][column];
 	}
 
 	//! Accessment operator
 	const T& operator() (int row, int column) const
 	{
-		if (row >= m_rows) throw std::out_of_range(std::string("Matrix: %d is >= row count of matrix.", row));
-		if (column >= m_columns) throw std::out_of_range(std::string("Matrix: %d is >= column count of matrix.", column));
+		if (row < 0 || row >= m_rows) throw std::out_of_range("Matrix: row index " + std::to_string(row) + " is outside of the matrix.");
+		if (column < 0 || column >= m_columns) throw std::out_of_range("Matrix: column index " + std::to_string(column) + " is outside of the matrix.");
 		return m_values[row][column];
 	}
 
-- 
2.43.0


From 340308bcc7c520cb0d04e0c8b06a583a11f63af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:30 +0000
Subject: [PATCH 29/40] fix: the product of two matrices has the rows of the
 left and the columns of the right one

---
 ColorMagic/utils/matrix.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/ColorMagic/utils/matrix.h b/ColorMagic/utils/matrix.h
index fcfa86c..e2b8717 100644
--- a/ColorMagic/utils/matrix.h
+++ b/ColorMagic/utils/matrix.h
@@ -214,15 +214,14 @@ public:
 	//! Multiply two matrices
 	matrix<T> operator*(const matrix<T>& other)
 	{
-		int rows = other.rows();
 		int cols = other.columns();
-		matrix result(rows, cols);
+		matrix result(m_rows, cols);
 
-		for (int i = 0; i < rows; i++)
+		for (int i = 0; i < m_rows; i++)
 		{
 			for (int j = 0; j < cols; j++)
 			{
-				for (int k = 0; k < rows; k++)
+				for (int k = 0; k < m_columns; k++)
 				{
 					result(i, j) += this->m_values[i][k] * other(k, j);
 				}
-- 
2.43.0


From a81197b07fa7277733e48bae0336d0cb1c801b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:46 +0000
Subject: [PATCH 30/40] fix: a matrix times a vector has one element per row

---
 ColorMagic/utils/matrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ColorMagic/utils/matrix.h b/ColorMagic/utils/matrix.h
index e2b8717..0733c0d 100644
--- a/ColorMagic/utils/matrix.h
+++ b/ColorMagic/utils/matrix.h
@@ -310,7 +310,7 @@ public:
 	*/
 	std::vector<T> operator*(const std::vector<T>& other)
 	{
-		std::vector<T> result(other.size());
+		std::vector<T> result(m_rows);
 
 		for (int i = 0; i < m_rows; i++)
 		{
-- 
2.43.0


From 5a9a1e8d099b9ca50871061ac9e74f12b6b15023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:01 +0000
Subject: [PATCH 31/40] fix: transposing a rectangular matrix swaps its
 dimensions

---
 ColorMagic/utils/matrix.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ColorMagic/utils/matrix.h b/ColorMagic/utils/matrix.h
index 0733c0d..a96fb4a 100644
--- a/ColorMagic/utils/matrix.h
+++ b/ColorMagic/utils/matrix.h
@@ -343,11 +343,11 @@ public:
 	*/
 	matrix<T> transpose()
 	{
-		matrix result(m_rows, m_columns);
+		matrix result(m_columns, m_rows);
 
-		for (int i = 0; i < m_rows; i++)
+		for (int i = 0; i < m_columns; i++)
 		{
-			for (int j = 0; j < m_columns; j++)
+			for (int j = 0; j < m_rows; j++)
 			{
 				result(i, j) = this->m_values[j][i];
 			}
-- 
2.43.0


From f468b42e2e4eac00af2c4709bd13b593db21ceb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:15 +0000
Subject: [PATCH 32/40] fix: inserting into a rectangular matrix fills it row
 by row

---
 ColorMagic/utils/matrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ColorMagic/utils/matrix.h b/ColorMagic/utils/matrix.h
index a96fb4a..9a1b22a 100644
--- a/ColorMagic/utils/matrix.h
+++ b/ColorMagic/utils/matrix.h
@@ -513,7 +513,7 @@ public:
 			{
 				for (int j = 0; j < m_columns; j++)
 				{
-					this->m_values[i][j] = values[i * m_rows + j];
+					this->m_values[i][j] = values[i * m_columns + j];
 				}
 			}
 		}
-- 
2.43.0


From ea7a8fead63c868798c5d27516a9aeada1fa7dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:42 +0000
Subject: [PATCH 33/40] fix: tristimulus values above 1 of the ready-made white
 points are not divided by ten

---
 ColorMagic/spaces/white_point.h | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/ColorMagic/spaces/white_point.h b/ColorMagic/spaces/white_point.h
index 5e6fae7..c6d10b3 100644
--- a/ColorMagic/spaces/white_point.h
+++ b/ColorMagic/spaces/white_point.h
@@ -249,7 +249,7 @@ namespace color_space
 		/*!
 		* Represents incandescent / tungsten (2856 Kelvin)
 		*/
-		white_point* A_2Degree() { return new white_point(0.10985f, 1.f, 0.3558f, 0.4475f, 0.4074f); }
+		white_point* A_2Degree() { return new white_point(1.0985f, 1.f, 0.3558f, 0.4475f, 0.4074f); }
 
 		//! CIE_B tristimulus white (2�)
 		/*!
@@ -269,7 +269,7 @@ namespace color_space
 		/*!
 		* Represents equal energy (5454 Kelvin)
 		*/
-		white_point* E_2Degree() { return new white_point(0.1f, 1.f, 0.1f, 0.3333f, 0.3333f); }
+		white_point* E_2Degree() { return new white_point(1.f, 1.f, 1.f, 0.3333f, 0.3333f); }
 
 		//! CIE_F1 tristimulus white (2�)
 		/*!
@@ -287,13 +287,13 @@ namespace color_space
 		/*!
 		* Represents white fluorescent (3450 Kelvin)
 		*/
-		white_point* F3_2Degree() { return new white_point(0.10375f, 1.f, 0.4986f, 0.4090f, 0.3943f); }
+		white_point* F3_2Degree() { return new white_point(1.0375f, 1.f, 0.4986f, 0.4090f, 0.3943f); }
 
 		//! CIE_F4 tristimulus white (2�)
 		/*!
 		* Represents warm white fluorescent (2940 Kelvin)
 		*/
-		white_point* F4_2Degree() { return new white_point(0.10914f, 1.f, 0.3881f, 0.4401f, 0.4033f); }
+		white_point* F4_2Degree() { return new white_point(1.0914f, 1.f, 0.3881f, 0.4401f, 0.4033f); }
 
 		//! CIE_F5 tristimulus white (2�)
 		/*!
@@ -323,7 +323,7 @@ namespace color_space
 		/*!
 		* Represents cool white deluxe fluorescent (4150 Kelvin)
 		*/
-		white_point* F9_2Degree() { return new white_point(0.10036f, 1.f, 0.6786f, 0.3741f, 0.3728f); }
+		white_point* F9_2Degree() { return new white_point(1.0036f, 1.f, 0.6786f, 0.3741f, 0.3728f); }
 
 		//! CIE_F10 tristimulus white (2�)
 		/*!
@@ -335,13 +335,13 @@ namespace color_space
 		/*!
 		* Represents Philips TL84, Ultralume 40 (4000 Kelvin)
 		*/
-		white_point* F11_2Degree() { return new white_point(0.10096f, 1.f, 0.6437f, 0.3805f, 0.3768f); }
+		white_point* F11_2Degree() { return new white_point(1.0096f, 1.f, 0.6437f, 0.3805f, 0.3768f); }
 
 		//! CIE_F12 tristimulus white (2�)
 		/*!
 		* Represents Philips TL83, Ultralume 30 (3000 Kelvin)
 		*/
-		white_point* F12_2Degree() { return new white_point(0.10804f, 1.f, 0.3922f, 0.4369f, 0.4044f); }
+		white_point* F12_2Degree() { return new white_point(1.0804f, 1.f, 0.3922f, 0.4369f, 0.4044f); }
 
 
 		//! CIE_D50 tristimulus white (10�)
@@ -373,7 +373,7 @@ namespace color_space
 		/*!
 		* Represents incandescent / tungsten (2856 Kelvin)
 		*/
-		white_point* A_10Degree() { return new white_point(0.11114f, 1.f, 0.3520f, 0.4511f, 0.4059f); }
+		white_point* A_10Degree() { return new white_point(1.1114f, 1.f, 0.3520f, 0.4511f, 0.4059f); }
 
 		//! CIE_B tristimulus white (10�)
 		/*!
@@ -393,7 +393,7 @@ namespace color_space
 		/*!
 		* Represents equal energy (5454 Kelvin)
 		*/
-		white_point* E_10Degree() { return new white_point(0.1f, 1.f, 0.1f, 0.3333f, 0.3333f); }
+		white_point* E_10Degree() { return new white_point(1.f, 1.f, 1.f, 0.3333f, 0.3333f); }
 
 		//! CIE_F1 tristimulus white (10�)
 		/*!
@@ -405,19 +405,19 @@ namespace color_space
 		/*!
 		* Represents cool white fluorescent (4230 Kelvin)
 		*/
-		white_point* F2_10Degree() { return new white_point(0.10328f, 1.f, 0.6902f, 0.3792f, 0.3672f); }
+		white_point* F2_10Degree() { return new white_point(1.0328f, 1.f, 0.6902f, 0.3792f, 0.3672f); }
 
 		//! CIE_F3 tristimulus white (10�)
 		/*!
 		* Represents white fluorescent (3450 Kelvin)
 		*/
-		white_point* F3_10Degree() { return new white_point(0.10896f, 1.f, 0.5196f, 0.4175f, 0.3832f); }
+		white_point* F3_10Degree() { return new white_point(1.0896f, 1.f, 0.5196f, 0.4175f, 0.3832f); }
 
 		//! CIE_F4 tristimulus white (10�)
 		/*!
 		* Represents warm white fluorescent (2940 Kelvin)
 		*/
-		white_point* F4_10Degree() { return new white_point(0.11496f, 1.f, 0.4096f, 0.4492f, 0.3907f); }
+		white_point* F4_10Degree() { return new white_point(1.1496f, 1.f, 0.4096f, 0.4492f, 0.3907f); }
 
 		//! CIE_F5 tristimulus white (10�)
 		/*!
@@ -429,7 +429,7 @@ namespace color_space
 		/*!
 		* Represents lite white fluorescent (4150 Kelvin)
 		*/
-		white_point* F6_10Degree() { return new white_point(0.10214f, 1.f, 0.6207f, 0.3865f, 0.3784f); }
+		white_point* F6_10Degree() { return new white_point(1.0214f, 1.f, 0.6207f, 0.3865f, 0.3784f); }
 
 		//! CIE_F7 tristimulus white (10�)
 		/*!
@@ -447,7 +447,7 @@ namespace color_space
 		/*!
 		* Represents cool white deluxe fluorescent (4150 Kelvin)
 		*/
-		white_point* F9_10Degree() { return new white_point(0.10211f, 1.f, 0.6782f, 0.3782f, 0.3704f); }
+		white_point* F9_10Degree() { return new white_point(1.0211f, 1.f, 0.6782f, 0.3782f, 0.3704f); }
 
 		//! CIE_F10 tristimulus white (10�)
 		/*!
@@ -459,12 +459,12 @@ namespace color_space
 		/*!
 		* Represents Philips TL84, Ultralume 40 (4000 Kelvin)
 		*/
-		white_point* F11_10Degree() { return new white_point(0.10386f, 1.f, 0.6562f, 0.3854f, 0.3710f); }
+		white_point* F11_10Degree() { return new white_point(1.0386f, 1.f, 0.6562f, 0.3854f, 0.3710f); }
 
 		//! CIE_F12 tristimulus white (10�)
 		/*!
 		* Represents Philips TL83, Ultralume 30 (3000 Kelvin)
 		*/
-		white_point* F12_10Degree() { return new white_point(0.11142f, 1.f, 0.4035f, 0.4425f, 0.3971f); }
+		white_point* F12_10Degree() { return new white_point(1.1142f, 1.f, 0.4035f, 0.4425f, 0.3971f); }
 	};
 }
\ No newline at end of file
-- 
2.43.0


From e0ce0c08ff59bd0120250a95ee58d4a72e6027eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:12 +0000
Subject: [PATCH 34/40] fix: the UHDTV gamma encodes with the BT.2020 curve and
 decodes with its inverse

---
 ColorMagic/spaces/gamma.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ColorMagic/spaces/gamma.h b/ColorMagic/spaces/gamma.h
index 02dcbc5..240ed78 100644
--- a/ColorMagic/spaces/gamma.h
+++ b/ColorMagic/spaces/gamma.h
@@ -471,11 +471,11 @@ namespace color_space
 			std::vector<gamma_part*> g;
 			std::vector<gamma_part*> ig;
 
-			g.push_back(new gamma_part([](float input) { return input / 4.5f; }, 0.081f));
-			g.push_back(new gamma_part([](float input) { return std::powf((input + 0.099f) / 1.099f, 1.f / 0.45f); }, 1.f));
+			g.push_back(new gamma_part([](float input) { return 4.5f * input; }, 0.018053968510807f));
+			g.push_back(new gamma_part([](float input) { return 1.099f * std::powf(input, 0.45f) - 0.099f; }, 1.f));
 
-			ig.push_back(new gamma_part([](float input) { return 4.5f * input; }, 0.018053968510807f));
-			ig.push_back(new gamma_part([](float input) { return 1.099f * std::powf(input, 0.45f) - 0.099f; }, 1.f));
+			ig.push_back(new gamma_part([](float input) { return input / 4.5f; }, 0.081f));
+			ig.push_back(new gamma_part([](float input) { return std::powf((input + 0.099f) / 1.099f, 1.f / 0.45f); }, 1.f));
 
 			return new gamma(g, ig);
 		}
-- 
2.43.0


From b716b88a1232a8ba1989b88df05e59bee1247971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:27 +0000
Subject: [PATCH 35/40] fix: the ROMM gamma decodes the whole encoded toe
 linearly

---
 ColorMagic/spaces/gamma.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ColorMagic/spaces/gamma.h b/ColorMagic/spaces/gamma.h
index 240ed78..251e4a0 100644
--- a/ColorMagic/spaces/gamma.h
+++ b/ColorMagic/spaces/gamma.h
@@ -459,7 +459,7 @@ namespace color_space
 			g.push_back(new gamma_part([](float input) { return 16.f * input; }, 0.001953f));
 			g.push_back(new gamma_part([](float input) { return std::powf(input, 1.f / 1.8f); }, 1.f));
 
-			ig.push_back(new gamma_part([](float input) { return input / 16.f; }, 0.001953f));
+			ig.push_back(new gamma_part([](float input) { return input / 16.f; }, 0.031248f));
 			ig.push_back(new gamma_part([](float input) { return std::powf(input, 1.8f); }, 1.f));
 
 			return new gamma(g, ig);
-- 
2.43.0


From bb954f94c45f1540147d4e5a041ad534c4e66db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:00 +0000
Subject: [PATCH 36/40] fix: removing a gamma part returns a value

---
 ColorMagic/spaces/gamma.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ColorMagic/spaces/gamma.h b/ColorMagic/spaces/gamma.h
index 251e4a0..9113ba3 100644
--- a/ColorMagic/spaces/gamma.h
+++ b/ColorMagic/spaces/gamma.h
@@ -286,6 +286,7 @@ namespace color_space
 		bool remove_gamma_curve_part(std::vector<gamma_part*>::iterator position)
 		{
 			m_gamma_curve_parts.erase(position);
+			return true;
 		}
 
 		//! Replace the list of default gamma parts.
@@ -309,6 +310,7 @@ namespace color_space
 		bool remove_inverse_gamma_curve_part(std::vector<gamma_part*>::iterator position)
 		{
 			m_inverse_gamma_curve_parts.erase(position);
+			return true;
 		}
 
 		//! Replace the list of inverse gamma parts.
-- 
2.43.0


From c18c4ea051762c26aba628a138452f524d3ded1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:02 +0000
Subject: [PATCH 37/40] fix: a '#' inside a hex code no longer leaves channels
 uninitialised

---
 ColorMagic/spaces/rgb_truecolor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ColorMagic/spaces/rgb_truecolor.cpp b/ColorMagic/spaces/rgb_truecolor.cpp
index b35c6e2..556cf20 100644
--- a/ColorMagic/spaces/rgb_truecolor.cpp
+++ b/ColorMagic/spaces/rgb_truecolor.cpp
@@ -21,7 +21,7 @@ color_space::rgb_truecolor::rgb_truecolor(float r, float g, float b, float alpha
 
 color_space::rgb_truecolor::rgb_truecolor(std::string hex_code, rgb_color_space_definition* color_space) : color_base(0, color_space, 3, 255.f, 0.f)
 {
-	std::regex regex("^[#0-9A-Fa-f]+$");
+	std::regex regex("^#?[0-9A-Fa-f]+$");
 
 	if (!std::regex_match(hex_code, regex))
 	{
-- 
2.43.0


From 80d922bd9f448a5bccf555a2154ded813ebcbf05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:09 +0000
Subject: [PATCH 38/40] fix: over-long hex codes are rejected before the regex
 exhausts the stack

---
 ColorMagic/spaces/rgb_truecolor.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ColorMagic/spaces/rgb_truecolor.cpp b/ColorMagic/spaces/rgb_truecolor.cpp
index 556cf20..37262d0 100644
--- a/ColorMagic/spaces/rgb_truecolor.cpp
+++ b/ColorMagic/spaces/rgb_truecolor.cpp
@@ -21,6 +21,12 @@ color_space::rgb_truecolor::rgb_truecolor(float r, float g, float b, float alpha
 
 color_space::rgb_truecolor::rgb_truecolor(std::string hex_code, rgb_color_space_definition* color_space) : color_base(0, color_space, 3, 255.f, 0.f)
 {
+	// std::regex recurses once per character, a long string would exhaust the stack
+	if (hex_code.length() > 9)
+	{
+		throw std::invalid_argument("Wrong hex code format. Use one of the following formats: #AARRGGBB, #RRGGBB, AARRGGBB, RRGGBB");
+	}
+
 	std::regex regex("^#?[0-9A-Fa-f]+$");
 
 	if (!std::regex_match(hex_code, regex))
-- 
2.43.0


From 3891052d2dbd752ff02d93c55ae21e88a1af85d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:29 +0000
Subject: [PATCH 39/40] fix: CIELUV to XYZ scales by the luminance of the white
 point, as XYZ to CIELUV does

---
 ColorMagic/manipulation/color_converter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ColorMagic/manipulation/color_converter.cpp b/ColorMagic/manipulation/color_converter.cpp
index 122e700..9936bc5 100644
--- a/ColorMagic/manipulation/color_converter.cpp
+++ b/ColorMagic/manipulation/color_converter.cpp
@@ -1095,7 +1095,8 @@ color_space::xyz* color_manipulation::color_converter::cieluv_to_xyz(color_space
 			15.f* color->get_rgb_color_space()->get_white_point()->get_tristimulus_y() +
 			3.f* color->get_rgb_color_space()->get_white_point()->get_tristimulus_z());
 
-	auto Y = color->L() > 903.3f* 0.008856f ? powf((color->L() + 16.f) / 116.f, 3.f) : color->L() / 903.3f;
+	auto Y = (color->L() > 903.3f* 0.008856f ? powf((color->L() + 16.f) / 116.f, 3.f) : color->L() / 903.3f) *
+		color->get_rgb_color_space()->get_white_point()->get_tristimulus_y();
 	if (color->L() == 0.f)
 	{
 		// special case for black (its chromaticity is undefined)
-- 
2.43.0


From b7e11003c644d14b9e39ec0bca073867853bed96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:23 +0000
Subject: [PATCH 40/40] fix: the sum of two colors keeps the limits of its
 color type and the scale of its alpha

---
 ColorMagic/spaces/color_base.h     | 30 ++++++++++++++++++++++++++----
 ColorMagic/spaces/grey_truecolor.h |  4 ++++
 ColorMagic/spaces/rgb_truecolor.h  |  4 ++++
 3 files changed, 34 insertions(+), 4 deletions(-)

diff --git a/ColorMagic/spaces/color_base.h b/ColorMagic/spaces/color_base.h
index dde309b..65d6ec1 100644
--- a/ColorMagic/spaces/color_base.h
+++ b/ColorMagic/spaces/color_base.h
@@ -176,10 +176,13 @@ namespace color_space
 			if (this->get_color_type() == rhs.get_color_type() && this->m_component_vector.size() == rhs.m_component_vector.size())
 			{
 				result.m_type = this->m_type;
+				result.m_a_max = alpha_max();
 				result.m_alpha = this->alpha();
 				for (size_t i = 0; i < this->m_component_vector.size(); ++i)
 				{
 					result.m_component_vector[i] = clamp(this->m_component_vector[i] + rhs.m_component_vector[i], component_max(i), component_min(i));
+					result.m_upper_limits.push_back(component_max(i));
+					result.m_lower_limits.push_back(component_min(i));
 				}
 			}
 			else
@@ -197,7 +200,7 @@ namespace color_space
 		{
 			for (size_t i = 0; i < m_component_vector.size(); ++i)
 			{
-				m_component_vector[i] *= m_alpha;
+				m_component_vector[i] *= m_alpha / m_a_max;
 			}
 		}
 
@@ -211,7 +214,7 @@ namespace color_space
 
 			for (size_t i = 0; i < m_component_vector.size(); ++i)
 			{
-				m_component_vector[i] = clamp(m_component_vector[i] / m_alpha, component_max(i), component_min(i));
+				m_component_vector[i] = clamp(m_component_vector[i] / (m_alpha / m_a_max), component_max(i), component_min(i));
 			}
 		}
 
@@ -246,7 +249,7 @@ namespace color_space
 		* \param index The index of the component.
 		* \return The maximum value of the component.
 		*/
-		virtual float component_max(size_t index) const { return m_max; }
+		virtual float component_max(size_t index) const { return index < m_upper_limits.size() ? m_upper_limits[index] : m_max; }
 
 		//! Minimum value (inclusive) of one component.
 		/*!
@@ -254,7 +257,14 @@ namespace color_space
 		* \param index The index of the component.
 		* \return The minimum value of the component.
 		*/
-		virtual float component_min(size_t index) const { return m_min; }
+		virtual float component_min(size_t index) const { return index < m_lower_limits.size() ? m_lower_limits[index] : m_min; }
+
+		//! Maximum value (inclusive) of the alpha that alpha() returns.
+		/*!
+		* Maximum value (inclusive) of the alpha that alpha() returns. Color types that show alpha in another range override this.
+		* \return The maximum value of alpha.
+		*/
+		virtual float alpha_max() const { return m_a_max; }
 
 		//! Clamps a given value between a given max and min value (inclusive).
 		/*!
@@ -309,6 +319,18 @@ namespace color_space
 		*/
 		float m_min = 0.f;
 
+		//! Maximum values (inclusive) of the single components of a sum.
+		/*!
+		* Maximum values (inclusive) of the single components of a sum, taken over from the color type of the summands. Empty for all other colors.
+		*/
+		std::vector<float> m_upper_limits;
+
+		//! Minimum values (inclusive) of the single components of a sum.
+		/*!
+		* Minimum values (inclusive) of the single components of a sum, taken over from the color type of the summands. Empty for all other colors.
+		*/
+		std::vector<float> m_lower_limits;
+
 		//! The colors color space.
 		/*!
 		* The colors color space.
diff --git a/ColorMagic/spaces/grey_truecolor.h b/ColorMagic/spaces/grey_truecolor.h
index 4f93757..6f5151f 100644
--- a/ColorMagic/spaces/grey_truecolor.h
+++ b/ColorMagic/spaces/grey_truecolor.h
@@ -66,6 +66,10 @@ namespace color_space
 		*/
 		void alpha(float new_alpha) override;
 
+	protected:
+		//! Alpha is shown as a value from 0 to 255.
+		float alpha_max() const override { return 255.f; }
+
 	private:
 
 	};
diff --git a/ColorMagic/spaces/rgb_truecolor.h b/ColorMagic/spaces/rgb_truecolor.h
index 2a8735f..bfbc1ab 100644
--- a/ColorMagic/spaces/rgb_truecolor.h
+++ b/ColorMagic/spaces/rgb_truecolor.h
@@ -109,6 +109,10 @@ namespace color_space
 		*/
 		void alpha(float new_alpha) override;
 
+	protected:
+		//! Alpha is shown as a value from 0 to 255.
+		float alpha_max() const override { return 255.f; }
+
 	private:
 
 	};
-- 
2.43.0

