// Client code the contracts of whole-program properties are stated on (C17). Not part of /repo: it only calls it.
#pragma once
#include "manipulation/color_converter.h"
namespace roundtrip
{
	typedef color_manipulation::color_converter cc;
	inline color_space::rgb_deepcolor* rgb_deep_hsv(color_space::rgb_deepcolor* c) { return cc::to_rgb_deep(cc::to_hsv(c)); }
	inline color_space::rgb_deepcolor* rgb_deep_hsl(color_space::rgb_deepcolor* c) { return cc::to_rgb_deep(cc::to_hsl(c)); }
	inline color_space::rgb_deepcolor* rgb_deep_hcy(color_space::rgb_deepcolor* c) { return cc::to_rgb_deep(cc::to_hcy(c)); }
	inline color_space::rgb_deepcolor* rgb_deep_cmyk(color_space::rgb_deepcolor* c) { return cc::to_rgb_deep(cc::to_cmyk(c)); }
	inline color_space::rgb_truecolor* rgb_true_rgb_deep(color_space::rgb_truecolor* c) { return cc::to_rgb_true(cc::to_rgb_deep(c)); }
	inline color_space::xyz* xyz_xyy(color_space::xyz* c) { return cc::to_xyz(cc::to_xyy(c)); }
	inline color_space::xyz* xyz_lab(color_space::xyz* c) { return cc::to_xyz(cc::to_lab(c)); }
	inline color_space::xyz* xyz_cieluv(color_space::xyz* c) { return cc::to_xyz(cc::to_cieluv(c)); }
	inline color_space::lab* lab_lch_ab(color_space::lab* c) { return cc::to_lab(cc::to_lch_ab(c)); }
	inline color_space::cieluv* cieluv_lch_uv(color_space::cieluv* c) { return cc::to_cieluv(cc::to_lch_uv(c)); }
}
