import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
CM="ColorMagic/"
SP=CM+"spaces/"; MA=CM+"manipulation/"; UT=CM+"utils/"
ALLSP=[SP+"color_base.h"]+[SP+n+".cpp" for n in ("rgb_truecolor","rgb_deepcolor","grey_truecolor","grey_deepcolor","cmyk","hsi","hsv","hsl","hcy","xyz","xyy","lab","cieluv","lch_ab","lch_uv")]

p("C01","Every component and alpha always stays inside its color type's range",
  "Whatever float (including NaN, infinities and huge values) is handed to a constructor, a named channel setter, the two-argument component setter, the alpha setter, color addition, alpha multiplication or division, or gamma correction, every component of the color afterwards lies inside the range of its color type and its alpha lies inside the alpha range (0 to 1, or 0 to 255 as seen on the 8-bit RGB and grey types). Hue channels of the HSI, HSV, HSL and HCY types given to the constructor or the hue setter wrap around by multiples of 360 before they are limited to 0..359; every other channel is limited to the nearest bound.",
  ["inputs","histories"],"all 15 color types, all 32-bit float arguments, any sequence of these operations",
  "The tests set a few ordinary values per type; they never try NaN, infinities, out-of-range alpha in constructors or negative multi-turn hues, and cannot cover all floats.",
  ALLSP,[("component clamp","color_base::set_component, color_base::clamp"),("hue wrap","hsi/hsv/hsl/hcy::hue"),("alpha limits","color_base constructor, color_base::alpha, rgb_truecolor/grey_truecolor::alpha")],
  ["component and alpha getters of the 15 color types"],[("components","channel values of a color","color_base::m_component_vector"),("alpha","opacity","color_base::m_alpha")])

p("C02","Reading back a channel gives what was stored, and nothing else changes",
  "For every color type, constructing a color from in-range channel values and alpha and reading every channel back by index or by name gives those values, in the documented channel order, together with the given alpha, RGB color space and the right color type. Setting one channel (by index or name) to an in-range value changes that channel only, and reading or writing an index that does not exist raises an out-of-range error and changes nothing.",
  ["inputs","histories"],"all 15 color types, all in-range channel values and alphas, every channel, every int index",
  "Tests sample one or two colors per type; a swapped or cross-written channel for some values, or an unchecked negative index, passes them.",
  ALLSP,[("indexed access","color_base::get_component/set_component"),("named accessors","the accessors of each color class")],["getters and setters of each color class"])

p("C03","Copying and comparing colors is exact and copies are independent",
  "A copy-constructed color has the same type, channel values, alpha and RGB color space as the original, and constructing a color from a generic color reference of the matching type gives the same channels and alpha; assignment transfers the type and all channel values and leaves the source unchanged. Two colors compare equal exactly when their types and all channel values are equal, inequality is always the opposite of equality, and changing a copy never changes the original.",
  ["inputs","histories"],"all 15 color types and pairs of types, all in-range channel values",
  "The tests compare single hand-picked colors; equality that ignores one channel, or a copy that shares or drops state, needs inputs that differ in exactly that place.",
  ALLSP,[("copy and assignment","copy constructors and operator= of each color class"),("equality","operator== / operator!= in color_base.h")],["copy constructors, operator=, operator==, operator!="])

p("C04","Adding colors and applying alpha act channel by channel",
  "Adding two colors of the same type gives a color of that type whose channels are the sums limited to the type's range and whose alpha and RGB color space are those of the left operand; adding colors of different types raises an invalid-argument error. Multiplying by alpha scales every channel by alpha, dividing by alpha is its inverse when alpha is not zero and does nothing when it is zero, and neither changes alpha or an operand of an addition.",
  ["inputs"],"all color types, all in-range channel values and alphas",
  "Only one or two sums and products are tested; limits, zero alpha and mixed types are quantified over all values.",
  [SP+"color_base.h"],[("addition","color_base::operator+"),("premultiplication","color_base::alpha_multiply, color_base::alpha_divide")],["operator+, alpha_multiply, alpha_divide"])

p("C05","Hexadecimal color strings are parsed exactly or rejected",
  "A string of six hexadecimal digits, optionally preceded by a single '#', gives an 8-bit RGB color with exactly the encoded red, green and blue values and full alpha; with eight digits the first two give the alpha. Every other string, of any length and content, is rejected with std::invalid_argument: no color is ever made from uninitialised memory, and no string makes the parser crash.",
  ["inputs"],"all strings of any length and content",
  "The tests parse a few literals; all codes in both cases and all malformed strings are out of their reach.",
  [SP+"rgb_truecolor.cpp",SP+"rgb_truecolor.h"],[("hex parsing","rgb_truecolor string constructor")],["rgb_truecolor(std::string)"])

p("C06","Gamma presets follow their published transfer curves and invert each other",
  "Each ready-made gamma (1.8, 2.2, 2.6, 2.8, sRGB, Adobe RGB, ROMM, UHDTV) encodes linear values from 0 to 1 with the published transfer curve of its name (simple power laws: v^(1/g); sRGB, ROMM and UHDTV: the published linear toe and power segment), and its inverse correction decodes with the inverse curve. Both curves are non-decreasing on 0..1 and map 0 to 0 and 1 to 1 (up to the rounding of the published constants), and decoding an encoded value returns it up to the mismatch of the published segment borders.",
  ["inputs","configurations"],"all eight presets, all input values from 0 to 1",
  "Tests evaluate a few sample values per preset; segment borders and toe segments are only visible for inputs close to them.",
  [SP+"gamma.h"],[("presets","gamma_presets::gamma1_8 … gammaUHDTV"),("piecewise evaluation","gamma::gamma_correction, gamma::inverse_gamma_correction")],["gamma_correction and inverse_gamma_correction of the presets"])

p("C07","A piecewise gamma always applies the segment that covers the value",
  "For a gamma built from any number of curve segments with different upper borders, added in any order, correcting a value applies the function of the segment with the smallest upper border that is not below the value, and returns the value unchanged when no segment covers it; the inverse direction does the same with the inverse segments. Adding or replacing segments of one direction never affects the other direction, copies and assignments of a gamma correct like the original, and correcting all channels of a color applies this to each channel and limits the result to the color's range.",
  ["inputs","histories","configurations"],"all borders and segment functions in any insertion order and all values, for up to three segments per direction",
  "Tests only use the presets with at most three segments added in sorted order.",
  [SP+"gamma.h",SP+"color_base.h"],[("segment lists","gamma::add_gamma_curve_part, gamma::set_gamma_curve_parts, gamma::sort_gamma_parts and inverse counterparts"),("color correction","color_base::do_gamma_correction, color_base::do_inverse_gamma_correction")],["gamma and color_base gamma correction"])

p("C08","White points keep chromaticity and tristimulus values consistent",
  "A white point built from chromaticity coordinates x, y (y not zero) has tristimulus values X = x/y, Y = 1, Z = (1-x-y)/y, and one built from tristimulus values X, Y, Z (sum not zero) has chromaticity x = X/(X+Y+Z), y = Y/(X+Y+Z), and copies keep both. Every ready-made white point of either observer has Y = 1 and equals the published chromaticity of its illuminant (within 0.0005), so its chromaticity and tristimulus values agree with each other within rounding.",
  ["inputs","configurations"],"all chromaticities and tristimulus values, all ready-made white points",
  "The tests check only a handful of presets and constructors.",
  [SP+"white_point.h"],[("derivation","white_point constructors"),("presets","white_point_presets")],["white_point getters"])

p("C09","RGB color space matrices map the primaries and white to their definition",
  "For every RGB color space definition with non-collinear primaries, the RGB-to-XYZ matrix maps full white (1,1,1) to the tristimulus values of the definition's white point and maps each primary to a color with exactly that primary's chromaticity, and the inverse matrix is its inverse. This stays true after the white point is replaced and in copies, the chromaticity getters return what was given (z = 1-x-y), and every ready-made definition carries the published primaries (within 0.001), white point and gamma of its name.",
  ["inputs","histories","configurations"],"all non-degenerate primaries and white points, all ready-made definitions, replacement of the white point",
  "Tests only look at a few numbers of a few presets; that the matrix follows the primaries and white point for every definition is an algebraic identity.",
  [SP+"rgb_color_space_definition.h"],[("matrix derivation","rgb_color_space_definition::calculate_transform_matrices"),("presets","rgb_color_space_definition_presets")],["get_transform_matrix, get_inverse_transform_matrix, chromaticity getters"])

p("C10","Matrix arithmetic is exact linear algebra",
  "Matrix addition, subtraction, products with scalars, vectors and matrices, transposition, determinant, adjoint, inverse, identity, filling, inserting and resizing agree with their mathematical definitions for the given dimensions, operands are not modified by the non-assigning operators, and a non-singular matrix times its inverse is the identity. Reading or writing an element outside the matrix raises an out-of-range error.",
  ["inputs"],"all entries of matrices with matching dimensions, square and rectangular, up to 4x4; all int indices",
  "The tests use a few small integer matrices; special cases (zero rows, equal rows, singular minors, rectangular shapes) interact with values the tests do not have.",
  [UT+"matrix.h"],[("linear algebra","matrix<T> operators, determinante, adjoint, invert, transpose"),("element access","matrix<T>::operator()")],["public members of matrix<T>"])

p("C11","RGB, grey and CMYK conversions follow their defining formulas",
  "Converting between 8-bit and floating RGB, 8-bit and floating grey and CMYK follows the defining formulas: scaling by 255 (rounded to whole steps where the target is 8-bit), the plain mean of the channels for grey, equal channels from grey to RGB, and K = 1 - max(R,G,B) with C, M, Y = (1-R-K)/(1-K) and so on, black being K = 1 with zero C, M, Y. Alpha and the RGB color space are carried over, and the result is always finite.",
  ["inputs"],"all in-range colors of these types and all alphas",
  "Tests convert a few colors with tolerances; special inputs such as black, grey or a zero channel and every combination of channels are not sampled.",
  [MA+"color_converter.cpp"],[("conversions","color_converter members between the rgb, grey and cmyk types")],["color_converter results"])

p("C12","Hue based conversions follow their defining formulas",
  "Converting RGB to HSV, HSL, HSI and HCY gives the channels of the textbook definitions (value, lightness, intensity and luma; hue from the largest channel, 0 for greys; saturation or chroma, 0 for black and greys), and converting back evaluates the inverse definition, for every color including greys, black, white and every hue sector boundary. Alpha and the RGB color space are carried over, and the result is always finite; only the saturation that black and white get from the direct HSV to HSL conversion is left open.",
  ["inputs"],"all in-range colors of these types and all alphas",
  "Six hue sectors, ties between channels and degenerate saturation make many cases; tests sample a few colors with loose tolerances.",
  [MA+"color_converter.cpp",MA+"color_converter.h"],[("conversions","color_converter members between rgb_deepcolor and hsv, hsl, hsi, hcy and among those")],["color_converter results"])

p("C13","RGB, XYZ and xyY conversions follow the color space definition",
  "Converting RGB to XYZ decodes the channels with the inverse gamma of the color's RGB color space and applies that space's RGB-to-XYZ matrix (relative to a white of Y = 1), and XYZ to RGB is the matching inverse computation followed by gamma encoding. XYZ and xyY convert by x = X/(X+Y+Z), y = Y/(X+Y+Z) and back, black taking the chromaticity of the white point, and alpha and the RGB color space are carried over.",
  ["inputs","configurations"],"all in-range colors, all RGB color space definitions and gammas",
  "Tests use the default space and a few colors; other spaces, gammas and near-black colors are not covered.",
  [MA+"color_converter.cpp"],[("conversions","color_converter::rgb_deep_to_xyz, xyz_to_rgb_deep, xyz_to_xyy, xyy_to_xyz")],["color_converter results"])

p("C14","Lab, Luv and LCH conversions follow the CIE definitions",
  "Conversions between XYZ and CIE L*a*b*, and between XYZ and CIE L*u*v*, follow the CIE formulas relative to the white point of the color's RGB color space, including the linear segment near black, and the cylindrical LCH forms have chroma sqrt(a^2+b^2) (limited to the channel's range) and the hue angle of (a,b), or (u,v), in degrees from 0 to 360. The result is finite for every input, and alpha and the RGB color space are carried over.",
  ["inputs","configurations"],"all in-range colors, all white points",
  "Tests sample a few colors with the default white point; the linear segments, black and other white points are unsampled.",
  [MA+"color_converter.cpp"],[("conversions","color_converter xyz/lab/cieluv/lch members")],["color_converter results"])

p("C15","Any color converts to any color type consistently",
  "For every pair of the 15 color types, converting a color to the target type yields a new non-null color of exactly that type, equal to the result of the direct conversion chain between the two types, with the source's alpha (rescaled between 0..1 and 0..255) and RGB color space; converting to the color's own type gives that very color. The conversion chosen by a run-time type value and the typed conversion give the same result.",
  ["inputs","programs"],"all 225 pairs of types, all in-range colors and alphas",
  "Tests exercise few of the 225 pairs and rarely check alpha or color space.",
  [MA+"color_converter.cpp",MA+"color_converter.h"],[("dispatch","color_converter::to_* for color_base and color_converter::convertTo"),("compositions","color_converter composite conversions")],["color_converter results"])

p("C16","Operations never modify the colors they are given",
  "Converting, calculating with, blending, composing, adjusting (except when a color is adjusted in place by reference), combining, measuring and chromatically adapting colors leaves every input color, RGB color space definition and white point exactly as it was.",
  ["inputs","programs"],"all public operations of the converter, calculation, blend, compositing, combination, distance and adaptation classes, all in-range inputs of all types",
  "Tests look at results, not at the inputs afterwards.",
  [MA+"color_converter.cpp",MA+"color_calculation.cpp",MA+"color_blend.cpp",MA+"porter_duff.cpp",MA+"base_color_blend.h",MA+"color_distance.cpp",MA+"chromatic_adaptation.cpp",MA+"color_combinations.cpp",MA+"color_adjustments.cpp"],[("temporaries","every operation that works on premultiplied or gamma corrected copies")],["input objects after each call"])

p("C17","Converting there and back returns the original color",
  "For every color, converting RGB to HSV, HSL, HCY or CMYK and back to RGB, 8-bit RGB with whole-numbered channels to floating RGB and back, XYZ to xyY, Lab or Luv and back, and Lab or Luv to its LCH form and back, returns the original channels and alpha, as long as no intermediate value has to be limited to its channel range. For xyY and Luv, which carry no chromaticity at zero luminance, the XYZ color is black or has a positive luminance.",
  ["inputs"],"all in-range colors for which no intermediate limit is hit",
  "A round trip identity over the whole cube cannot be sampled; tests check single colors one way.",
  [MA+"color_converter.cpp"],[("inverse pairs","color_converter forward and backward members")],["color_converter results"])

p("C18","Componentwise blend modes compute the formula of their name",
  "For opaque colors of one RGB color space each componentwise blend mode (normal, multiply, screen, overlay, darken, lighten, dodge, burn, hard, soft, vivid, linear and pin light, hard mix, difference, subtract, divide, plus lighter, plus darker, exclusion and a caller-supplied function) produces in every RGB channel the formula documented for the mode, limited to 0..1, with no undefined value for zero or full channels. With partially transparent colors the blended overlap, the source and the destination are mixed by the areas of the general compositing equation, the keep-source and keep-destination flags select which of the two remain outside the overlap, and the result is un-premultiplied, in the first argument's color type and color space. Missing colors or colors of different RGB color spaces raise an invalid-argument error.",
  ["inputs"],"all source and destination colors and alphas, all modes, all flag combinations",
  "Tests blend one pair of colors per mode; formula branches, limits and partial alpha are unsampled.",
  [MA+"color_blend.cpp",MA+"color_blend.h",MA+"base_color_blend.h"],[("mode formulas","color_blend::*_func"),("compositing","base_color_blend::general_porter_duff")],["color_blend results"])

p("C19","Hue, saturation, color and luminosity blending take the right channels",
  "The hue, saturation, color and luminosity blend modes give a color that has, in hue/chroma/luma terms, the named attribute (hue; chroma; hue and chroma; luma) of the source and the remaining ones of the destination. The result has the first argument's color type, alpha and RGB color space.",
  ["inputs"],"all source and destination colors",
  "Tests blend one pair per mode.",
  [MA+"color_blend.cpp"],[("non separable modes","color_blend::hue, saturation, color, luminosity")],["color_blend results"])

p("C20","Porter-Duff operators implement the compositing algebra",
  "Each of the twelve Porter-Duff operators composes two colors with the coverage fractions of its definition (source, destination, over, in, out, atop, xor, clear and the destination variants): result alpha is Fa*As + Fb*Ad and the alpha-weighted channels are Fa*As*Cs + Fb*Ad*Cd, returned un-premultiplied and in the first argument's color type. A fully transparent result has no undefined channels.",
  ["inputs"],"all pairs of colors and alphas, all twelve operators",
  "Tests compose a single pair of colors per operator.",
  [MA+"porter_duff.cpp",MA+"base_color_blend.h"],[("operators","porter_duff members"),("compositing","base_color_blend::general_porter_duff")],["porter_duff results"])

p("C21","Adding, subtracting and mixing colors follow the weighted formulas",
  "Adding two colors with weights, subtracting a weighted color and mixing two colors compute, channel by channel in the first color's type and RGB color space, the weighted sum: for RGB the root of the weighted sum of squares (subtraction is linear), for grey, CMYK, XYZ, xyY and Luv the linear sum, for HSV the sum of vectors in the hue cone; HSI, HSL and HCY are calculated as HSV and Lab and the LCH types as XYZ, and results are limited to the channel ranges. Alpha is calculated like the channels exactly when requested and otherwise is the first color's alpha. A weight outside 0..1 raises an invalid-argument error, mixing equals adding with the weights w and 1-w, and the type-generic versions convert the second color to the first one's type and give the same result as the typed ones, for every color type.",
  ["inputs","programs"],"all 15 types, all in-range colors, all weights, both alpha modes",
  "The tests add a few colors with weight 1 and default alpha handling.",
  [MA+"color_calculation.cpp",MA+"color_calculation.h"],[("typed operations","color_calculation::add/mix/subtract"),("dispatch","color_calculation::add/mix/subtract on color_base")],["color_calculation results"])

p("C22","The average of colors is their mean, for any number of colors",
  "Averaging any non-empty list of colors of one type gives, in every channel, the arithmetic mean taken over all of them, counting each color exactly once and limited to the channel ranges. Alpha is averaged likewise when requested and otherwise is the first color's alpha, and the result has the averaged type and the first color's RGB color space. An empty list raises an invalid-argument error, and no color of the list is changed.",
  ["inputs"],"lists of any length, all in-range colors, all 15 types, both alpha modes",
  "Tests average two or three colors; the list length is unbounded.",
  [MA+"color_calculation.cpp"],[("averaging loops","color_calculation::average_*")],["color_calculation::average_* results"])

p("C23","Color combinations have the requested size, hues and type",
  "Complementary, triad, tetrad, pentad and n-color combinations return exactly the requested number of new colors, starting with the given color, whose hues are evenly spaced around the color circle with saturation, value and alpha unchanged; split-complementary and analogous combinations offset the hue by the given angle to both sides, and monochromatic ones change only saturation and value by the documented steps. Every returned color has the type of the given color.",
  ["inputs"],"all colors of all types, all counts and angles",
  "Tests check two or three fixed combinations; the count and angle are unbounded inputs.",
  [MA+"color_combinations.cpp",MA+"color_combinations.h"],[("combination builders","color_combinations members")],["returned vectors of colors"])

p("C24","Saturation and lightness adjustments change only what they name",
  "Saturating or luminating an HSL based adjustment by p multiplies only the saturation, or only the lightness, by 1+p (limited to the channel range); the RGB based saturation moves every channel away from the luma L = 0.299R+0.587G+0.114B by p times its distance, and the RGB based lightness multiplies every channel by 1+p. All leave alpha as it is and give a color of the original type and RGB color space; a factor of zero gives the color itself, and the original color is never modified.",
  ["inputs"],"all colors of all types and all factors",
  "Tests adjust a couple of colors with one factor.",
  [MA+"color_adjustments.cpp"],[("adjustments","color_adjustments members")],["color_adjustments results"])

p("C25","Color distances follow their published formulas and behave like distances",
  "The Euclidean, weighted Euclidean, CIE76, CIE94, CIEDE2000 and CMC l:c distances equal their published formulas for every pair of colors and every positive parametric factor, in the calculation space requested for the Euclidean one. Each is finite, never negative and zero for identical colors, and the Euclidean, CIE76 and CIEDE2000 distances do not depend on the order of the arguments.",
  ["inputs"],"all pairs of colors of all types, all positive parametric factors",
  "Published reference pairs are sampled by the tests; branches on hue, near-grey pairs and symmetry are quantified over all pairs.",
  [MA+"color_distance.cpp",MA+"color_distance.h"],[("distance formulas","color_distance members")],["returned distances"])

p("C26","Chromatic adaptation maps the old white to the new white",
  "Each chromatic adaptation transform converts the color to XYZ, applies M^-1 * D * M with its published matrix M and the gains D given by the ratio of the new to the old white point in that sensor space (for the full Bradford, CMCCAT97, CMCCAT2000 and CAT02 models with their published degree of adaptation), and returns a color of the original type in an RGB color space with the new white point. Adapting to the white point the color already has returns the color unchanged, and adapting the old white gives the new white.",
  ["inputs","configurations"],"all colors of all types, all pairs of white points, all luminance and surround parameters",
  "Tests adapt one or two colors between two standard white points.",
  [MA+"chromatic_adaptation.cpp",MA+"chromatic_adaptation.h"],[("adaptation","chromatic_adaptation members and do_adaption")],["chromatic_adaptation results"])

p("C27","Predefined colors carry their published values",
  "Each of the 141 predefined colors (the enumerators of HexcodeColors) has its published ARGB value, and a color made from a 0xAARRGGBB integer has exactly those red, green and blue values and that alpha. A predefined_color returns exactly that color as its RGB true color, and each of its other getters returns what the converter gives for that color.",
  ["inputs","configurations"],"all predefined colors, all 32 bit codes, all getters, all RGB color spaces",
  "The tests construct one predefined color.",
  [UT+"colors.h",SP+"rgb_truecolor.cpp"],[("color table","HexcodeColors"),("getters","predefined_color getters"),("integer code","rgb_truecolor constructor from an integer")],["predefined_color getters","rgb_truecolor(int)"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
