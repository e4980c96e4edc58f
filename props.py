"""Property texts (source of properties.jsonl; see gen.py)."""
def P(id, title, statement, text, why, files, mech, over=('inputs',)):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=text), why_tests_cant=why,
                anchors=dict(files=sorted(set(files)), mechanism=[dict(name=n, where=w) for n, w in mech]))
T = 'ColorMagic/spaces/'; M = 'ColorMagic/manipulation/'; U = 'ColorMagic/utils/'
PROPS = [
P('C01', 'Color components and alpha always stay inside the type\'s documented range',
  'Whatever floats a color of any of the 15 types is constructed from or has assigned through its component and alpha setters - including NaN, infinities and values far outside the range - every component and the alpha it reports lie inside the documented range of its type (hue 0..359, others 0..1, 0..100, 0..255 or signed 100/128). In-range values are stored unchanged, and the sum of two colors of one type is the component sum clamped into the same range.',
  'all float bit patterns for every component and alpha of all 15 color types', 'The tests construct colors from a few in-range literals; the guarantee is over every float including NaN, infinities and values beyond the range.',
  [T+'*.h', T+'color_base.h'], [('clamp in constructors and setters', T+'color_base.h')]),
P('C02', 'Colors are independent values: copy, compare, assign, index, premultiply',
  'Copying a color or constructing it from a base-class color of its own type yields an equal, independent color with the same alpha and RGB color space, and constructing from another type throws; assignment transfers all components. Equality holds exactly when types and all components agree, component access throws exactly for invalid indices and otherwise touches only the addressed component. Multiplying by alpha scales every component by alpha and dividing undoes it (alpha 0 gives zero components).',
  'all component and alpha values, all pairs of types, all int indices', 'Equality, copying and indexing are sampled on single literal colors for some of the types.',
  [T+'color_base.h', T+'color_base.h', T+'*.h'], [('operator==, operator+, copy constructors, get_component/set_component, alpha_multiply', T+'color_base.h')]),
P('C04', 'Packed integers, hex strings and named colors parse to the written channels',
  'An RGB color built from a packed integer (0xAARRGGBB) or from a hex string (RRGGBB or AARRGGBB, digits in either case, optional leading #) has exactly the channels and alpha written, and a string that is not such a hex string is rejected with an exception instead of yielding a color. Every named color has the channels of its packed value in every color type it is offered in.',
  'all 2^32 packed integers, all strings over all byte values, all named colors', 'Tests parse a handful of literal strings and integers out of 2^32 and an unbounded set of strings.',
  [T+'rgb_truecolor.h', T+'rgb_truecolor.cpp', U+'colors.h', U+'colors.h'], [('hex regex and sscanf parsing', T+'rgb_truecolor.cpp')]),
P('C05', 'Every color converts to every type: right type, in range, alpha and space kept',
  'Converting any in-range color to any of the 15 color types returns a color of exactly the requested type whose components are in range and not NaN, whose alpha is the source\'s alpha, and which keeps the source\'s RGB color space.',
  'all in-range colors of each of the 15 types, all 225 ordered pairs of types', 'Tests convert a few colors between some of the pairs; totality is over all 225 pairs and every component value, including black, white and zero saturation where divisions degenerate.',
  [M+'color_converter.cpp', M+'color_converter.h'], [('convertTo dispatch and to_* functions', M+'color_converter.cpp')]),
P('C06', 'Conversions are pure and the two conversion entry points agree',
  'A conversion never modifies its input and gives the same result when repeated. Converting by type code gives the same color as calling the named conversion for that type, and converting a color to its own type leaves it unchanged.',
  'all in-range colors of each type, all target types', 'The tests never look at the input after a conversion and compare no entry points with each other.',
  [M+'color_converter.cpp'], [('convertTo, to_*', M+'color_converter.cpp')]),
P('C07', 'Converting in one call or step by step through related models agrees',
  'Converting a color between any two types gives, up to rounding, the same color as converting it in single steps along the chain of models that define each other: HSx, CMYK, grey and 0..255 RGB through 0..1 RGB, xyY, Lab and Luv through XYZ, LCH through its Lab or Luv form, and RGB and XYZ through the color\'s RGB space (HSV and HSL, which have a formula of their own, excepted).',
  'all in-range colors of each of the 15 types, all target types', 'The tests check a few fixed results per direct conversion; that the 210 conversions are mutually consistent is a statement about all pairs and all colors.',
  [M+'color_converter.cpp'], [('X_to_Y conversions', M+'color_converter.cpp')]),
P('C08', 'RGB to HSV/HSL/HSI/HCY/CMYK and back returns the original color',
  'Converting an RGB color to HSV, HSL, HSI, HCY or CMYK and back to RGB returns the original channels up to rounding (and up to the documented hue saturation at 359 degrees for hues between 359 and 360).',
  'all RGB colors in [0,1]^3', 'Tests convert only isolated colors in one direction with fixed expected numbers; the inverse property ranges over the whole RGB cube, including every hue sector boundary.',
  [M+'color_converter.cpp'], [('rgb_deep_to_*, *_to_rgb_deep', M+'color_converter.cpp')]),
P('C09', 'HSV/HSL/HSI/HCY/CMYK conversions implement their defining formulas',
  'For every RGB color, the hue, saturation and value/lightness/intensity/luma (or cyan, magenta, yellow, key) produced are those of the textbook definition of the model, with hue 0 and saturation 0 for greys; HSV to HSL and back agree with going through RGB.',
  'all RGB colors in [0,1]^3', 'The formulas are piecewise over hue sectors and degenerate cases; tests check a few points.',
  [M+'color_converter.cpp'], [('rgb_deep_to_hsv/hsl/hsi/hcy/cmyk, hsv_to_hsl, hsl_to_hsv', M+'color_converter.cpp')]),
P('C10', 'RGB and XYZ convert by gamma and the space\'s matrix, and invert each other',
  'Converting RGB to XYZ linearises each channel with the color space\'s gamma curve and multiplies by its RGB-to-XYZ matrix; XYZ to RGB applies the inverse matrix and the encoding curve, with results clamped to range. White maps to the space\'s white point, black to zero.',
  'all RGB colors and XYZ colors in range, several RGB color space definitions', 'Tests compare isolated colors for sRGB only.',
  [M+'color_converter.cpp', T+'rgb_color_space_definition.h'], [('rgb_deep_to_xyz, xyz_to_rgb_deep', M+'color_converter.cpp')]),
P('C11', 'XYZ to xyY, Lab and Luv follow the CIE definitions and invert',
  'Converting XYZ to xyY, CIELAB or CIELUV gives the CIE-defined values relative to the white point of the color\'s RGB space (black gives the neutral black), and converting back recovers the XYZ color up to rounding where Y is positive and no component had to be clamped.',
  'all XYZ / xyY / Lab / Luv colors in the stated ranges', 'Piecewise definitions (linear segment near black) are sampled only on a few mid-range colors.',
  [M+'color_converter.cpp'], [('xyz_to_xyy, xyz_to_lab, xyz_to_cieluv and inverses', M+'color_converter.cpp')]),
P('C12', 'LCH is the polar form of Lab and Luv',
  'Converting Lab or Luv to LCH keeps lightness, yields the radius of the chromatic plane as chroma and its angle in [0,359] degrees as hue; converting back multiplies chroma by cosine and sine of the hue.',
  'all Lab, Luv and LCH colors in range', 'Tests use one or two colors; the angle normalisation has branches per quadrant and on the axes.',
  [M+'color_converter.cpp'], [('lab_to_lch_ab, cieluv_to_lch_uv and inverses', M+'color_converter.cpp')]),
P('C13', 'True color, deep color and grey conversions scale and average exactly',
  'Converting between 0..255 and 0..1 representations scales by 255 and rounds to the nearest integer channel when going to true color, so true to deep and back is the identity on integer channels and off by at most half a step otherwise. Grey values are the mean of the three channels and expand to three equal channels.',
  'all RGB, grey colors in range', 'Sampled on single colors; rounding must hold at every half-step boundary.',
  [M+'color_converter.cpp'], [('rgb_true_to_rgb_deep, rgb_deep_to_rgb_true, *_to_grey_*', M+'color_converter.cpp')]),
P('C14', 'Gamma curves select the right part and invert each other',
  'A gamma curve applies, for each input, the part with the smallest upper border that is not below it; for every built-in curve the linear and companded directions invert each other up to rounding, are monotone and map 0 to 0 and 1 to 1.',
  'all inputs in [0,1], all built-in curves, all border arrangements of up to 3 parts', 'Tests evaluate a few curve points; inverse and monotonicity are over all inputs and the junction of the parts.',
  [T+'gamma.h', T+'gamma.h'], [('gamma::transform', T+'gamma.h')]),
P('C15', 'White points are consistent chromaticities',
  'Converting a white point between chromaticity coordinates and tristimulus values is an exact round trip with luminance 1, for arbitrary chromaticities and every built-in illuminant; built-in illuminants carry the published CIE chromaticities.',
  'all chromaticities with y bounded away from zero, all built-in illuminants', 'No test checks the tables or the inverse relation.',
  [T+'white_point.h'], [('tristimulus_to_chromaticity_coordinate and inverse', T+'white_point.h')]),
P('C16', 'RGB space matrices map the primaries and white point and invert each other',
  'For an RGB space definition built from primaries and a white point, the RGB-to-XYZ matrix sends the unit primaries to their chromaticities and (1,1,1) to the white point, and the XYZ-to-RGB matrix is its inverse; changing the white point recomputes both.',
  'all white points in a box and primaries near the presets, all built-in definitions', 'Tests check no matrix of any preset, let alone arbitrary definitions.',
  [T+'rgb_color_space_definition.h', T+'rgb_color_space_definition.h'], [('matrix computation from primaries and white point', T+'rgb_color_space_definition.h')]),
P('C17', 'Matrix algebra follows linear algebra and rejects ill-shaped operands',
  'Matrix sum, difference, scalar and matrix product, transpose, determinant, adjoint and inverse give the mathematically defined entries for every shape, element access out of bounds and operations on incompatible shapes throw, and compound forms agree with the plain ones. Operands are left unmodified by non-assigning operations.',
  'all entries, all shapes up to the stated bounds, all indices', 'Tests compute isolated products and inverses of literal matrices.',
  [U+'matrix.h'], [('matrix<T> operators', U+'matrix.h')]),
P('C18', 'Porter-Duff compositing follows the Porter-Duff equations',
  'Each Porter-Duff operator returns, in the source\'s type, the alpha and components given by its coefficients in the Porter-Duff equations, clamped into range and never NaN (also for fully transparent results), and leaves its operands unmodified.',
  'all source and destination colors and alphas in range, all operators', 'Tests combine one pair of colors per operator with one pair of alphas.',
  [M+'porter_duff.cpp', M+'porter_duff.h', M+'base_color_blend.h'], [('Porter-Duff operators', M+'porter_duff.cpp')]),
P('C19', 'Blend modes apply their defining function to each channel',
  'Each separable blend mode combines source and destination channels by its defining function inside the general compositing equation with the selected regions, and the result stays in range; hue, saturation, color and luminosity take hue, chroma and luma in HCY from the named operand and keep the source alpha; null inputs or inputs with different RGB spaces are rejected; operands are left unmodified.',
  'all source and destination colors and alphas in range, both region flags, all blend modes', 'Tests blend one or two pairs of colors per mode.',
  [M+'color_blend.cpp', M+'color_blend.h', M+'base_color_blend.h'], [('blend modes', M+'color_blend.cpp')]),
P('C20', 'Adding and subtracting colors follows each model\'s weighted rule',
  'Weighted addition and subtraction of two colors gives, in the first color\'s type and space, the model\'s defined combination of components clamped into range, keeps the first color\'s alpha unless alpha inclusion is requested, and leaves the operands unmodified.',
  'all pairs of in-range colors, all weights in [0,1]', 'Tests add a couple of literal colors with default weights.',
  [M+'color_calculation.cpp', M+'color_calculation.h'], [('add_*, subtract_*', M+'color_calculation.cpp')]),
P('C21', 'Mixing interpolates, averaging averages, invalid weights are rejected',
  'Mixing with weight w equals adding with weights w and 1-w, weight 1 and 0 return the first and second color in linear models, averaging gives the arithmetic mean of every component, an empty set and weights outside [0,1] are rejected with an exception.',
  'all colors, all weights including out-of-range ones, sets of up to 3 colors', 'Tests mix a few literals; rejection and endpoint behaviour are not sampled over types.',
  [M+'color_calculation.cpp', M+'color_calculation.h'], [('mix_*, average_*', M+'color_calculation.cpp')]),
P('C22', 'Color distances are finite, non-negative, zero on equal colors and symmetric',
  'Every color distance is a finite non-negative number, zero for two equal colors, and symmetric for the symmetric formulas, for every pair of colors of any type; the inputs are left unmodified.',
  'all pairs of in-range colors', 'Tests compare a few isolated pairs; NaN arises only on degenerate inputs such as greys.',
  [M+'color_distance.cpp', M+'color_distance.h'], [('distance functions', M+'color_distance.cpp')]),
P('C23', 'Color distances implement their published formulas',
  'Euclidean, weighted euclidean, CIE76, CIE94 (both parameter sets) and CMC l:c distances equal their published formulas evaluated on the converted components.',
  'all pairs of in-range colors in the compared space', 'Tests compare a few isolated pairs; the formulas are piecewise.',
  [M+'color_distance.cpp', M+'color_distance.h'], [('distance functions', M+'color_distance.cpp')]),
P('C24', 'Color combinations place hues at the documented angles',
  'Color combinations return the requested number of colors, in the input\'s type, space and alpha, whose hues are spaced by the documented angles (modulo 360) with other components kept, the monochromatic ones reducing saturation, lightness or both by the given share from color to color; invalid counts, distances and amounts are rejected.',
  'all colors, all angles and amounts, counts up to the stated bound', 'Tests check a few literal combinations.',
  [M+'color_combinations.cpp', M+'color_combinations.h'], [('create_combination, analogous, monochromatic', M+'color_combinations.cpp')]),
P('C25', 'Saturation and lightness adjustments follow their formulas and keep the rest',
  'Saturating or luminating a color changes it by the documented formula (RGB luma interpolation, HSL saturation or lightness scaling) clamped into range, returns the input\'s type, space and alpha, and the in-place overload has the same effect as the returning one.',
  'all colors, all amounts', 'Tests adjust a few literal colors.',
  [M+'color_adjustments.cpp', M+'color_adjustments.h'], [('saturate_*, luminate_*', M+'color_adjustments.cpp')]),
P('C26', 'Chromatic adaptation maps white to white and is the identity on itself',
  'Adapting a color to a target white point maps the source white to the target white for every linear method, equals the method\'s cone-space scaling for every color, preserves type and alpha, and returns the color unchanged when the target is already its white point.',
  'all colors, all pairs of white points near the built-in illuminants', 'Tests adapt a few literal colors between two illuminants.',
  [M+'chromatic_adaptation.cpp', M+'chromatic_adaptation.h'], [('do_adaption and per-method matrices', M+'chromatic_adaptation.cpp')]),
]
