TECH = 'symbolic execution of the compiled LLVM IR + SMT (z3: NRA with rounding-error bounds, QF_FPBV)'
NOTE = 'Every obligation on every feasible path is decided for all input values by z3 (or closed by interval reasoning on the same path); counterexamples are reported only after replaying on the natively compiled code. Trusted: clang 18 at -O0/-O1 IR, the LLVM-IR executor (cross-validated against native runs every time), z3, the accuracy contract (<= 4 ulp, monotone) of libm. Obligations the solver cannot settle in time are listed as undischarged in the evidence.'
COMMON = ['clang 18 translates the C++ to LLVM IR correctly', 'the IR executor in engine/ is faithful (validated against native runs in each check)', 'z3 4.x answers unsat correctly',
          'glibc float libm calls (pow, exp, log, sin, cos, atan2, cbrt) are within 4 ulp of the real value and keep the sign/range facts in engine/realcalls.py', 'round-to-nearest floating point, no exceptions trapped', 'operator new does not fail']
NA = {}
SPECS = {
 'C01': dict(harness=['c01.cpp'], level='model_checking', bounds='One construction plus one assignment of every component and alpha, or one addition, per color type; every component and alpha is an arbitrary float bit pattern. No loops are truncated.'),
 'C02': dict(harness=['c02.cpp'], level='model_checking', bounds='All 15 types (and all 225 ordered pairs for equality and mixed construction); in-range components and alpha (arbitrary bit patterns for equality); all int indices; premultiply round trip for alpha = 0 or >= 1e-3 of full scale. No loops are truncated.'),
 'C04': dict(harness=['c04.cpp'], level='model_checking', bounds='All 2^32 packed integers; all strings of 0 to 11 characters, every character any of the 256 byte values (alpha within 1e-4 of 255, colors exact); all 141 named colors in all 10 types offered, and any packed value in the 7 of them that belong to the RGB family. std::regex and sscanf are modelled (engine/rx.py), the model is compared with the real ones in every run.'),
 'C05': dict(harness=['c05.cpp'], level='model_checking', bounds='All 225 ordered type pairs with the default (sRGB) definition attached, and the 81 pairs within the RGB family with none attached; all in-range components and alphas. No loops are truncated.'),
 'C06': dict(harness=['c06.cpp'], level='model_checking', bounds='All 225 ordered type pairs, default (sRGB) definition; all in-range components and alphas; each conversion executed twice. No loops are truncated.'),
 'C07': dict(harness=['c07.cpp'], level='model_checking', bounds='All 225 ordered type pairs but HSV-HSL (which C09 decides) and direct neighbours; all in-range components and alphas; sRGB and Adobe RGB. No loops are truncated. Tolerance 1e-5 of the range, half a step between 0..255 types.'),
 'C08': dict(harness=['c08.cpp'], level='model_checking', bounds='All RGB deep colors in [0,1]^3; for CMYK/HSI/HSL the channel maximum is 0 or >= 0.002 (and for HSL the minimum 1 or <= 0.998), below which rounding of the denominators dominates. Tolerance 2e-4, or 0.0172 where the hue had to be saturated at 359.'),
 'C09': dict(harness=['c09.cpp'], level='model_checking', bounds='All RGB deep / HSV / HSL / HSI / HCY / CMYK colors in range; saturation of HSL and CMYK components compared for channel maximum >= 0.002 and minimum <= 0.998. Tolerances 1e-6..4e-6, hue 2e-3 degrees.'),
 'C13': dict(harness=['c13.cpp'], level='model_checking', bounds='All in-range RGB/grey true and deep colors; all integer channels 0..255 for the exact round trip. Tolerances 1e-4 of 255, 1e-6 of 1, half a step where rounding to integer channels is specified.'),
 'C12': dict(harness=['c12.cpp'], level='model_checking', bounds='All in-range Lab, Luv and LCH colors (second chromatic component zero of either sign or at least 1e-20 in magnitude). Tolerances 1e-4 for the radius, 2e-3..4e-3 for the plane coordinates (1.77 where the hue had to be saturated at 359); the round trip excludes radii that saturate at 100.'),
 'C14': dict(harness=['c14.cpp'], level='model_checking', bounds='Curves of up to 3 parts with arbitrary borders in [0,1] inserted by constructor, add, set, copy and assignment, also with a null part or a part without function (thorough: all of these with 3 parts); all inputs in [0,1] of the 8 built-in curves. Tolerances 1e-4..4e-4 for formulas and round trips, 1e-5..1e-4 for monotonicity (the published junction constants are rounded).'),
 'C15': dict(harness=['c15.cpp'], level='model_checking', bounds='All chromaticities with x in [0,1], y in [0.05,1] (and the three decades below, down to 0.00005); tristimulus values X,Z in [0,2], Y in [0.05,2]; target luminance 0..100; all 40 built-in illuminants against the CIE tables (tolerance 4e-4). Tolerances 1e-6 .. 4e-5 of the value scale.'),
 'C16': dict(harness=['c16.cpp'], level='model_checking', bounds='All white points X in [0.9,1.15], Y=1, Z in [0.35,1.25] with the primaries of each of the 20 built-in spaces (by constructor and by set_white_point); whites of other luminance; whites changed and set again, copies; each coordinate of the sRGB primaries moved by up to 0.01; the 20 built-in spaces against their published primaries, white and curve. Tolerances 1e-4 (2e-3 for the product of the two matrices).'),
 'C17': dict(harness=['c17.cpp'], level='model_checking', bounds='Element-wise operations and transpose for all shapes up to 4x4 (entries in [-100,100], divisors in [0.125,100]); products for all shapes up to 3x3 and 4x4 (entries in [-10,10]); determinant and adjoint for all 1x1 and 2x2 matrices with entries in [-4,4], 3x3 (three sign patterns of first row and column, other entries in [-3,3]; zero and equal rows and columns; diagonal, permuted and triangular ones) and one 4x4 pattern; inverse where |det| >= 0.25, and multiples c in [0.005,1] of one 2x2, 3x3 and 4x4 matrix; all int indices for shapes up to 3x3; all pairs of shapes up to 3x3 and 4x4 for rejection. Tolerances 1e-4..1e-2 of products of such entries.'),
 'C10': dict(harness=['c10.cpp'], level='model_checking', bounds='All RGB colors in [0,1]^3 and XYZ colors in [0,1.25]^3 ([0,100]^3 for sRGB saturation) for 8 built-in spaces covering all built-in curves. Tolerances 1e-5 (XYZ), 2e-4 of the linear value (1e-3 below encoded 0.15), round trip 1e-3 for sRGB and UHDTV and as before (of the linear value) for pure power curves.'),
 'C11': dict(harness=['c11.cpp'], level='model_checking', bounds='White points D65, D50, C, E, A and a white of luminance 0.8125. XYZ in [0,1.1]^3 ([0,100]^3 to xyY, sum >= 1e-3); xyY with y >= 0.02 and x+y <= 1; all in-range Lab; Luv with L >= 1.5625, u\' in [0.077,0.65], v\' in [0.15,0.65]; Luv from XYZ with X+15Y+3Z >= 0.01. Round trips for Y >= 0.02 (xyY), for Luv with L in [12.5,100], u\' >= 0.15, v\' >= 0.3, and colors whose Lab/Luv components do not saturate. Tolerances 2e-6..2e-4 of XYZ/xyY (2e-3 .. 0.02 for Luv), 1e-3..6e-3 of Lab/Luv units. Black, white and L = 0 exactly.'),
 'C18': dict(harness=['c18.cpp'], level='model_checking', bounds='All deep source and destination colors and alphas in [0,1] for the 12 operators (components compared where the resulting alpha is >= 0.004; below, range and no NaN); operands left unmodified for RGB, grey and CMYK sources; every type as source against the deep operator (all operators for RGB/grey/CMYK, four of them for HSx, over for the XYZ family). Tolerances 1e-6 (alpha), 1e-4 (components).'),
 'C19': dict(harness=['c19.cpp'], level='model_checking', bounds='22 separable modes and a custom function, all four region choices: one channel over all source and destination values, the other two fixed, all alphas with a resulting alpha >= 1/16 (alpha and range: all); denominators of dodge/burn/divide 0 or >= 1/128, of vivid light 0 or >= 1/16, burn not within 1/1000 below its saturation, hard mix not within 1e-6 of its step. Dissolve for every rand() outcome. Hue/saturation/color/luminosity for all HCY operands, and all deep and HSV sources against their HCY form. Operands left unmodified for RGB, grey and CMYK sources; every type as source against the deep operator for one mode each. Tolerances 1e-6 (alpha), 1e-4 (1e-3 for quotients).'),
 'C20': dict(harness=['c20.cpp'], level='model_checking', bounds='Weights in [0,1], both alpha flags, base and typed overloads. RGB, grey, CMYK, XYZ, xyY and Luv: all pairs of colors, each component within 1e-6 of its range (2e-5 for the RGB root mean). HSV: all pairs of colors, plane coordinates within 2e-3, value and alpha within 1e-6. HSI, HSL, HCY, Lab, LCH: one color arbitrary, the other one of 3 fixed colors, equal to the sum of the converted colors in HSV or XYZ. Second color of another type: 15x15 types, the second color fixed. sRGB.'),
 'C21': dict(harness=['c21.cpp'], level='model_checking', bounds='15 types, base and typed overloads. Mixing: weights in [0,1], all pairs of colors (for the polar and Lab/LCH models one of the two fixed). End points: all pairs of colors of the 8 linear models, exact (2e-5 of the range for RGB). Averages: sets of 1 to 4 arbitrary colors, 2e-6 of the range. Rejection: every float weight outside [0,1] (NaN excluded).'),
 'C22': dict(harness=['c22.cpp'], level='model_checking', bounds='Euclidean (RGB and Luv), weighted, CIE76, CIE94 and CMC for all pairs of colors in the space of the calculation (graphic arts and textiles factors, CMC 2:1 and 1:1); for each of 15 types, all nine functions: one color arbitrary and one fixed on either side, equal to the distance of the converted colors, operands unmodified. CIEDE2000: equal colors outside the red hues (|b| >= 1e-10); different colors on a grid of 12 x 12 hues and 3 x 3 chromas with a mean hue of at least 60 degrees: finite, positive and symmetric for every pair of lightnesses; the conversion clause for all types.'),
 'C23': dict(harness=['c23.cpp'], level='model_checking', bounds='All pairs of colors in the space of the calculation, sRGB. Euclidean with every calculation space argument, CIE94 and CMC with three parameter sets each. Tolerances 2e-6 of the squared RGB distance, 1e-5 for roots, 1e-3 Lab units; CMC hues within 0.001 degrees of the limits 164 and 345 excluded. CIEDE2000 is not part of the property.'),
 'C24': dict(harness=['c24.cpp'], level='model_checking', bounds='All HSL colors; 2..12, 16, 24 and 36 colors (2, 50, 90, 180, 359 and 360 for hues in [0,0.5]); distances in [1e-4,120]; monochromatic sets of 1 to 5 colors, amounts in [0,1]. Hues within 1e-3 degrees (values in [359,360) saturate at 359). The other 14 types: equal to the combination in HSL converted back, all colors of the RGB family types, three fixed colors of the XYZ based ones. Rejection: every count in [-1e6,1e6], every float distance and amount outside the limits (negative distances are accepted by the code and not judged). sRGB.'),
 'C25': dict(harness=['c25.cpp'], level='model_checking', bounds='Formula: all RGB and HSL colors and alphas, amounts in [-1,1] and in [-8,8] (results clamped), 1e-5 of the range, other components exact. Types: 15 types, amounts 1e-6 <= |p| <= 8, all colors of the RGB family and HSV/HSL (HSI and HCY for the RGB adjustments), three fixed colors of the others; returned and in-place overloads agree. Amount 0 of the HSL adjustments: all colors of all types. sRGB.'),
 'C26': dict(harness=['c26.cpp'], level='model_checking', bounds='Seven linear methods: every color XYZ in [0,1.25]^3, every source and target white X in [0.9,1.12], Y=1, Z in [0.3,1.25] (5e-4); white to white with one of the two arbitrary (2e-4). CMCCAT2000 and CAT02: every color, every degree factor in [0,1], one white arbitrary, four luminance settings. Bradford and CMCCAT97 with the nonlinear blue response: every color with Y >= 0.02, 12 pairs of illuminants, three parameter sets (1e-3); black and white of these. Whites of luminance 0.8125 and 1.125 too in the linear, white and incomplete checks. Target equal to the current white: all colors of all types and all parameters. Other types: three fixed colors of each of the 15 types, every alpha, all eleven methods, D65 to D50.'),
}
