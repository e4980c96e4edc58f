#include "lib.h"
static double chan(unsigned v, int shift) { return (v >> shift) & 255; }
static void is_packed(color_base* c, unsigned v, unsigned a, const char* id)
{
	chk(c->get_color_type() == color_type::RGB_TRUE, nm(id, ".type"));
	chk_near(C(c, 0), chan(v, 16), 0, nm(id, ".red")); chk_near(C(c, 1), chan(v, 8), 0, nm(id, ".green")); chk_near(C(c, 2), chan(v, 0), 0, nm(id, ".blue"));
	chk_near(c->alpha(), a, 1e-4, nm(id, ".alpha"));
}
// every packed integer 0xaarrggbb
ENTRY(packed, 1)
{
	rgbdef* d = SRGB(); int v = sym_int("v", -2147483647 - 1, 2147483647);
	rgb_truecolor c(v, d);
	is_packed(&c, v, (unsigned)v >> 24, "packed");
	chk(c.get_rgb_color_space() == d, "space");
}
// every string of 0..11 characters over all byte values; shard: length
static unsigned in(unsigned c, unsigned lo, unsigned hi) { return (unsigned)(c - lo <= hi - lo); }
static unsigned digit(unsigned c) { return in(c, '0', '9') | in(c, 'A', 'F') | in(c, 'a', 'f'); }
static unsigned value(unsigned c) { return c <= '9' ? c - '0' : c <= 'F' ? c - 'A' + 10 : c - 'a' + 10; }
ENTRY(hex, 12)
{
	static const char* const N[11] = { "c0", "c1", "c2", "c3", "c4", "c5", "c6", "c7", "c8", "c9", "c10" };
	rgbdef* d = SRGB(); unsigned b[11]; std::string s; int n = shard;
	for (int i = 0; i < n; ++i) { b[i] = (unsigned)sym_int(N[i], 0, 255); s.push_back((char)(unsigned char)b[i]); }
	// valid exactly if [#] and 6 or 8 hexadecimal digits
	unsigned plain = n == 6 || n == 8, hash = (n == 7 || n == 9) ? b[0] == '#' : 0;
	for (int i = 0; i < n; ++i) { plain &= digit(b[i]); if (i) hash &= digit(b[i]); }
	rgb_truecolor* c = 0;
	int e = throws([&] { c = new rgb_truecolor(s, d); });
	if (e) { chk(!(plain | hash), "accepts"); return; }
	chk((plain | hash) != 0, "rejects");
	int k = n & 1;
	if (n - k != 6 && n - k != 8) return;
	unsigned a = 255; int o = k;
	if (n - k == 8) { a = value(b[o]) * 16 + value(b[o + 1]); o += 2; }
	chk(c->get_color_type() == color_type::RGB_TRUE, "type");
	chk_near(C(c, 0), value(b[o]) * 16 + value(b[o + 1]), 0, "red"); chk_near(C(c, 1), value(b[o + 2]) * 16 + value(b[o + 3]), 0, "green"); chk_near(C(c, 2), value(b[o + 4]) * 16 + value(b[o + 5]), 0, "blue");
	chk_near(c->alpha(), a, 1e-4, "alpha");
	chk(c->get_rgb_color_space() == d, "space");
}
// the named colors: published values (.NET KnownColor), and every type offered equals the conversion of the packed color
struct name { unsigned v, pub; };
static name NAME(int i)
{
	switch (i) {
	case 0: return { (unsigned)AliceBlue, 0xfff0f8ffu };
	case 1: return { (unsigned)AntiqueWhite, 0xfffaebd7u };
	case 2: return { (unsigned)Aqua, 0xff00ffffu };
	case 3: return { (unsigned)Aquamarine, 0xff7fffd4u };
	case 4: return { (unsigned)Azure, 0xfff0ffffu };
	case 5: return { (unsigned)Beige, 0xfff5f5dcu };
	case 6: return { (unsigned)Bisque, 0xffffe4c4u };
	case 7: return { (unsigned)Black, 0xff000000u };
	case 8: return { (unsigned)BlanchedAlmond, 0xffffebcdu };
	case 9: return { (unsigned)Blue, 0xff0000ffu };
	case 10: return { (unsigned)BlueViolet, 0xff8a2be2u };
	case 11: return { (unsigned)Brown, 0xffa52a2au };
	case 12: return { (unsigned)BurlyWood, 0xffdeb887u };
	case 13: return { (unsigned)CadetBlue, 0xff5f9ea0u };
	case 14: return { (unsigned)Chartreuse, 0xff7fff00u };
	case 15: return { (unsigned)Chocolate, 0xffd2691eu };
	case 16: return { (unsigned)Coral, 0xffff7f50u };
	case 17: return { (unsigned)CornflowerBlue, 0xff6495edu };
	case 18: return { (unsigned)Cornsilk, 0xfffff8dcu };
	case 19: return { (unsigned)Crimson, 0xffdc143cu };
	case 20: return { (unsigned)Cyan, 0xff00ffffu };
	case 21: return { (unsigned)DarkBlue, 0xff00008bu };
	case 22: return { (unsigned)DarkCyan, 0xff008b8bu };
	case 23: return { (unsigned)DarkGoldenrod, 0xffb8860bu };
	case 24: return { (unsigned)DarkGray, 0xffa9a9a9u };
	case 25: return { (unsigned)DarkGreen, 0xff006400u };
	case 26: return { (unsigned)DarkKhaki, 0xffbdb76bu };
	case 27: return { (unsigned)DarkMagenta, 0xff8b008bu };
	case 28: return { (unsigned)DarkOliveGreen, 0xff556b2fu };
	case 29: return { (unsigned)DarkOrange, 0xffff8c00u };
	case 30: return { (unsigned)DarkOrchid, 0xff9932ccu };
	case 31: return { (unsigned)DarkRed, 0xff8b0000u };
	case 32: return { (unsigned)DarkSalmon, 0xffe9967au };
	case 33: return { (unsigned)DarkSeaGreen, 0xff8fbc8fu };
	case 34: return { (unsigned)DarkSlateBlue, 0xff483d8bu };
	case 35: return { (unsigned)DarkSlateGray, 0xff2f4f4fu };
	case 36: return { (unsigned)DarkTurquoise, 0xff00ced1u };
	case 37: return { (unsigned)DarkViolet, 0xff9400d3u };
	case 38: return { (unsigned)DeepPink, 0xffff1493u };
	case 39: return { (unsigned)DeepSkyBlue, 0xff00bfffu };
	case 40: return { (unsigned)DimGray, 0xff696969u };
	case 41: return { (unsigned)DodgerBlue, 0xff1e90ffu };
	case 42: return { (unsigned)Firebrick, 0xffb22222u };
	case 43: return { (unsigned)FloralWhite, 0xfffffaf0u };
	case 44: return { (unsigned)ForestGreen, 0xff228b22u };
	case 45: return { (unsigned)Fuchsia, 0xffff00ffu };
	case 46: return { (unsigned)Gainsboro, 0xffdcdcdcu };
	case 47: return { (unsigned)GhostWhite, 0xfff8f8ffu };
	case 48: return { (unsigned)Gold, 0xffffd700u };
	case 49: return { (unsigned)Goldenrod, 0xffdaa520u };
	case 50: return { (unsigned)Gray, 0xff808080u };
	case 51: return { (unsigned)Green, 0xff008000u };
	case 52: return { (unsigned)GreenYellow, 0xffadff2fu };
	case 53: return { (unsigned)Honeydew, 0xfff0fff0u };
	case 54: return { (unsigned)HotPink, 0xffff69b4u };
	case 55: return { (unsigned)IndianRed, 0xffcd5c5cu };
	case 56: return { (unsigned)Indigo, 0xff4b0082u };
	case 57: return { (unsigned)Ivory, 0xfffffff0u };
	case 58: return { (unsigned)Khaki, 0xfff0e68cu };
	case 59: return { (unsigned)Lavender, 0xffe6e6fau };
	case 60: return { (unsigned)LavenderBlush, 0xfffff0f5u };
	case 61: return { (unsigned)LawnGreen, 0xff7cfc00u };
	case 62: return { (unsigned)LemonChiffon, 0xfffffacdu };
	case 63: return { (unsigned)LightBlue, 0xffadd8e6u };
	case 64: return { (unsigned)LightCoral, 0xfff08080u };
	case 65: return { (unsigned)LightCyan, 0xffe0ffffu };
	case 66: return { (unsigned)LightGoldenrodYellow, 0xfffafad2u };
	case 67: return { (unsigned)LightGreen, 0xff90ee90u };
	case 68: return { (unsigned)LightGray, 0xffd3d3d3u };
	case 69: return { (unsigned)LightPink, 0xffffb6c1u };
	case 70: return { (unsigned)LightSalmon, 0xffffa07au };
	case 71: return { (unsigned)LightSeaGreen, 0xff20b2aau };
	case 72: return { (unsigned)LightSkyBlue, 0xff87cefau };
	case 73: return { (unsigned)LightSlateGray, 0xff778899u };
	case 74: return { (unsigned)LightSteelBlue, 0xffb0c4deu };
	case 75: return { (unsigned)LightYellow, 0xffffffe0u };
	case 76: return { (unsigned)Lime, 0xff00ff00u };
	case 77: return { (unsigned)LimeGreen, 0xff32cd32u };
	case 78: return { (unsigned)Linen, 0xfffaf0e6u };
	case 79: return { (unsigned)Magenta, 0xffff00ffu };
	case 80: return { (unsigned)Maroon, 0xff800000u };
	case 81: return { (unsigned)MediumAquamarine, 0xff66cdaau };
	case 82: return { (unsigned)MediumBlue, 0xff0000cdu };
	case 83: return { (unsigned)MediumOrchid, 0xffba55d3u };
	case 84: return { (unsigned)MediumPurple, 0xff9370dbu };
	case 85: return { (unsigned)MediumSeaGreen, 0xff3cb371u };
	case 86: return { (unsigned)MediumSlateBlue, 0xff7b68eeu };
	case 87: return { (unsigned)MediumSpringGreen, 0xff00fa9au };
	case 88: return { (unsigned)MediumTurquoise, 0xff48d1ccu };
	case 89: return { (unsigned)MediumVioletRed, 0xffc71585u };
	case 90: return { (unsigned)MidnightBlue, 0xff191970u };
	case 91: return { (unsigned)MintCream, 0xfff5fffau };
	case 92: return { (unsigned)MistyRose, 0xffffe4e1u };
	case 93: return { (unsigned)Moccasin, 0xffffe4b5u };
	case 94: return { (unsigned)NavajoWhite, 0xffffdeadu };
	case 95: return { (unsigned)Navy, 0xff000080u };
	case 96: return { (unsigned)OldLace, 0xfffdf5e6u };
	case 97: return { (unsigned)Olive, 0xff808000u };
	case 98: return { (unsigned)OliveDrab, 0xff6b8e23u };
	case 99: return { (unsigned)Orange, 0xffffa500u };
	case 100: return { (unsigned)OrangeRed, 0xffff4500u };
	case 101: return { (unsigned)Orchid, 0xffda70d6u };
	case 102: return { (unsigned)PaleGoldenrod, 0xffeee8aau };
	case 103: return { (unsigned)PaleGreen, 0xff98fb98u };
	case 104: return { (unsigned)PaleTurquoise, 0xffafeeeeu };
	case 105: return { (unsigned)PaleVioletRed, 0xffdb7093u };
	case 106: return { (unsigned)PapayaWhip, 0xffffefd5u };
	case 107: return { (unsigned)PeachPuff, 0xffffdab9u };
	case 108: return { (unsigned)Peru, 0xffcd853fu };
	case 109: return { (unsigned)Pink, 0xffffc0cbu };
	case 110: return { (unsigned)Plum, 0xffdda0ddu };
	case 111: return { (unsigned)PowderBlue, 0xffb0e0e6u };
	case 112: return { (unsigned)Purple, 0xff800080u };
	case 113: return { (unsigned)Red, 0xffff0000u };
	case 114: return { (unsigned)RosyBrown, 0xffbc8f8fu };
	case 115: return { (unsigned)RoyalBlue, 0xff4169e1u };
	case 116: return { (unsigned)SaddleBrown, 0xff8b4513u };
	case 117: return { (unsigned)Salmon, 0xfffa8072u };
	case 118: return { (unsigned)SandyBrown, 0xfff4a460u };
	case 119: return { (unsigned)SeaGreen, 0xff2e8b57u };
	case 120: return { (unsigned)SeaShell, 0xfffff5eeu };
	case 121: return { (unsigned)Sienna, 0xffa0522du };
	case 122: return { (unsigned)Silver, 0xffc0c0c0u };
	case 123: return { (unsigned)SkyBlue, 0xff87ceebu };
	case 124: return { (unsigned)SlateBlue, 0xff6a5acdu };
	case 125: return { (unsigned)SlateGray, 0xff708090u };
	case 126: return { (unsigned)Snow, 0xfffffafau };
	case 127: return { (unsigned)SpringGreen, 0xff00ff7fu };
	case 128: return { (unsigned)SteelBlue, 0xff4682b4u };
	case 129: return { (unsigned)Tan, 0xffd2b48cu };
	case 130: return { (unsigned)Teal, 0xff008080u };
	case 131: return { (unsigned)Thistle, 0xffd8bfd8u };
	case 132: return { (unsigned)Tomato, 0xffff6347u };
	case 133: return { (unsigned)Transparent, 0x00ffffffu };
	case 134: return { (unsigned)Turquoise, 0xff40e0d0u };
	case 135: return { (unsigned)Violet, 0xffee82eeu };
	case 136: return { (unsigned)Wheat, 0xfff5deb3u };
	case 137: return { (unsigned)White, 0xffffffffu };
	case 138: return { (unsigned)WhiteSmoke, 0xfff5f5f5u };
	case 139: return { (unsigned)Yellow, 0xffffff00u };
	case 140: return { (unsigned)YellowGreen, 0xff9acd32u };
	default: return { 0, 0 };
	}
}
static const int NN = 141;
ENTRY(names, 1)
{
	for (int i = 0; i < NN; ++i) { name n = NAME(i); chk(n.v == n.pub, "value"); }
}
static color_base* offered(predefined_color& p, int t)
{
	switch (t) {
	case T_TRUE: return p.get_rgb_true(); case T_DEEP: return p.get_rgb_deep(); case T_GT: return p.get_grey_true(); case T_GD: return p.get_grey_deep(); case T_CMYK: return p.get_cmyk();
	case T_HSV: return p.get_hsv(); case T_HSL: return p.get_hsl(); case T_XYZ: return p.get_xyz(); case T_XYY: return p.get_xyy(); default: return p.get_lab();
	}
}
static const int OFF[10] = { T_TRUE, T_DEEP, T_GT, T_GD, T_CMYK, T_HSV, T_HSL, T_XYZ, T_XYY, T_LAB };
// any packed value, the types of the RGB family
ENTRY(offered_any, 7)
{
	rgbdef* d = SRGB(); int t = OFF[shard], v = sym_int("v", -2147483647 - 1, 2147483647);
	predefined_color p((HexcodeColors)v, d);
	color_base* c = offered(p, t);
	rgb_truecolor b(v, d); color_base* x = CC::convertTo(&b, TY[t]);
	chk(c->get_color_type() == TY[t], "type");
	if (t == T_TRUE) is_packed(c, v, (unsigned)v >> 24, "packed");
	for (int i = 0; i < NCOMP[t]; ++i) chk_near(C(c, i), C(x, i), 1e-6 * (HI[t][i] - LO[t][i]), "component");
	chk_near(c->alpha(), x->alpha(), 1e-6 * amax(t), "alpha");
	chk(c->get_rgb_color_space() == d, "space");
}
// every named color, every type
ENTRY(offered_named, 10)
{
	rgbdef* d = SRGB(); int t = OFF[shard], v = (int)NAME(sym_choice("name", NN)).pub;
	predefined_color p((HexcodeColors)v, d);
	color_base* c = offered(p, t);
	rgb_truecolor b((float)((v >> 16) & 255), (float)((v >> 8) & 255), (float)(v & 255), (float)((v >> 24) & 255), d); color_base* x = CC::convertTo(&b, TY[t]);
	chk(c->get_color_type() == TY[t], "type");
	for (int i = 0; i < NCOMP[t]; ++i) chk_near(C(c, i), C(x, i), 1e-6 * (HI[t][i] - LO[t][i]), "component");
	chk_near(c->alpha(), x->alpha(), 1e-6 * amax(t), "alpha");
	chk(c->get_rgb_color_space() == d, "space");
}
