#include "lib.h"
typedef matrix<float> mat;
static mat sym(const char* p, int r, int c, float lo, float hi)
{
	mat m(r, c);
	char b[2] = { 0, 0 };
	for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) { b[0] = (char)('a' + i * c + j); m(i, j) = sym_f32(nm(p, b), lo, hi); }
	return m;
}
static std::vector<float> flat(const mat& m)
{
	std::vector<float> v; std::vector<std::vector<float>> x = m.values();
	for (auto& r : x) for (float f : r) v.push_back(f);
	return v;
}
static void shape(const mat& m, int r, int c, const char* id)
{
	std::vector<std::vector<float>> x = m.values();
	bool ok = m.rows() == r && m.columns() == c && m.size() == r * c && (int)x.size() == r;
	for (auto& q : x) ok = ok && (int)q.size() == c;
	chk(ok, nm(id, ".shape"));
}
static void same(const mat& m, const std::vector<float>& v, const char* id)
{
	std::vector<float> w = flat(m);
	chk(w.size() == v.size(), nm(id, ".n"));
	for (size_t i = 0; i < v.size() && i < w.size(); ++i) chk_same(w[i], v[i], id);
}
// sum, difference, scalar operations, transpose for every shape up to 4x4
ENTRY(elementwise, 4)
{
	int r = shard + 1, c = sym_choice("c", 4) + 1;
	mat a = sym("a", r, c, -100, 100), b = sym("b", r, c, -100, 100);
	float s = sym_f32("s", -100, 100), q = sym_f32("q", 0.125f, 100);
	std::vector<float> A = flat(a), B = flat(b);
	mat p = a + b, d = a - b, ps = a + s, ds = a - s, ms = a * s, qs = a / q, t = a.transpose();
	shape(p, r, c, "add"); shape(d, r, c, "sub"); shape(ps, r, c, "adds"); shape(ds, r, c, "subs"); shape(ms, r, c, "muls"); shape(qs, r, c, "divs"); shape(t, c, r, "tr");
	for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j)
	{
		double x = A[i * c + j], y = B[i * c + j];
		chk_near(p(i, j), x + y, 1e-4, "add"); chk_near(d(i, j), x - y, 1e-4, "sub");
		chk_near(ps(i, j), x + s, 1e-4, "adds"); chk_near(ds(i, j), x - s, 1e-4, "subs");
		chk_near(ms(i, j), x * s, 1e-2, "muls"); chk_near(qs(i, j), x / q, 1e-3, "divs");
		chk_same(t(j, i), a(i, j), "tr");
	}
	// operands unmodified, compound forms agree
	same(a, A, "a_kept"); same(b, B, "b_kept");
	mat e = a; e += b; same(e, flat(p), "add_eq"); same(b, B, "b_kept2");
	mat f = a; f -= b; same(f, flat(d), "sub_eq"); same(a, A, "a_kept2");
	chk(&(e += b) == &e && &(f -= b) == &f, "ref");
	mat g = a; shape(g += g, r, c, "self"); for (int i = 0; i < r * c; ++i) chk_near(flat(g)[i], 2 * (double)A[i], 1e-4, "self");
}
ENTRY(product, 9)
{
	int r = shard / 3 + 1, k = shard % 3 + 1, c = sym_choice("c", 3) + 1;
	mat a = sym("a", r, k, -10, 10), b = sym("b", k, c, -10, 10);
	std::vector<float> A = flat(a), B = flat(b);
	mat p = a * b;
	shape(p, r, c, "mul");
	for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j)
	{
		double s = 0; for (int l = 0; l < k; ++l) s += (double)A[i * k + l] * B[l * c + j];
		chk_near(p(i, j), s, 1e-3, "mul");
	}
	same(a, A, "a_kept"); same(b, B, "b_kept");
	mat e = a; e *= b; same(e, flat(p), "mul_eq"); shape(e, r, c, "mul_eq"); same(b, B, "b_kept2");
	if (r == k && k == c) { mat z = a, y = a * a; z *= z; same(z, flat(y), "self"); }
	std::vector<float> v(k); for (int l = 0; l < k; ++l) v[l] = sym_f32(nm("v", CN[l]), -10, 10);
	std::vector<float> V = v, w = a * v;
	chk((int)w.size() == r, "vec.size");
	for (int i = 0; i < r && i < (int)w.size(); ++i)
	{
		double s = 0; for (int l = 0; l < k; ++l) s += (double)A[i * k + l] * v[l];
		chk_near(w[i], s, 1e-3, "vec");
	}
	for (int l = 0; l < k; ++l) chk_same(v[l], V[l], "v_kept");
	same(a, A, "a_kept2");
}
ENTRY(product4, 1)
{
	mat a = sym("a", 4, 4, -10, 10), b = sym("b", 4, 4, -10, 10), p = a * b;
	std::vector<float> A = flat(a), B = flat(b);
	for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j)
	{
		double s = 0; for (int l = 0; l < 4; ++l) s += (double)A[i * 4 + l] * B[l * 4 + j];
		chk_near(p(i, j), s, 1e-3, "mul");
	}
}
static double det2(double a, double b, double c, double d) { return a * d - b * c; }
// determinant (Leibniz) and cofactor of the n x n values v, n <= 4
static double minor_(const double* v, int n, const int* R, const int* K)	// determinant of the submatrix with rows R and columns K (n of each)
{
	if (n == 1) return v[R[0] * 4 + K[0]];
	if (n == 2) return det2(v[R[0] * 4 + K[0]], v[R[0] * 4 + K[1]], v[R[1] * 4 + K[0]], v[R[1] * 4 + K[1]]);
	double s = 0;
	for (int j = 0; j < n; ++j)
	{
		int q[3], l = 0; for (int i = 0; i < n; ++i) if (i != j) q[l++] = K[i];
		s += (j % 2 ? -1 : 1) * v[R[0] * 4 + K[j]] * minor_(v, n - 1, R + 1, q);
	}
	return s;
}
static double det(const double* v, int n) { int I[4] = { 0, 1, 2, 3 }; return minor_(v, n, I, I); }
static double cof(const double* v, int n, int i, int j)
{
	if (n == 1) return 1;
	int R[3], K[3], r = 0, k = 0;
	for (int l = 0; l < n; ++l) { if (l != i) R[r++] = l; if (l != j) K[k++] = l; }
	return ((i + j) % 2 ? -1 : 1) * minor_(v, n - 1, R, K);
}
static void linear_algebra(mat& m, int n, double tol, bool invertible, float least = 0.25f)
{
	double v[16]; std::vector<float> A = flat(m);
	for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) v[4 * i + j] = A[i * n + j];
	float d = m.determinante();
	same(m, A, "kept_det");
	chk_near(d, det(v, n), tol, "det");
	mat adj = m.adjoint(); shape(adj, n, n, "adj");
	same(m, A, "kept_adj");
	for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) chk_near(adj(j, i), cof(v, n, i, j), tol, "adj");
	if (!invertible) return;
	if (sym_choice("sign", 2)) sym_assume(d >= least); else sym_assume(d <= -least);
	mat inv = m.invert(); shape(inv, n, n, "inv");
	same(m, A, "kept_inv");
	for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) chk_near((double)inv(i, j) * d, adj(i, j), n > 2 ? 1e-2 : tol, "inv");
}
ENTRY(small, 4)
{
	int n = shard / 2 + 1;
	mat m = sym("m", n, n, -4, 4);
	linear_algebra(m, n, 1e-4, shard % 2);
}
// 3x3 with the sign pattern fixed in the first row and column (any order of the rows and columns)
static void pattern(mat& m, int n, int rot)
{
	static const float LOW[4] = { 1, -2, 3, -4 };
	for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j)
	{
		char b[3] = { (char)('0' + i), (char)('0' + j), 0 };
		float lo = -3, hi = 3;
		if (i == 0 || j == 0) { int k = (i + j + rot) % n; lo = LOW[k]; hi = lo + 1; }
		m(i, j) = sym_f32(nm("m", b), lo, hi);
	}
}
ENTRY(three, 6)
{
	mat m(3, 3); pattern(m, 3, shard / 2);
	linear_algebra(m, 3, 4e-4, shard % 2, 1);
}
ENTRY(four, 1)
{
	mat m(4, 4); pattern(m, 4, 0);
	double v[16]; for (int i = 0; i < 16; ++i) v[i] = m(i / 4, i % 4);
	chk_near(m.determinante(), det(v, 4), 1e-2, "det");
	mat adj = m.adjoint();
	for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) chk_near(adj(j, i), cof(v, 4, i, j), 1e-2, "adj");
}
// 4x4 with two rows or columns that agree in all but one place (or everywhere)
ENTRY(four_alike, 12)
{
	mat m(4, 4); pattern(m, 4, 0);
	int p = shard % 6, a = p < 3 ? 0 : p < 5 ? 1 : 2, b = p < 3 ? p + 1 : p < 5 ? p - 1 : 3, except = sym_choice("except", 5);
	for (int i = 0; i < 4; ++i) if (i != except) { if (shard < 6) m(i, b) = m(i, a); else m(b, i) = m(a, i); }
	double v[16]; for (int i = 0; i < 16; ++i) v[i] = m(i / 4, i % 4);
	chk_near(m.determinante(), det(v, 4), 1e-2, "det");
}
// structurally singular and sparse matrices
ENTRY(sparse, 7)
{
	mat m(3, 3); pattern(m, 3, 0);
	int k = sym_choice("k", 3);
	for (int i = 0; i < 3; ++i)
	{
		if (shard == 0) m(k, i) = 0;
		if (shard == 1) m(i, k) = 0;
		if (shard == 2) m((k + 1) % 3, i) = m(k, i);
		if (shard == 3) m(i, (k + 1) % 3) = m(i, k);
		if (shard == 4) for (int j = 0; j < 3; ++j) if (i != j) m(i, j) = 0;
		if (shard == 5) for (int j = 0; j < 3; ++j) if (j != (i + 1 + k % 2) % 3) m(i, j) = 0;
		if (shard == 6) for (int j = 0; j < i; ++j) m(i, j) = 0;
	}
	std::vector<float> A = flat(m);
	double v[16]; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) v[4 * i + j] = A[3 * i + j];
	chk_near(m.determinante(), det(v, 3), 4e-4, "det");
	mat adj = m.adjoint();
	for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) chk_near(adj(j, i), cof(v, 3, i, j), 4e-4, "adj");
	mat o = mat::create_idendity(k + 1), q = o.invert();
	for (int i = 0; i <= k; ++i) for (int j = 0; j <= k; ++j) { chk(o(i, j) == (i == j), "identity"); chk(q(i, j) == (i == j), "inv_identity"); }
}
// any index
ENTRY(access, 3)
{
	int r = shard + 1, c = sym_choice("c", 3) + 1;
	mat m = sym("m", r, c, -1000, 1000); std::vector<float> A = flat(m);
	int i = sym_int("i", -2147483647 - 1, 2147483647), j = sym_int("j", -2147483647 - 1, 2147483647);
	bool bad = i < 0 || i >= r || j < 0 || j >= c;
	float got = 0, got2 = 0;
	const mat& k = m;
	int t = throws([&]{ got = m(i, j); }), u = throws([&]{ got2 = k(i, j); });
	chk((t != 0) == bad, "throws"); chk((u != 0) == bad, "throws_const");
	if (!bad) { chk_same(got, A[i * c + j], "value"); chk_same(got2, A[i * c + j], "value_const"); m(i, j) = 7; A[i * c + j] = 7; }
	same(m, A, "others");
}
// incompatible shapes are rejected and leave the operands alone
ENTRY(shapes, 9)
{
	int r = shard / 3 + 1, c = shard % 3 + 1, r2 = sym_choice("r2", 4) + 1, c2 = sym_choice("c2", 4) + 1;
	mat a = sym("a", r, c, -10, 10), b = sym("b", r2, c2, -10, 10);
	std::vector<float> A = flat(a), B = flat(b);
	bool same_shape = r == r2 && c == c2;
	chk((throws([&]{ a + b; }) != 0) == !same_shape, "add"); chk((throws([&]{ a - b; }) != 0) == !same_shape, "sub");
	chk((throws([&]{ a * b; }) != 0) == (c != r2), "mul");
	std::vector<float> v(c2);
	chk((throws([&]{ a * v; }) != 0) == (c != c2), "vec");
	chk((throws([&]{ mat q = a; q += b; }) != 0) == !same_shape, "add_eq"); chk((throws([&]{ mat q = a; q -= b; }) != 0) == !same_shape, "sub_eq"); chk((throws([&]{ mat q = a; q *= b; }) != 0) == (c != r2), "mul_eq");
	same(a, A, "a_kept"); same(b, B, "b_kept");
	bool eq = same_shape; for (int i = 0; eq && i < r * c; ++i) eq = A[i] == B[i];
	chk((a == b) == eq, "equal");
}
// construction, assignment, filling, inserting and resizing
ENTRY(build, 9)
{
	int r = shard / 3 + 1, c = shard % 3 + 1, r2 = sym_choice("r2", 4), c2 = sym_choice("c2", 4);
	mat a = sym("a", r, c, -10, 10); std::vector<float> A = flat(a);
	float s = sym_f32("s", -10, 10);
	mat d(r, c, A), e(r, c, s), f(a), z(r, c), g;
	shape(d, r, c, "data"); same(d, A, "data"); shape(e, r, c, "init"); shape(z, r, c, "zero"); shape(g, 0, 0, "empty");
	for (int i = 0; i < r * c; ++i) { chk_same(flat(e)[i], s, "init"); chk_same(flat(z)[i], 0, "zero"); }
	same(f, A, "copy"); f(0, 0) = 50; same(a, A, "copy_indep");
	mat h(r2, c2, s); h = a; shape(h, r, c, "assign"); same(h, A, "assign"); h(0, 0) = 50; same(a, A, "assign_indep");
	if (r == c) { mat q(r), w(r, A); shape(q, r, r, "square"); same(w, A, "square"); }
	mat k = a; k = k; same(k, A, "self_assign");
	mat m = a; chk(&m.fill(s) == &m, "fill.ref"); for (float x : flat(m)) chk_same(x, s, "fill");
	mat n(r, c, s); std::vector<float> ins(A); n.insert(ins); same(n, A, "insert");
	mat p(r, c, s); std::vector<float> wrong(r * c + 1); p.insert(wrong); for (float x : flat(p)) chk_same(x, s, "insert_wrong");
	mat o = a; o.resize(r2, c2, s); shape(o, r2, c2, "resize");
	for (int i = 0; i < r2; ++i) for (int j = 0; j < c2; ++j) chk_same(o(i, j), i < r && j < c ? A[i * c + j] : s, "resize");
}
// the inverse of matrices with ever smaller determinants: (c B)^-1 = B^-1 / c
ENTRY(small_determinant, 9)
{
	static const float B2[4] = { 2, 1, 1, 3 }, I2[4] = { 3, -1, -1, 2 }, B3[9] = { 1, 2, 1, 0, 1, 3, 1, 1, -1 }, I3[9] = { -4, 3, 5, 3, -2, -3, -1, 1, 1 };
	static const float B4[16] = { 1, 2, 1, 1, 0, 1, 3, 2, 0, 0, 1, 1, 0, 0, 0, 1 }, I4[16] = { 1, -2, 5, -2, 0, 1, -3, 1, 0, 0, 1, -1, 0, 0, 0, 1 };
	int n = 2 + shard / 3; const float *b = n == 2 ? B2 : n == 3 ? B3 : B4, *e = n == 2 ? I2 : n == 3 ? I3 : I4; double det = n == 2 ? 5 : 1;
	float hi = 1; for (int i = 0; i < shard % 3; ++i) hi /= 10;
	float c = sym_f32("c", hi / 2, hi);
	std::vector<float> v; for (int i = 0; i < n * n; ++i) v.push_back(b[i] * c);
	mat m(n, n, v), inv = m.invert();
	shape(inv, n, n, "inv");
	for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) chk_near((double)inv(i, j) * c * det, e[i * n + j], 1e-3, "inv");
}
// a matrix that was used and then changed acts like a new one with the same entries
ENTRY(after_change, 18)
{
	static const float V[16] = { 2, 1, -1, 0.5f, 0, 3, 1, 1, 1, 0.25f, 4, -2, 1, 1, 0.5f, 3 };
	int n = 2 + shard / 6, how = shard % 6;
	std::vector<float> v; for (int i = 0; i < n * n; ++i) v.push_back(V[i / n * 4 + i % n]);
	mat m(n, n, v); std::vector<float> x(n, 0.5f);
	auto use = [&]() { m.determinante(); m.invert(); m.adjoint(); m.transpose(); m * m; m * x; m + m; };
	use();
	float s = sym_f32("s", 0.5f, 1), t = sym_f32("t", -1, -0.5f); int k = n - 1;
	switch (how) {
	case 0: m(0, 0) = s; m(k, 0) = t; break;
	case 1: { std::vector<float> w(v); w[0] = s; w[n + 1] = t; m.insert(w); break; }
	case 2: m.fill(0.25f); use(); for (int i = 0; i < n; ++i) m(i, i) = s; m(0, k) = t; break;
	case 3: m.resize(1, 1); m.resize(n, n, 0.125f); for (int i = 0; i < n; ++i) m(i, i) = s; m(k, 0) = t; break;
	case 4: { mat o(n, n, v); o(0, 1) = s; o(1, 1) = t; m = o; break; }
	default: { mat o(n, n, 0.f); o(0, 0) = s; o(0, k) = t; m += o; use(); m -= o; m(k, k) = s; } }
	mat f(n, n, flat(m)); std::vector<float> A = flat(m);
	chk_near(m.determinante(), f.determinante(), 1e-4, "det");
	same(m.adjoint(), flat(f.adjoint()), "adj"); same(m.transpose(), flat(f.transpose()), "tr"); same(m * m, flat(f * f), "mul"); same(m + m, flat(f + f), "add");
	std::vector<float> a = m * x, b = f * x; for (int i = 0; i < n; ++i) chk_near(a[i], b[i], 1e-5, "vec");
	same(m.invert(), flat(f.invert()), "inv"); same(m, A, "kept");
}
