// Type conversions, text to number, matrices, arithmetic helpers, spectra, radiometry.
#include "h.h"
#include <algorithm>
#include <string>

static size_t lim(Rng& R) { int k = (int)R.u(40); return k == 0 ? (R.u(50) == 0 ? 1200000 : 90000) : k < 6 ? 20000 : 2500; }

// ---- conversions of data types ---------------------------------------------------
static double lo_of(int t) { return t == 2 ? -32768.0 : t == 3 ? -2147483648.0 : 0; }
static double hi_of(int t) { return t == 1 ? 255 : t == 2 ? 32767 : t == 3 ? 2147483647.0 : t == 12 ? 65535 : 4294967295.0; }
static void refill_edges(Rng& R, float* p, size_t n, double lo, double hi)
{
	for (size_t q = 0; q < n; q++)
		switch (R.u(9)) {
		case 0: p[q] = (float)(R.range(-70, 70) + 0.5); break;
		case 1: p[q] = (float)((R.p(50) ? lo : hi) + R.range(-3, 3) * 0.5); break;
		case 2: p[q] = (float)R.range(-40000, 70000); break;
		case 3: { static const float e[] = {0.f, -0.f, 1e-30f, -1e-30f, 0.49999997f, -0.49999997f, 1e9f, -1e9f, 3e9f, 5e9f, -3e9f, 3e38f, -3e38f, 2147483520.f, 2147483648.f, 4294967040.f, 4294967296.f, 8388607.5f, 16777216.f, INFINITY, -INFINITY}; p[q] = R.pick(e); break; }
		case 4: p[q] = (float)R.real(lo * 1.5 - 10, hi * 1.5 + 10); break;
		case 5: p[q] = (float)(R.range((int)std::max(lo, -60000.0), (int)std::min(hi, 70000.0)) + 0.5); break;
		default: p[q] = (float)R.real(lo, hi);
		}
}
static double to_int(float v, int type)
{
	double lo = lo_of(type), hi = hi_of(type), r = nearbyint((double)v);
	return r < lo ? lo : r > hi ? hi : r;
}
static double elem(const void* p, int type, size_t q)
{
	switch (type) {
	case 1: return ((const unsigned char*)p)[q];
	case 2: return ((const short*)p)[q];
	case 3: return ((const int*)p)[q];
	case 4: return ((const float*)p)[q];
	case 12: return ((const unsigned short*)p)[q];
	default: return ((const unsigned*)p)[q];
	}
}
static hyper_mat conv(hyper_mat m, int from, int to)
{
	if (from == 1) return to == 2 ? hyper_mat_uchar2short(m) : to == 3 ? hyper_mat_uchar2int(m) : to == 4 ? hyper_mat_uchar2float(m) : hyper_mat_uchar2ushort(m);
	if (from == 12) return hyper_mat_ushort2float(m);
	if (to == 13) NEED(hyper_mat_float2uint);
	return to == 1 ? hyper_mat_float2uchar(m) : to == 2 ? hyper_mat_float2short(m) : to == 3 ? hyper_mat_float2int(m) : to == 12 ? hyper_mat_float2ushort(m) : hyper_mat_float2uint(m);
}
SC(convert_type, 900, 0)
{
	static const int P[10][2] = {{1, 2}, {1, 3}, {1, 4}, {1, 12}, {12, 4}, {4, 1}, {4, 2}, {4, 3}, {4, 12}, {4, 13}};
	int k = (int)R.u(10), from = P[k][0], to = P[k][1];
	Dim3 d = dim3(R, lim(R));
	const char* il = ILS[R.u(3)];
	size_t n = (size_t)d.S * d.L * d.B;
	hyper_mat m = in_hm(R, d, from, il, false);
	if (from == 4) refill_edges(R, F32(m), n, lo_of(to), hi_of(to));
	bool nowave = R.u(10) == 0;
	float* w = m->wavelength;
	if (nowave) m->wavelength = NULL;
	watch_hm(m, "hyper mat");
	desc("type %d to type %d samples=%d lines=%d bands=%d %s%s", from, to, d.S, d.L, d.B, il, nowave ? " no wavelengths" : "");
	sig(d.S); sig(d.L); sig(d.B); sig(k * 4 + il[2]);
	seen("type %d to %d", from, to);
	if (nowave) seen("source without wavelengths");
	hyper_mat r = own(conv(m, from, to));
	req_hm(r, d.S, d.L, d.B, to, il, "converted");
	for (size_t q = 0; q < n; q++) {
		double want = from == 4 ? to_int(F32(m)[q], to) : elem(m->data, from, q), got = elem(r->data, to, q);
		if (want != got) fail("value", "type %d to %d: element %zu, %.9g, becomes %.9g, not %.9g", from, to, q, elem(m->data, from, q), got, want);
		if (from == 4 && (want == hi_of(to) || want == lo_of(to))) { static thread_local int c; if (c++ % 64 == 0) seen("saturated to type %d", to); }
	}
	compared(n);
	if (!nowave) req_bytes(r->wavelength, w, d.B * sizeof(float), "wavelengths of the converted cube");
}
// signed bytes have no type of their own: they are stored as type 1
SC(float2char, 200, 0)
{
	Dim3 d = dim3(R, lim(R));
	const char* il = ILS[R.u(3)];
	size_t n = (size_t)d.S * d.L * d.B;
	hyper_mat m = in_hm(R, d, 4, il, false);
	refill_edges(R, F32(m), n, -128, 127);
	watch_hm(m, "hyper mat");
	desc("float to char samples=%d lines=%d bands=%d %s", d.S, d.L, d.B, il);
	sig(d.S); sig(d.L); sig(d.B); sig(il[2]);
	NEED(hyper_mat_float2char);
	hyper_mat r = own(hyper_mat_float2char(m));
	req_hm(r, d.S, d.L, d.B, 1, il, "converted");
	for (size_t q = 0; q < n; q++) {
		double v = nearbyint((double)F32(m)[q]), got = ((signed char*)r->data)[q];
		if (v > 127) v = 127;
		if (v < -127) { if (got != -127 && got != -128) fail("value", "float to char: element %zu, %.9g, becomes %.9g", q, F32(m)[q], got); }
		else if (got != v) fail("value", "float to char: element %zu, %.9g, becomes %.9g, not %.9g", q, F32(m)[q], got, v);
	}
	compared(n);
	req_bytes(r->wavelength, m->wavelength, d.B * sizeof(float), "wavelengths of the converted cube");
}
SC(sm_float2uchar, 400, 0)
{
	Dim2 d = dim2(R, lim(R));
	int ch = R.p(60) ? 1 : R.range(2, 4);
	size_t n = (size_t)d.r * d.c * ch;
	simple_mat m = in_sm(R, d, 4, ch, false);
	refill_edges(R, F32(m), n, 0, 255);
	watch_sm(m, "simple mat");
	desc("float to uchar %dx%d channels %d", d.r, d.c, ch);
	sig(d.r); sig(d.c); sig(ch);
	seen("channels %d", ch);
	simple_mat r = own(simple_mat_float2uchar(m));
	req_sm(r, d.r, d.c, 1, ch, "converted");
	for (size_t q = 0; q < n; q++)
		if (U8(r)[q] != to_int(F32(m)[q], 1)) fail("value", "float to uchar: element %zu, %.9g, becomes %d, not %g", q, F32(m)[q], U8(r)[q], to_int(F32(m)[q], 1));
	compared(n);
}
SC(atof_text, 4000, 0)
{
	std::string s, num;
	for (int q = R.p(20) ? R.range(1, 5) : 0; q > 0; q--) s += ' ';
	int sg = (int)R.u(4);
	if (sg < 2) num += sg ? '+' : '-';
	int a = R.p(10) ? 0 : R.p(80) ? R.range(1, 9) : R.range(1, 30), b = 0;
	if (R.p(15) && a) { num += std::string(R.range(1, 4), '0'); }
	for (int q = 0; q < a; q++) num += (char)('0' + R.u(10));
	bool dot = R.p(60);
	if (dot) { num += '.'; b = R.p(15) ? 0 : R.p(80) ? R.range(1, 9) : R.range(1, 30); for (int q = 0; q < b; q++) num += (char)(R.p(10) ? '0' : '0' + R.u(10)); }
	bool ex = a + b > 0 && R.p(45);
	int e = 0;
	if (ex) {
		num += R.p(50) ? 'e' : 'E';
		int es = (int)R.u(3);
		if (es) num += es == 1 ? '-' : '+';
		e = R.p(80) ? R.range(0, 12) : R.p(80) ? R.range(0, 45) : R.range(0, 300);
		if (R.p(10)) num += '0';
		num += std::to_string(e);
		if (es == 1) e = -e;
	}
	double want = a + b > 0 ? strtod(num.c_str(), NULL) : 0;
	s += num;
	bool junk = a + b > 0 && R.p(25);
	if (junk) { static const char* const J[] = {"x", " ", " 12", ",3", "abc", "\n", "\t5", "-1", "+2", "%", "nm", "_", ";7e2", "}"}; s += R.pick(J); }
	char* text = raw<char>(s.size() + 1);
	memcpy(text, s.c_str(), s.size() + 1);
	watch(text, s.size() + 1, "text");
	desc("\"%s\"", s.c_str());
	for (size_t q = 0; q < s.size(); q++) sig((unsigned char)s[q]);
	seen("%s%s%s", dot ? "dot" : "no dot", ex ? e < 0 ? ", negative exponent" : ", exponent" : "", junk ? ", text after it" : "");
	float got = hypercv_atof(text), w = (float)want;
	digest(&got, sizeof got);
	compared();
	if (got == w) return;
	// around the largest float the rounding of either may overflow
	if (fabs(want) > 3.402e38 && fabs(want) < 3.404e38) skip();
	if (!(fabs((double)got - want) <= 1e-5 * fabs(want) + 3e-45)) fail("value", "the number in \"%s\" is %.9g, not %.9g", s.c_str(), got, want);
}

// ---- matrices -------------------------------------------------------------------
static int mdim(Rng& R) { return R.p(70) ? R.range(1, 7) : R.p(80) ? R.range(1, 24) : R.u(12) ? R.range(1, 60) : R.range(60, 140); }

template <class T, class W> static void mul_int(Rng& R, void (*f)(T*, T*, T*, int, int, int), const char* name, W lo, W hi)
{
	int m = mdim(R), k = mdim(R), n = mdim(R);
	if (R.p(8)) { k = R.range(100, 2500); m = R.range(1, 4); n = R.range(1, 4); seen("long products"); }
	if (k > 60 && (T)-1 < 0 && sizeof(T) == 4) { lo = -900; hi = 900; }
	T* x = raw<T>(m * k); T* y = raw<T>(k * n); T* z = raw<T>(m * n);
	for (int q = 0; q < m * k; q++) x[q] = (T)(lo + (W)R.u((uint64_t)(hi - lo) + 1));
	for (int q = 0; q < k * n; q++) y[q] = (T)(lo + (W)R.u((uint64_t)(hi - lo) + 1));
	fill_bytes(R, z, m * n * sizeof(T));
	poison_uninit(z, m * n * sizeof(T));
	watch(x, m * k * sizeof(T), "left factor"); watch(y, k * n * sizeof(T), "right factor");
	desc("%s %dx%d times %dx%d", name, m, k, k, n);
	sig(m); sig(k); sig(n); sig(name[10] * 256 + name[11]);
	seen("%s", name);
	f(x, y, z, m, k, n);
	need_init(z, m * n * sizeof(T), "product");
	digest(z, m * n * sizeof(T));
	for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) {
		uint64_t s = 0;
		for (int q = 0; q < k; q++) s += (uint64_t)(int64_t)x[i * k + q] * (uint64_t)(int64_t)y[q * n + j];
		if (z[i * n + j] != (T)s) fail("value", "%s: row %d col %d of %dx%dx%d is %lld, not %lld", name, i, j, m, k, n, (long long)z[i * n + j], (long long)(T)s);
	}
	compared(m * n);
}
template <class T> static void mul_real(Rng& R, void (*f)(T*, T*, T*, int, int, int), const char* name, double eps)
{
	int m = mdim(R), k = mdim(R), n = mdim(R);
	if (R.p(8)) { k = R.range(100, 2500); m = R.range(1, 4); n = R.range(1, 4); seen("long products"); }
	T* x = raw<T>(m * k); T* y = raw<T>(k * n); T* z = raw<T>(m * n);
	double low = R.p(30) ? 0 : -100;
	for (int q = 0; q < m * k; q++) x[q] = (T)R.real(low, 100); spice(R, &x[0], m * k);
	for (int q = 0; q < k * n; q++) y[q] = (T)R.real(low, 100); spice(R, &y[0], k * n);
	fill_bytes(R, z, m * n * sizeof(T));
	poison_uninit(z, m * n * sizeof(T));
	watch(x, m * k * sizeof(T), "left factor"); watch(y, k * n * sizeof(T), "right factor");
	desc("%s %dx%d times %dx%d", name, m, k, k, n);
	sig(m); sig(k); sig(n); sig(name[10]);
	seen("%s", name);
	f(x, y, z, m, k, n);
	need_init(z, m * n * sizeof(T), "product");
	digest(z, m * n * sizeof(T));
	for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) {
		long double s = 0, a = 0;
		for (int q = 0; q < k; q++) { long double p = (long double)x[i * k + q] * y[q * n + j]; s += p; a += fabsl(p); }
		if (!(fabsl(z[i * n + j] - s) <= a * eps * (k + 2))) fail("value", "%s: row %d col %d of %dx%dx%d is %.12g, not %.12Lg", name, i, j, m, k, n, (double)z[i * n + j], s);
	}
	compared(m * n);
}
SC(mat_mul, 1600, 0)
{
	switch (R.u(8)) {
	case 0: mul_int<char, int>(R, MulMatrix_char, "MulMatrix_char", -128, 127); break;
	case 1: mul_int<unsigned char, int>(R, MulMatrix_uchar, "MulMatrix_uchar", 0, 255); break;
	case 2: mul_int<short, int>(R, MulMatrix_short, "MulMatrix_short", -32768, 32767); break;
	case 3: mul_int<unsigned short, int>(R, MulMatrix_ushort, "MulMatrix_ushort", 0, 30000); break;
	case 4: mul_int<int, int>(R, MulMatrix_int, "MulMatrix_int", -5900, 5900); break;
	case 5: mul_int<unsigned, uint64_t>(R, MulMatrix_uint, "MulMatrix_uint", 0, 4294967295ULL); break;
	case 6: mul_real<float>(R, MulMatrix_float, "MulMatrix_float", 1.2e-7); break;
	default: mul_real<double>(R, MulMatrix_double, "MulMatrix_double", 2.3e-16);
	}
}
template <class T> static void trans(Rng& R, void (*f)(T*, T*, int, int), const char* name)
{
	Dim2 d = dim2(R, 4000);
	size_t n = (size_t)d.r * d.c;
	T* x = raw<T>(n); T* z = raw<T>(n);
	fill_bytes(R, x, n * sizeof(T)); fill_bytes(R, z, n * sizeof(T));
	poison_uninit(z, n * sizeof(T));
	watch(x, n * sizeof(T), "matrix");
	desc("%s %dx%d", name, d.r, d.c);
	sig(d.r); sig(d.c); sig(name[12] * 256 + name[13]);
	seen("%s", name);
	f(x, z, d.r, d.c);
	need_init(z, n * sizeof(T), "transpose");
	digest(z, n * sizeof(T));
	for (int i = 0; i < d.r; i++) for (int j = 0; j < d.c; j++)
		if (memcmp(&z[(size_t)j * d.r + i], &x[(size_t)i * d.c + j], sizeof(T)) != 0) fail("value", "%s: row %d col %d of %dx%d is misplaced", name, i, j, d.r, d.c);
	compared(n);
}
SC(mat_trans, 1000, 0)
{
	switch (R.u(8)) {
	case 0: trans<double>(R, TransMatrix_double, "TransMatrix_double"); break;
	case 1: trans<short>(R, TransMatrix_short, "TransMatrix_short"); break;
	case 2: trans<char>(R, TransMatrix_char, "TransMatrix_char"); break;
	case 3: trans<unsigned short>(R, TransMatrix_ushort, "TransMatrix_ushort"); break;
	case 4: trans<unsigned char>(R, TransMatrix_uchar, "TransMatrix_uchar"); break;
	case 5: trans<int>(R, TransMatrix_int, "TransMatrix_int"); break;
	case 6: trans<float>(R, TransMatrix_float, "TransMatrix_float"); break;
	default: trans<unsigned>(R, TransMatrix_uint, "TransMatrix_uint");
	}
}
template <class T> static void corr(Rng& R, void (*f)(T*, T*, T*, int, int, int), const char* name, double lo, double hi)
{
	int l = mdim(R), n = mdim(R), m = mdim(R);
	if (R.p(12)) { n = R.range(300, 6000); l = R.range(1, 4); m = R.range(1, 4); seen("long correlations"); }
	// values small enough for the products not to leave the type
	double top = sqrt(hi / n);
	double bot = lo < 0 ? -top : 0;
	if (top < 1) n = (int)hi;
	bool real = (T)0.5 != 0;
	T* a = raw<T>(l * n); T* b = raw<T>(n * m); T* z = raw<T>(l * m);
	double low = R.p(30) ? 0 : -100;      // a sum of one sign shows what is lost
	for (int q = 0; q < l * n; q++) a[q] = real ? (T)R.real(low, 100) : (T)(long)R.real(bot, top);
	for (int q = 0; q < n * m; q++) b[q] = real ? (T)R.real(low, 100) : (T)(long)R.real(bot, top);
	fill_bytes(R, z, l * m * sizeof(T));
	poison_uninit(z, l * m * sizeof(T));
	watch(a, l * n * sizeof(T), "left factor"); watch(b, n * m * sizeof(T), "right factor");
	desc("%s %dx%d times %dx%d", name, l, n, n, m);
	sig(l); sig(n); sig(m); sig(name[19] * 256 + name[20]);
	seen("%s", name);
	f(z, a, b, l, n, m);
	need_init(z, l * m * sizeof(T), "correlation");
	digest(z, l * m * sizeof(T));
	for (int i = 0; i < l; i++) for (int j = 0; j < m; j++) {
		if (real) {
			long double s = 0, t = 0;
			for (int q = 0; q < n; q++) { long double p = (long double)a[i * n + q] * b[q * m + j]; s += p; t += fabsl(p); }
			if (!(fabsl((long double)z[i * m + j] - s / n) <= t / n * 1.2e-7 * (n + 4))) fail("value", "%s: row %d col %d of %dx%dx%d is %g, not %Lg", name, i, j, l, n, m, (double)z[i * m + j], s / n);
		} else {
			int64_t s = 0;
			for (int q = 0; q < n; q++) s += (int64_t)a[i * n + q] * (int64_t)b[q * m + j];
			if ((int64_t)z[i * m + j] != s / n) fail("value", "%s: row %d col %d of %dx%dx%d is %lld, not %lld", name, i, j, l, n, m, (long long)z[i * m + j], (long long)(s / n));
		}
	}
	compared(l * m);
}
SC(mat_corr, 1000, 0)
{
	switch (R.u(7)) {
	case 0: corr<unsigned char>(R, correlation_matrix_uchar, "correlation_matrix_uchar", 0, 255); break;
	case 1: corr<char>(R, correlation_matrix_char, "correlation_matrix_char", -1, 127); break;
	case 2: corr<short>(R, correlation_matrix_short, "correlation_matrix_short", -1, 32767); break;
	case 3: corr<unsigned short>(R, correlation_matrix_ushort, "correlation_matrix_ushort", 0, 65535); break;
	case 4: corr<int>(R, correlation_matrix_int, "correlation_matrix_int", -1, 2147483000.0); break;
	case 5: corr<unsigned>(R, correlation_matrix_uint, "correlation_matrix_uint", 0, 2147483000.0); break;
	default: corr<float>(R, correlation_matrix_float, "correlation_matrix_float", -1, 1e9);
	}
}
SC(mat_rows, 800, 0)
{
	int m = mdim(R), n = mdim(R), op = (int)R.u(5);
	if (m == 1 && (op == 0 || op == 2)) m = R.range(2, 6);
	if (op == 3) n = m;
	NEED(op != 1 || matrix_row_multi_scalar_float);
	NEED(op != 2 || shear_row);
	float* x = raw<float>(m * n);
	for (int q = 0; q < m * n; q++) x[q] = (float)R.real(-100, 100); spice(R, &x[0], m * n);
	int a = (int)R.u(m), b = (int)R.u(m);
	while (b == a && (op == 0 || op == 2)) b = (int)R.u(m);
	float s = R.u(6) == 0 ? 0 : (float)R.real(-3, 3);
	std::vector<float> w(x, x + m * n);
	std::vector<double> tol(m * n, 0);
	desc("row operation %d on %dx%d rows %d %d scalar %g", op, m, n, a, b, s);
	sig(m); sig(n); sig(op); sig(a); sig(b);
	seen("row operation %d", op);
	compared(m * n);
	if (op == 0) { swap_rows_float(x, m, n, a, b); for (int q = 0; q < n; q++) std::swap(w[a * n + q], w[b * n + q]); }
	else if (op == 1) { matrix_row_multi_scalar_float(x, m, n, a, s); for (int q = 0; q < n; q++) { w[a * n + q] *= s; tol[a * n + q] = 1e-6 * fabs(w[a * n + q]); } }
	else if (op == 2) { shear_row(x, m, n, a, b, s); for (int q = 0; q < n; q++) { tol[a * n + q] = 1e-6 * (fabs(w[a * n + q]) + fabs(s * w[b * n + q])); w[a * n + q] += s * w[b * n + q]; } }
	else if (op == 3) { poison_uninit(x, m * m * sizeof(float)); set_identity_matrix_float(x, m); need_init(x, m * m * sizeof(float), "identity"); for (int i = 0; i < m; i++) for (int j = 0; j < m; j++) w[i * m + j] = i == j; }
	else {
		watch(x, m * n * sizeof(float), "matrix");
		float g = matrix_norm_float(x, m * n);
		double t = 0;
		for (int q = 0; q < m * n; q++) t += (double)x[q] * x[q];
		digest(&g, sizeof g);
		REQ(fabs(g - sqrt(t)) <= sqrt(t) * (m * n + 4) * 6e-8, "the norm of %d values is %g, not %g", m * n, g, sqrt(t));
	}
	digest(x, m * n * sizeof(float));
	for (int q = 0; q < m * n; q++)
		if (!(fabs((double)x[q] - w[q]) <= tol[q])) fail("value", "row operation %d on rows %d, %d: row %d col %d is %g, not %g", op, a, b, q / n, q % n, x[q], w[q]);
}

// inverse of a in double with full pivoting of rows; false when singular
static bool inverse(std::vector<double> a, std::vector<double>& v, int m)
{
	v.assign(m * m, 0);
	for (int i = 0; i < m; i++) v[i * m + i] = 1;
	for (int i = 0; i < m; i++) {
		int p = i;
		for (int r = i + 1; r < m; r++) if (fabs(a[r * m + i]) > fabs(a[p * m + i])) p = r;
		if (fabs(a[p * m + i]) < 1e-12) return false;
		for (int c = 0; c < m; c++) { std::swap(a[i * m + c], a[p * m + c]); std::swap(v[i * m + c], v[p * m + c]); }
		double s = 1 / a[i * m + i];
		for (int c = 0; c < m; c++) { a[i * m + c] *= s; v[i * m + c] *= s; }
		for (int r = 0; r < m; r++) if (r != i) {
			double t = a[r * m + i];
			if (t != 0) for (int c = 0; c < m; c++) { a[r * m + c] -= t * a[i * m + c]; v[r * m + c] -= t * v[i * m + c]; }
		}
	}
	return true;
}
static double norm_inf(const std::vector<double>& a, int m)
{
	double t = 0;
	for (int i = 0; i < m; i++) { double s = 0; for (int j = 0; j < m; j++) s += fabs(a[i * m + j]); t = std::max(t, s); }
	return t;
}
SC(mat_invert, 1200, 0)
{
	int m = R.p(60) ? R.range(1, 6) : R.u(12) ? R.range(1, 24) : R.range(24, 80), kind = (int)R.u(6);
	float* x = raw<float>(m * m); float* z = raw<float>(m * m);
	for (int q = 0; q < m * m; q++) x[q] = (float)R.real(-1, 1);
	if (kind == 1) {                                     // a permutation with scales: every diagonal may be zero
		std::vector<int> p(m);
		for (int i = 0; i < m; i++) p[i] = i;
		for (int i = m - 1; i > 0; i--) std::swap(p[i], p[R.u(i + 1)]);
		for (int i = 0; i < m; i++) for (int j = 0; j < m; j++) x[i * m + j] = p[i] == j ? (float)R.real(0.5, 4) * (R.p(50) ? 1 : -1) : 0;
	} else if (kind == 2) for (int i = 0; i < m; i++) x[i * m + i] += (float)(m * (R.p(50) ? 1 : -1));
	else if (kind == 3) for (int i = 0; i < m; i++) x[i * m + i] = 0;
	else if (kind == 4) for (int q = 0; q < m * m; q++) x[q] = (float)R.range(-3, 3);
	else if (kind == 5) for (int i = 0; i < m; i++) for (int j = 0; j < i; j++) x[i * m + j] = R.p(50) ? 0 : x[i * m + j];
	double scale = R.pick((const double[]){1, 1, 100, 1e-3, 1e4});
	for (int q = 0; q < m * m; q++) x[q] = (float)(x[q] * scale);
	fill_bytes(R, z, m * m * sizeof(float));
	poison_uninit(z, m * m * sizeof(float));
	watch(x, m * m * sizeof(float), "matrix");
	std::vector<double> a(x, x + m * m), v;
	desc("inverse of %dx%d kind %d scale %g", m, m, kind, scale);
	sig(m); sig(kind); for (int q = 0; q < m * m && q < 4; q++) { uint32_t t; memcpy(&t, &x[q], 4); sig(t); }
	for (int q = 0; q < m * m; q++) a[q] /= scale;
	bool ok = inverse(a, v, m);
	for (int q = 0; q < m * m && ok; q++) v[q] /= scale;
	for (int q = 0; q < m * m; q++) a[q] *= scale;
	double cond = ok ? norm_inf(a, m) * norm_inf(v, m) : 1e30;
	if (cond > 1e4) skip();
	seen("matrix kind %d", kind);
	invert_matrix_float(z, x, m);
	need_init(z, m * m * sizeof(float), "inverse");
	digest(z, m * m * sizeof(float));
	double tol = cond * norm_inf(v, m) * 1.2e-7 * (8 * m + 8);
	for (int q = 0; q < m * m; q++)
		if (!(fabs(z[q] - v[q]) <= tol)) fail("value", "the inverse of %dx%d: row %d col %d is %g, not %g", m, m, q / m, q % m, z[q], v[q]);
	compared(m * m);
}
SC(mat_qr, 900, 0)
{
	int m = R.p(60) ? R.range(1, 6) : R.u(12) ? R.range(1, 30) : R.range(30, 80), kind = (int)R.u(4);
	float* x = raw<float>(m * m); float* q = raw<float>(m * m); float* r = raw<float>(m * m);
	double scale = R.pick((const double[]){1, 100, 1e-2});
	for (int i = 0; i < m; i++) for (int j = 0; j < m; j++) x[i * m + j] = (float)(scale * (R.real(-1, 1) + (i == j && kind ? (kind == 1 ? 3 : m) : 0)));
	// columns that depend on others or hold nothing: the factors have to stay finite and give the matrix back
	if (kind == 3) for (int n = R.range(1, 2); n > 0; n--) {
		int j = (int)R.u(m), from = (int)R.u(m);
		float f = from < j && R.p(40) ? R.pick((const float[]){1, -1, 0.5f, 2}) : 0;
		for (int i = 0; i < m; i++) x[i * m + j] = f * x[i * m + from];
	}
	watch(x, m * m * sizeof(float), "matrix");
	fill_bytes(R, q, m * m * 4); poison_uninit(q, m * m * 4);
	fill_bytes(R, r, m * m * 4); poison_uninit(r, m * m * 4);
	std::vector<double> a(x, x + m * m), v;
	for (int i = 0; i < m * m; i++) a[i] /= scale;
	bool ok = inverse(a, v, m);
	double cond = ok ? norm_inf(a, m) * norm_inf(v, m) : 1e30;
	desc("QR of %dx%d scale %g", m, m, scale);
	sig(m); sig(kind); { uint32_t t; memcpy(&t, x, 4); sig(t); }
	if (cond > 1e3 && kind != 3) skip();
	seen("QR kind %d", kind);
	matrix_QR_float(x, q, r, m);
	need_init(q, m * m * 4, "Q"); need_init(r, m * m * 4, "R");
	digest(q, m * m * 4); digest(r, m * m * 4);
	double big = 0;
	for (int i = 0; i < m * m; i++) big = std::max(big, fabs((double)x[i]));
	for (int i = 0; i < m; i++) for (int j = 0; j < m; j++) {
		double s = 0, t = 0;
		for (int k = 0; k < m; k++) { s += (double)q[i * m + k] * r[k * m + j]; t += (double)q[k * m + i] * q[k * m + j]; }
		if (!(fabs(s - x[i * m + j]) <= big * m * 2e-6)) fail("value", "QR of %dx%d: (QR)[%d,%d] is %g, not %g", m, m, i, j, s, x[i * m + j]);
		if (kind != 3 && !(fabs(t - (i == j)) <= 1e-6 * m + cond * 3e-6)) fail("value", "QR of %dx%d: columns %d and %d of Q have product %g", m, m, i, j, t);
		if (i > j && r[i * m + j] != 0) fail("value", "QR of %dx%d: R[%d,%d] below the diagonal is %g", m, m, i, j, r[i * m + j]);
		if (i == j && !(r[i * m + j] >= 0)) fail("value", "QR of %dx%d: R[%d,%d] is %g", m, m, i, j, r[i * m + j]);
	}
	compared(3 * m * m);
}
SC(mat_eigen, 700, 0)
{
	int m = R.p(70) ? R.range(1, 5) : R.range(1, 12);
	// A = Q D Q' with well separated eigenvalues
	std::vector<double> Q(m * m), D(m);
	for (int i = 0; i < m * m; i++) Q[i] = R.real(-1, 1);
	for (int j = 0; j < m; j++) {
		for (int rep = 0; rep < 2; rep++)
			for (int k = 0; k < j; k++) { double s = 0; for (int i = 0; i < m; i++) s += Q[i * m + j] * Q[i * m + k]; for (int i = 0; i < m; i++) Q[i * m + j] -= s * Q[i * m + k]; }
		double s = 0;
		for (int i = 0; i < m; i++) s += Q[i * m + j] * Q[i * m + j];
		s = sqrt(s);
		if (s < 0.05) skip();
		for (int i = 0; i < m; i++) Q[i * m + j] /= s;
	}
	double v = R.real(0.5, 2);
	for (int j = m - 1; j >= 0; j--) { D[j] = v; v += R.real(1, 3); }
	float* a = raw<float>(m * m); float* vec = raw<float>(m * m); float* val = raw<float>(m);
	for (int i = 0; i < m; i++) for (int j = 0; j < m; j++) { double s = 0; for (int k = 0; k < m; k++) s += Q[i * m + k] * D[k] * Q[j * m + k]; a[i * m + j] = (float)s; }
	for (int j = 0; j < m; j++) val[j] = (float)D[j];
	// elimination without a choice of pivots loses digits when a pivot is small: such a matrix says nothing
	for (int c = 0; c < m; c++) {
		std::vector<double> t(m * m);
		for (int i = 0; i < m * m; i++) t[i] = a[i];
		for (int i = 0; i < m; i++) t[i * m + i] -= D[c];
		for (int i = 0; i < m - 1; i++) {
			if (fabs(t[i * m + i]) < 0.05) skip();
			for (int k = i + 1; k < m; k++) { double f = t[k * m + i] / t[i * m + i]; for (int j = i; j < m; j++) t[k * m + j] -= f * t[i * m + j]; }
			for (int k = i + 1; k < m; k++) for (int j = i + 1; j < m; j++) if (fabs(t[k * m + j]) > 100) skip();
		}
		if (fabs(Q[(m - 1) * m + c]) < 0.02) skip();
	}
	watch(a, m * m * 4, "matrix"); watch(val, m * 4, "eigenvalues");
	fill_bytes(R, vec, m * m * 4); poison_uninit(vec, m * m * 4);
	desc("eigenvectors of %dx%d", m, m);
	sig(m); { uint32_t t; memcpy(&t, a, 4); sig(t); }
	seen("size %d", m);
	cal_eigen_vector_float(a, vec, val, m, m);
	need_init(vec, m * m * 4, "eigenvectors");
	digest(vec, m * m * 4);
	for (int c = 0; c < m; c++) {
		double n = 0;
		for (int i = 0; i < m; i++) n += (double)vec[i * m + c] * vec[i * m + c];
		REQ(fabs(n - 1) <= 1e-4, "eigenvector %d of %dx%d has length %g", c, m, m, sqrt(n));
		for (int i = 0; i < m; i++) {
			double s = 0;
			for (int k = 0; k < m; k++) s += (double)a[i * m + k] * vec[k * m + c];
			if (!(fabs(s - D[c] * vec[i * m + c]) <= 0.03 * D[0])) fail("value", "eigenvector %d of %dx%d: A v and lambda v differ by %g in component %d", c, m, m, s - D[c] * vec[i * m + c], i);
		}
		double dot = 0;
		for (int i = 0; i < m; i++) dot += Q[i * m + c] * vec[i * m + c];
		REQ(fabs(fabs(dot) - 1) <= 5e-3, "eigenvector %d of %dx%d is off by the cosine %g", c, m, m, dot);
	}
	compared(m * m);
}

// ---- means, sorting, arithmetic ---------------------------------------------------
template <class T> static T* values(Rng& R, int n, const char* name)
{
	T* x = raw<T>(n);
	fill_bytes(R, x, n * sizeof(T));
	if (R.p(30)) for (int q = 0; q < n; q++) x[q] = (T)R.range(0, 9);
	watch(x, n * sizeof(T), "values");
	sig(n); sig(name[5] * 256 + name[6]);
	desc("%s of %d values", name, n);
	seen("%s", name);
	compared();
	return x;
}
static void chk_mean(double g, long double s, long double a, int n, double eps, const char* name)
{
	digest(&g, sizeof g);
	REQ(fabsl(g - s / n) <= fabsl(s / n) * eps + a / n * 1e-11L, "%s of %d values is %.9g, not %.9Lg", name, n, g, s / n);
}
#define MEAN(T, f) { T* x = values<T>(R, n, #f); long double s = 0, a = 0; for (int q = 0; q < n; q++) { s += x[q]; a += fabsl((long double)x[q]); } chk_mean(f(x, n), s, a, n, 1.3e-7, #f); }
SC(means, 1200, 0)
{
	int n = R.u(200) == 0 ? R.range(65000, 200000) : dim1(R, R.u(20) == 0 ? 60000 : 600);
	switch (R.u(8)) {
	case 0: MEAN(unsigned, mean_uint) break;
	case 1: MEAN(short, mean_short) break;
	case 2: MEAN(unsigned short, mean_ushort) break;
	case 3: MEAN(unsigned char, mean_uchar) break;
	case 4: MEAN(char, mean_char) break;
	case 5: MEAN(int, mean_int) break;
	case 6: {
		float* x = raw<float>(n);
		fill_f32(R, x, n, -1000, 1000);
		watch(x, n * sizeof(float), "values");
		desc("mean_float of %d values", n); sig(n); seen("mean_float");
		long double s = 0, a = 0;
		for (int q = 0; q < n; q++) { s += x[q]; a += fabsl((long double)x[q]); }
		chk_mean(mean_float(x, n), s, a, n, 1.3e-7, "mean_float");
		compared();
		break; }
	default: {
		double* x = raw<double>(n);
		for (int q = 0; q < n; q++) x[q] = R.real(-1000, 1000);
		spice(R, x, n);
		watch(x, n * sizeof(double), "values");
		desc("mean_double of %d values", n); sig(n); seen("mean_double");
		long double s = 0, a = 0;
		for (int q = 0; q < n; q++) { s += x[q]; a += fabsl((long double)x[q]); }
		chk_mean(mean_double(x, n), s, a, n, 1e-13, "mean_double");
		compared(); }
	}
}
SC(sort_down, 800, 0)
{
	int n = R.u(30) == 0 ? 0 : R.u(100) == 0 ? R.range(700, 5000) : dim1(R, 700), kind = (int)R.u(6);
	float* x = raw<float>(n);
	for (int q = 0; q < n; q++) x[q] = kind == 0 ? (float)R.range(-3, 3) : kind == 1 ? (float)q : kind == 2 ? (float)-q : kind == 3 ? (R.p(10) ? (R.p(50) ? INFINITY : -INFINITY) : (float)R.real(-1, 1)) : (float)R.real(-1e6, 1e6);
	if (kind == 4) { std::sort(x, x + n, [](float a, float b) { return a > b; }); if (n > 1) std::swap(x[R.u(n)], x[R.u(n)]); }
	std::vector<float> w(x, x + n);
	std::sort(w.begin(), w.end(), [](float a, float b) { return a > b; });
	desc("sort %d values, kind %d", n, kind);
	sig(n); sig(kind);
	seen("kind %d", kind);
	sort_array_down_float(x, n);
	digest(x, n * sizeof(float));
	for (int q = 0; q < n; q++) if (x[q] != w[q]) fail("value", "sort of %d values: place %d holds %g, not %g", n, q, x[q], w[q]);
	compared(n);
}
SC(factorial, 60, 0)
{
	int n = R.range(-5, 20);
	if (R.u(10) == 0) n = -R.range(1, 2147483647);
	long want = n < 0 ? -1 : 1;
	for (int i = 2; i <= n; i++) want *= i;
	desc("factorial of %d", n);
	sig(n);
	NEED(hypercv_factorial);
	long g = hypercv_factorial(n);
	digest(&g, sizeof g);
	REQ(g == want, "the factorial of %d is %ld, not %ld", n, g, want);
	compared();
}
SC(sp_stats, 700, 0)
{
	int n = R.u(60) ? dim1(R, 3000) : R.range(3000, 100000);
	double off = R.pick((const double[]){0, 0, 1, 100}), sc = R.pick((const double[]){1, 10, 0.1});
	float* x = raw<float>(n); float* y = raw<float>(n);
	for (int q = 0; q < n; q++) { x[q] = (float)(off + R.real(-sc, sc)); y[q] = (float)(off + R.real(-sc, sc)); }
	if (off == 0) { spice(R, x, n); spice(R, y, n); }
	watch(x, n * 4, "values"); watch(y, n * 4, "values");
	desc("average, variance, distance of %d values around %g", n, off);
	sig(n); sig((uint64_t)(off * 10 + sc * 7));
	seen("offset %g", off);
	double s = 0, a = 0, v = 0, e = 0;
	for (int q = 0; q < n; q++) { s += x[q]; a += fabs(x[q]); e += ((double)x[q] - y[q]) * ((double)x[q] - y[q]); }
	for (int q = 0; q < n; q++) v += (x[q] - s / n) * (x[q] - s / n);
	v /= n;
	double ea = (a / n) * (n + 4) * 6e-8;                    // the sum is a float
	NEED(sp_average && sp_variance && sp_standard_deviation);
	float g1 = sp_average(x, n), g2 = sp_variance(x, n), g3 = sp_standard_deviation(x, n), g4 = euclidean_distance(x, y, n);
	float g[4] = {g1, g2, g3, g4};
	digest(g, sizeof g);
	REQ(fabs(g1 - s / n) <= ea, "the average of %d values is %g, not %g", n, g1, s / n);
	double ev = v * (n + 8) * 1.2e-7 + ea * ea + 2 * ea * 1e-7 * (fabs(s / n) + sc) + 1e-6 * sqrt(v) * off * 1.2e-1 + 1e-14 * off * off;
	REQ(fabs(g2 - v) <= ev, "the variance of %d values is %g, not %g", n, g2, v);
	REQ(fabs((double)g3 * g3 - v) <= ev + 3e-7 * v, "the standard deviation of %d values is %g, not %g", n, g3, sqrt(v));
	REQ(fabs(g4 - sqrt(e)) <= sqrt(e) * (n + 8) * 1.2e-7 + 1e-6 * off, "the distance of %d values is %g, not %g", n, g4, sqrt(e));
	compared(4);
}

// ---- spectra --------------------------------------------------------------------
static double cosine(const float* x, const float* y, int n)
{
	double xy = 0, xx = 0, yy = 0;
	for (int q = 0; q < n; q++) { xy += fabs((double)x[q] * y[q]); xx += (double)x[q] * x[q]; yy += (double)y[q] * y[q]; }
	double c = xy / sqrt(xx * yy);
	return c > 1 ? 1 : c;
}
static void spectrum(Rng& R, float* x, int n, const float* like)
{
	if (like && R.p(50)) {
		double k = R.real(0.2, 5), e = R.p(40) ? 0 : R.real(0, 0.5);
		for (int q = 0; q < n; q++) x[q] = (float)(like[q] * k * (1 + R.real(-e, e)));
	} else for (int q = 0; q < n; q++) x[q] = (float)(R.p(10) ? 0 : R.real(-0.2, 1) * 100);
	spice(R, x, n);
	x[R.u(n)] = (float)R.real(1, 100);
}
// the unit of a spectrum does not matter
static float unit(Rng& R) { return R.p(80) ? 1.f : (float)pow(10., R.range(-14, 14)); }
SC(sam_angle, 900, 0)
{
	int n = dim1(R, 600);
	float* x = raw<float>(n); float* y = raw<float>(n);
	spectrum(R, x, n, NULL); spectrum(R, y, n, x);
	int kind = (int)R.u(5);
	if (kind == 0) memcpy(y, x, n * 4);
	if (kind == 1 && n > 1) { for (int q = 0; q < n; q++) if (q & 1) x[q] = 0; else y[q] = 0; x[0] = 3; y[1] = 4; }
	float ux = unit(R), uy = unit(R);
	for (int q = 0; q < n; q++) { x[q] *= ux; y[q] *= uy; }
	watch(x, n * 4, "spectrum"); watch(y, n * 4, "spectrum");
	desc("spectral angle of %d bands, kind %d, scales %g %g", n, kind, ux, uy);
	sig(n); sig(kind); { uint32_t t; memcpy(&t, y, 4); sig(t); }
	seen("%s", kind == 0 ? "equal spectra" : kind == 1 ? "orthogonal spectra" : "spectra");
	float g = spectral_angle_mapper(x, y, n);
	digest(&g, sizeof g);
	double c = cosine(x, y, n), tol = (n + 10) * 1.2e-7;
	REQ(g >= 0 && g <= 1.5707964f && fabs(cos((double)g) - c) <= tol, "the spectral angle of %d bands is %g, not %g", n, g, acos(c));
	compared();
}
SC(sam_match, 500, 0)
{
	Dim3 d = dim3(R, lim(R));
	hyper_mat m = in_hm(R, d, 4, "bip", false);
	float* sp = raw<float>(d.B);
	spectrum(R, sp, d.B, NULL);
	for (int q = 0; q < d.S * d.L; q++) spectrum(R, F32(m) + (size_t)q * d.B, d.B, sp);
	float ux = unit(R), uy = unit(R);
	for (size_t q = 0; q < (size_t)d.S * d.L * d.B; q++) F32(m)[q] *= ux;
	for (int q = 0; q < d.B; q++) sp[q] *= uy;
	float th = R.u(8) == 0 ? 0 : R.u(8) == 0 ? 2 : (float)R.real(0, 1);
	watch_hm(m, "hyper mat"); watch(sp, d.B * 4, "spectrum");
	desc("SAM match samples=%d lines=%d bands=%d threshold %g", d.S, d.L, d.B, th);
	sig(d.S); sig(d.L); sig(d.B); sig((uint64_t)(th * 1e6));
	simple_mat r = own(spectrum_SAM_match(m, sp, th));
	req_sm(r, d.L, d.S, 1, 1, "SAM match");
	double tol = (d.B + 10) * 1.2e-7;
	uint64_t hits = 0;
	for (int q = 0; q < d.S * d.L; q++) {
		double c = cosine(F32(m) + (size_t)q * d.B, sp, d.B);
		double ct = th >= M_PI ? -1 : cos((double)th);
		int g = U8(r)[q];
		REQ(g == 0 || g == 1, "SAM match: pixel %d is %d", q, g);
		if (fabs(c - ct) <= tol) continue;
		compared();
		if (g != (c > ct)) fail("value", "SAM match: pixel %d of %dx%d at angle %g, threshold %g, is %d", q, d.S, d.L, acos(c), th, g);
		hits += g;
	}
	if (hits) seen("pixels matched");
	if (hits < (uint64_t)d.S * d.L) seen("pixels not matched");
}
SC(hm_mean, 400, 0)
{
	Dim3 d = dim3(R, lim(R));
	hyper_mat m = in_hm_f32(R, d, "bip", -100, 100);
	Dim2 o = {d.L, d.S};
	simple_mat z = out_sm(R, o, 4, 1);
	desc("mean over the bands of samples=%d lines=%d bands=%d", d.S, d.L, d.B);
	sig(d.S); sig(d.L); sig(d.B);
	hyper_mat_mean(m, z);
	req_sm(z, d.L, d.S, 4, 1, "mean");
	for (int q = 0; q < d.S * d.L; q++) {
		double s = 0, a = 0;
		for (int k = 0; k < d.B; k++) { double v = F32(m)[(size_t)q * d.B + k]; s += v; a += fabs(v); }
		if (!(fabs(F32(z)[q] - s / d.B) <= a / d.B * (d.B + 4) * 6e-8)) fail("value", "mean over %d bands: pixel %d is %g, not %g", d.B, q, F32(z)[q], s / d.B);
	}
	compared((uint64_t)d.S * d.L);
}

// ---- radiometric corrections --------------------------------------------------------
SC(radiometric, 500, 0)
{
	Dim3 d = dim3(R, lim(R));
	bool rel = R.p(50);
	hyper_mat m = rel ? in_hm(R, d, 12, "bip") : in_hm_f32(R, d, "bip", -1000, 1000);
	int nc = rel ? d.B * d.S : d.B;
	float* c = raw<float>(nc);
	fill_f32(R, c, nc, -2, 3);
	watch(c, nc * 4, "coefficients");
	desc("%s correction samples=%d lines=%d bands=%d", rel ? "relative" : "absolute", d.S, d.L, d.B);
	sig(d.S); sig(d.L); sig(d.B); sig(rel);
	seen("%s", rel ? "relative" : "absolute");
	hyper_mat r = own(rel ? relative_radiometric_correction(m, c) : absolute_radiometric_correction(m, c));
	REQ(r != NULL, "correction: returned NULL");
	req_hm(r, d.S, d.L, d.B, 4, "bip", "correction");
	for (int i = 0; i < d.L; i++) for (int j = 0; j < d.S; j++) for (int k = 0; k < d.B; k++) {
		size_t q = at("bip", d.S, d.L, d.B, i, j, k);
		double v = rel ? (double)((unsigned short*)m->data)[q] * c[(size_t)k * d.S + j] : (double)F32(m)[q] * c[k];
		if (!(fabs(F32(r)[q] - v) <= 1e-6 * fabs(v))) fail("value", "%s correction: line %d sample %d band %d is %g, not %g", rel ? "relative" : "absolute", i, j, k, F32(r)[q], v);
	}
	compared((uint64_t)d.S * d.L * d.B);
}
