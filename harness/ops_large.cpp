// Images of several to some twenty megapixels: sums and counts beyond 2^24, 2^31 and 2^32.
#include "h.h"
#include <algorithm>
#include <time.h>

static const unsigned LG = F_BIG | F_NOTHREAD | F_NOMSAN | F_NORERUN;
static Dim2 mega(Rng& R, double lo, double hi)
{
	double px = R.real(lo, hi) * 1e6;
	Dim2 d;
	d.r = R.u(3) == 0 ? R.range(1, 400) : R.range(500, 9000);
	d.c = (int)(px / d.r) + 1;
	if (R.p(50)) std::swap(d.r, d.c);
	return d;
}
static const char* const FILL[] = {"constant", "bright", "ramp", "random", "stripes", "two grays"};
static int fill_large(Rng& R, unsigned char* p, Dim2 d)
{
	int kind = (int)R.u(6), a = R.range(1, 255), b = R.range(0, 255);
	size_t n = (size_t)d.r * d.c;
	uint64_t z = R.next() | 1;
	for (size_t q = 0; q < n; q++) {
		switch (kind) {
		case 0: p[q] = (unsigned char)a; break;
		case 1: p[q] = q % 97 ? 255 : 254; break;
		case 2: p[q] = (unsigned char)((q % d.c + q / d.c) & 255); break;
		case 3: z ^= z << 13; z ^= z >> 7; z ^= z << 17; p[q] = (unsigned char)z; break;
		case 4: p[q] = (unsigned char)(q % d.c % 2 ? a : a - 1); break;
		default: p[q] = (unsigned char)(q < n / 3 ? a : b);
		}
	}
	return kind;
}
static simple_mat large_u8(Rng& R, Dim2 d, const char* what)
{
	simple_mat m = own(create_simple_mat(d.r, d.c, 1, 1));
	int k = fill_large(R, U8(m), d);
	desc("%s of %dx%d, %s", what, d.r, d.c, FILL[k]);
	seen("%s", FILL[k]);
	sig(d.r); sig(d.c); sig(k);
	return m;
}

SC(large_stats, 2, LG)
{
	Dim2 d = mega(R, 17, 21);
	simple_mat m = large_u8(R, d, "statistics");
	size_t n = (size_t)d.r * d.c;
	long hist[256] = {0};
	for (size_t q = 0; q < n; q++) hist[U8(m)[q]]++;
	double s = 0, v = 0, e = 0, c = 0, pairs = (double)d.r * (d.c - 1) + (double)d.c * (d.r - 1);
	for (int i = 0; i < 256; i++) s += (double)hist[i] * i;
	s /= n;
	for (int i = 0; i < 256; i++) { v += hist[i] * (i - s) * (i - s); if (hist[i]) e -= (double)hist[i] / n * log2((double)hist[i] / n); }
	v /= n;
	for (int i = 0; i < d.r; i++) for (int j = 0; j < d.c; j++) {
		int x = U8(m)[(size_t)i * d.c + j];
		if (j) { int y = x - U8(m)[(size_t)i * d.c + j - 1]; c += y * y; }
		if (i) { int y = x - U8(m)[(size_t)(i - 1) * d.c + j]; c += y * y; }
	}
	c /= pairs;
	int* h = raw<int>(256);
	simple_mat_grayscale_statistics(m, h);
	for (int i = 0; i < 256; i++) REQ(h[i] == hist[i], "the histogram counts %d pixels of gray %d, not %ld", h[i], i, hist[i]);
	float g = simple_mat_mean(m), w = simple_mat_variance(m), ge = simple_mat_entropy(m), gc = simple_mat_contrast_ratio(m);
	REQ(fabs(g - s) <= 1e-6 * s, "the mean of %dx%d is %g, not %g", d.r, d.c, g, s);
	REQ(fabs(w - v) <= 1e-5 * v + 1e-8, "the variance of %dx%d is %g, not %g", d.r, d.c, w, v);
	REQ(fabs(ge - e) <= 1e-4, "the entropy of %dx%d is %g, not %g", d.r, d.c, ge, e);
	REQ(fabs(gc - c) <= 1e-5 * c + 1e-9, "the contrast of %dx%d is %g, not %g", d.r, d.c, gc, c);
	compared(260);
}
SC(large_energy, 1, LG)
{
	Dim2 d = mega(R, 5, 9);
	NEED(cal_edge_signal_energy);
	simple_mat m = large_u8(R, d, "edge energy");
	double w = 0;
	for (int i = 0; i < d.r; i++) for (int j = 0; j < d.c; j++) {
		const unsigned char* p = U8(m) + (size_t)i * d.c + j;
		int s = 8 * p[0] - 2 * ((i ? p[-d.c] : 0) + (i + 1 < d.r ? p[d.c] : 0) + (j ? p[-1] : 0) + (j + 1 < d.c ? p[1] : 0));
		w += (double)s * s / 36;
	}
	w = w / d.r / d.c;
	float g = cal_edge_signal_energy(m);
	REQ(fabs(g - w) <= 1e-4 * w + 1e-5, "the edge energy of %dx%d is %g, not %g", d.r, d.c, g, w);
	compared();
}
SC(large_kmeans, 1, LG)
{
	Dim2 d;
	bool longrow = R.p(40);
	if (longrow) { d.r = 1; d.c = R.range(47000, 90000); if (R.p(50)) std::swap(d.r, d.c); }
	else { d.r = R.range(1700, 2400); d.c = R.range(1700, 2400); }
	simple_mat m = own(create_simple_mat(d.r, d.c, 1, 1));
	size_t n = (size_t)d.r * d.c;
	memset(m->data, 200, n);
	POINT* v = NULL;
	POINT zero = {0, 0};
	vector_init(v, zero, (size_t)1);
	desc("k-means of a full image of %dx%d", d.r, d.c);
	sig(d.r); sig(d.c); seen("%s", longrow ? "long row" : "large image");
	hypercv_k_means(m, v, 1, 0);
	POINT c = v[0];
	vector_free(v);
	REQ(c.x == (d.c - 1) / 2 && c.y == (d.r - 1) / 2, "k-means: the centre of the full image of %dx%d is (%d,%d)", d.r, d.c, c.x, c.y);
	compared();
}
SC(large_otsu, 1, LG)
{
	Dim2 d = mega(R, 17, 21);
	simple_mat m = large_u8(R, d, "otsu");
	size_t n = (size_t)d.r * d.c;
	double hist[256] = {0}, best = -1, N = (double)n;
	for (size_t q = 0; q < n; q++) hist[U8(m)[q]]++;
	int T = otsuThreshold(m);
	REQ(T >= 0 && T <= 255, "otsu threshold %d", T);
	double got = 0, n0 = 0, s0 = 0, s = 0;
	for (int i = 0; i < 256; i++) s += hist[i] * i;
	for (int t = 0; t < 256; t++) {
		n0 += hist[t]; s0 += hist[t] * t;
		double g = n0 > 0 && n0 < N ? n0 / N * (1 - n0 / N) * pow(s0 / n0 - (s - s0) / (N - n0), 2) : 0;
		best = std::max(best, g);
		if (t == T) got = g;
	}
	REQ(got >= best * (1 - 1e-9) - 1e-9, "the otsu threshold %d of %dx%d separates with variance %g, the best one with %g", T, d.r, d.c, got, best);
	compared();
}
SC(large_equal, 1, LG)
{
	Dim2 d = mega(R, 17, 21);
	simple_mat m = large_u8(R, d, "equalization"), o = own(create_simple_mat(d.r, d.c, 1, 1));
	size_t n = (size_t)d.r * d.c;
	long h[256] = {0};
	for (size_t q = 0; q < n; q++) h[U8(m)[q]]++;
	for (int i = 1; i < 256; i++) h[i] += h[i - 1];
	HisEqualization(m, o);
	for (size_t q = 0; q < n; q++) {
		int w = (int)(h[U8(m)[q]] * 255 / (long)n);
		if (U8(o)[q] != w) fail("value", "equalization of %dx%d: gray %d becomes %d, not %d", d.r, d.c, U8(m)[q], U8(o)[q], w);
	}
	compared(n);
}
SC(large_normalize, 2, LG)
{
	static const int NT[3] = {NORM_L1, NORM_L2, NORM_MINMAX};
	Dim2 d = mega(R, 17, 21);
	int k = (int)R.u(3);
	bool f = R.p(60);
	simple_mat m, o;
	size_t n = (size_t)d.r * d.c;
	float al = (float)(k == 2 ? R.real(1, 200) : k == 0 ? n * R.real(0.5, 1.5) * 100 : sqrt((double)n) * R.real(50, 200)), be = (float)R.real(-50, 255);
	if (f) {
		m = own(create_simple_mat(d.r, d.c, 4, 1));
		for (size_t q = 0; q < n; q++) F32(m)[q] = 1 + (q % 5) * 0.25f;
		desc("normalization of float %dx%d, kind %d", d.r, d.c, k); sig(d.r); sig(d.c);
	} else m = large_u8(R, d, "normalization");
	o = own(create_simple_mat(d.r, d.c, f ? 4 : 1, 1));
	sig(k); seen("kind %d", k);
	double l1 = 0, l2 = 0, mx = -1, mn = 1e9;
	for (size_t q = 0; q < n; q++) { double x = f ? F32(m)[q] : U8(m)[q]; l1 += x; l2 += x * x; mx = std::max(mx, x); mn = std::min(mn, x); }
	l2 = sqrt(l2);
	hypercv_normalize(m, o, al, be, NT[k]);
	double hi = std::max(al, be), lo = std::min(al, be);
	for (size_t q = 0; q < n; q++) {
		double x = f ? F32(m)[q] : U8(m)[q], w = k == 0 ? x * al / l1 : k == 1 ? x * al / l2 : mx > mn ? (x - mn) * (hi - lo) / (mx - mn) + lo : lo;
		if (f) { if (!(fabs(F32(o)[q] - w) <= 4e-6 * (fabs(w) + fabs(lo) + fabs(hi)))) fail("value", "normalize %dx%d kind %d: %g becomes %g, not %g", d.r, d.c, k, x, F32(o)[q], w); }
		else {
			double c = w < 0 ? 0 : w > 255 ? 255 : w;
			if (!(fabs(U8(o)[q] - c) <= 0.5 + 4e-6 * (fabs(w) + fabs(lo) + fabs(hi)))) fail("value", "normalize %dx%d kind %d: %g becomes %d, not %g", d.r, d.c, k, x, U8(o)[q], c);
		}
	}
	compared(n);
}
#define LMEAN(T, f, v, eps) { T* x = raw<T>(n); long double s = 0; for (int q = 0; q < n; q++) { x[q] = (T)(v); s += x[q]; } double g = f(x, n); desc("%s of %d values", #f, n); seen("%s", #f); \
	REQ(fabsl(g - s / n) <= fabsl(s / n) * eps, "%s of %d values is %.9g, not %.9Lg", #f, n, g, s / n); }
SC(large_means, 2, LG)
{
	int n = R.range(17000000, 20000000), a = R.range(1, 100);
	sig(n); sig(a);
	switch (R.u(8)) {
	case 0: LMEAN(unsigned, mean_uint, 4000000000u + q % 7, 2e-7) break;
	case 1: LMEAN(short, mean_short, -32768 + (q & 3), 2e-7) break;
	case 2: LMEAN(unsigned short, mean_ushort, 65535 - (q & 3), 2e-7) break;
	case 3: LMEAN(unsigned char, mean_uchar, 255 - (q & 3), 2e-7) break;
	case 4: LMEAN(char, mean_char, 127 - (q & 3), 2e-7) break;
	case 5: LMEAN(int, mean_int, 2147483647 - (q & 3), 2e-7) break;
	case 6: LMEAN(float, mean_float, a + (q & 3) * 0.25, 2e-7) break;
	default: LMEAN(double, mean_double, a + (q & 3) * 0.25, 1e-9)
	}
	compared();
}
SC(large_integral, 1, LG)
{
	// sums up to the largest int
	Dim2 d = mega(R, 8.0, 8.4);
	simple_mat m = large_u8(R, d, "integral"), o = own(create_simple_mat(d.r, d.c, 3, 1));
	double total = 0;
	for (size_t q = 0; q < (size_t)d.r * d.c; q++) total += U8(m)[q];
	if (total > 2147483647.) skip();
	hypercv_integral(m, o);
	std::vector<long> col(d.c, 0);
	for (int i = 0; i < d.r; i++) {
		long row = 0;
		for (int j = 0; j < d.c; j++) {
			size_t q = (size_t)i * d.c + j;
			row += U8(m)[q];
			col[j] += row;
			if (((int*)o->data)[q] != col[j]) fail("value", "integral of %dx%d: row %d col %d is %d, not %ld", d.r, d.c, i, j, ((int*)o->data)[q], col[j]);
		}
	}
	compared((uint64_t)d.r * d.c);
}
SC(large_hu, 1, LG)
{
	Dim2 d = mega(R, 4, 9);
	simple_mat m = large_u8(R, d, "first moment");
	double hu[7];
	calc_hu_moment(hu, m);
	double s = 0, sx = 0, sy = 0, u = 0;
	for (int i = 0; i < d.r; i++) for (int j = 0; j < d.c; j++) { double v = U8(m)[(size_t)i * d.c + j]; s += v; sx += v * j; sy += v * i; }
	double cx = floor(sx / s + 0.5), cy = floor(sy / s + 0.5);
	for (int i = 0; i < d.r; i++) for (int j = 0; j < d.c; j++) { double v = U8(m)[(size_t)i * d.c + j]; u += v * ((j - cx) * (j - cx) + (i - cy) * (i - cy)); }
	u = u / s / s;
	REQ(fabs(hu[0] - u) <= 1e-6 * u, "the first Hu moment of %dx%d is %g, not %g", d.r, d.c, hu[0], u);
	compared();
}
SC(large_vector, 1, LG)
{
	// more elements than 16 bits, and than one growth step
	size_t n = R.range(70000, 400000);
	desc("vector of %zu points", n); sig(n);
	POINT* v = NULL;
	for (size_t q = 0; q < n; q++) { POINT p = {(int)q, (int)(q * 7)}; vector_push_back(v, p); }
	REQ(vector_size(v) == n && vector_capacity(v) >= n, "a vector of %zu points has size %zu and capacity %zu", n, (size_t)vector_size(v), (size_t)vector_capacity(v));
	for (size_t q = 0; q < n; q++) if (v[q].x != (int)q || v[q].y != (int)(q * 7)) fail("value", "vector: element %zu of %zu is (%d,%d)", q, n, v[q].x, v[q].y);
	size_t e = R.u(n);
	vector_erase(v, e);
	REQ(vector_size(v) == n - 1, "erasing one of %zu points leaves %zu", n, (size_t)vector_size(v));
	for (size_t q = 0; q + 1 < n; q++) if (v[q].x != (int)(q + (q >= e))) fail("value", "vector: element %zu of %zu is (%d,%d) after erasing %zu", q, n, v[q].x, v[q].y, e);
	vector_free(v);
	compared(n);
}
