// Filters, geometry, morphology, thresholds, colours, statistics of images.
#include "h.h"
#include <algorithm>

static size_t lim(Rng& R) { int k = (int)R.u(40); return k == 0 ? (R.u(40) == 0 ? 300000 : 90000) : k < 6 ? 20000 : 2500; }
static Dim2 img(Rng& R, size_t l) { return dim2(R, l); }

// index in 0..n-1 that stands for position p, -1 outside of a constant border
static int border(int p, int n, int type)
{
	if (p >= 0 && p < n) return p;
	int q;
	switch (type) {
	case 0: return -1;
	case 1: return p < 0 ? 0 : n - 1;
	case 2: q = p % (2 * n); if (q < 0) q += 2 * n; return q < n ? q : 2 * n - 1 - q;
	case 3: q = p % n; return q < 0 ? q + n : q;
	default: if (n == 1) return 0; q = p % (2 * n - 2); if (q < 0) q += 2 * n - 2; return q < n ? q : 2 * n - 2 - q;
	}
}
static const char* const BNAME[5] = {"constant", "replicate", "reflect", "wrap", "reflect_101"};

// value is a rounding of exact (ties either way), saturated
static bool rounds_to(int got, double exact, double tol)
{
	if (exact < 0) exact = 0;
	if (exact > 255) exact = 255;
	return fabs(got - exact) <= 0.5 + tol;
}

SC(border_index, 300, 0)
{
	int n = R.p(50) ? R.range(1, 9) : R.range(1, 2000), type = (int)R.u(5);
	desc("border index, length %d, %s", n, BNAME[type]);
	sig(n); sig(type);
	seen("%s", BNAME[type]);
	if (n == 1) seen("length 1");
	for (int t = 0; t < 200; t++) {
		int p = t < 60 ? t - 30 : R.p(50) ? R.range(-3 * n - 2, 4 * n + 2) : R.range(-10 * n, 10 * n);
		int got = hypercv_border_Interpolate(p, n, type), want = border(p, n, type);
		digest(&got, sizeof got);
		REQ(got == want, "position %d of length %d is index %d, not %d", p, n, got, want);
		compared();
	}
}

SC(make_border, 400, 0)
{
	Dim2 d = img(R, lim(R));
	int ch = R.p(50) ? 1 : R.range(2, 4), type = (int)R.u(5), b[4];
	bool none = R.u(12) == 0;
	for (int q = 0; q < 4; q++) b[q] = none ? 0 : R.p(25) ? 0 : R.p(70) ? R.range(0, 6) : R.range(0, 70);
	if (!none && R.u(40) == 0) { b[R.u(4)] = R.range(60, 700); seen("border wider than 60"); }
	if ((size_t)(d.r + b[0] + b[1]) * (d.c + b[2] + b[3]) * ch > 400000) for (int q = 0; q < 4; q++) b[q] = none ? 0 : R.range(0, 1);
	int value = R.range(0, 255), dt = none ? R.pick(ALL_TYPES) : 1;
	if (!(b[0] | b[1] | b[2] | b[3])) none = true;
	desc("border of %dx%d channels %d: top %d bottom %d left %d right %d %s value %d", d.r, d.c, ch, b[0], b[1], b[2], b[3], BNAME[type], value);
	sig(d.r); sig(d.c); sig(ch * 10 + type); for (int q = 0; q < 4; q++) sig(b[q]);
	seen("%s%s", BNAME[type], none ? " without borders" : "");
	simple_mat m = in_sm(R, d, dt, ch);
	simple_mat r = own(hypercv_copy_make_border(m, b[0], b[1], b[2], b[3], type, (unsigned char)value));
	req_sm(r, d.r + b[0] + b[1], d.c + b[2] + b[3], dt, ch, "border");
	REQ(r != m && r->data != m->data, "border: the result is not a mat of its own");
	if (none) { req_bytes(r->data, m->data, (size_t)d.r * d.c * ch * esize(dt), "empty border"); return; }
	int rr = r->rows, cc = r->cols;
	for (int i = 0; i < rr; i++) {
		int y = border(i - b[0], d.r, type);
		for (int j = 0; j < cc; j++) {
			int x = border(j - b[2], d.c, type);
			for (int k = 0; k < ch; k++) {
				int want = y < 0 || x < 0 ? value : U8(m)[((size_t)y * d.c + x) * ch + k], got = U8(r)[((size_t)i * cc + j) * ch + k];
				if (got != want) fail("value", "border: row %d col %d channel %d is %d, not %d", i, j, k, got, want);
			}
		}
	}
	compared((uint64_t)rr * cc * ch);
}

SC(filter2d, 500, 0)
{
	int kr = R.range(1, 5), kc = R.range(1, 5);
	if (R.u(8) == 0) { kr = R.range(1, 11); kc = R.range(1, 11); }
	Dim2 d = img(R, lim(R) / (kr * kc > 20 ? 4 : 1));
	if (R.u(60) == 0) { kr = R.range(1, 35); kc = R.range(1, 35); d = img(R, 700); }
	int ch = R.p(60) ? 1 : 3, type = (int)R.u(5), km = (int)R.u(7);
	double big = km == 5 ? R.pick((const double[]){20, 127, 255, 4000, 40000}) : R.pick((const double[]){1e-4, 100, 1e5, 1e8});
	int neg = R.p(50);
	float* k = raw<float>(kr * kc);
	for (int q = 0; q < kr * kc; q++)
		k[q] = km == 5 ? (float)R.range(neg ? -(int)big : 0, (int)big) : km == 6 ? (float)R.real(neg ? -big : 0, big) : km == 0 ? 1.0f / (kr * kc) : km == 1 ? 0 : km == 2 ? (float)R.range(-5, 5) : (float)R.real(-2, 2);
	if (km == 1) k[R.u(kr * kc)] = (float)R.range(1, 3);
	watch(k, kr * kc * sizeof(float), "kernel");
	simple_mat m = in_u8(R, d, ch), o = out_sm(R, d, 4, ch);
	desc("filter %dx%d channels %d with a %dx%d kernel (%d), %s", d.r, d.c, ch, kr, kc, km, BNAME[type]);
	sig(d.r); sig(d.c); sig(kr * 100 + kc); sig(ch * 100 + type * 10 + km);
	seen("%s", BNAME[type]);
	seen("kernel %s x %s", kr & 1 ? "odd" : "even", kc & 1 ? "odd" : "even");
	if (kr > d.r || kc > d.c) seen("kernel larger than the image");
	hypercv_filter2D(m, o, k, kr, kc, type);
	req_sm(o, d.r, d.c, 4, ch, "filter2D");
	for (int i = 0; i < d.r; i++)
		for (int j = 0; j < d.c; j++)
			for (int c = 0; c < ch; c++) {
				double s = 0, a = 0;
				for (int y = 0; y < kr; y++) {
					int p = border(i + y - kr / 2, d.r, type);
					if (p < 0) continue;
					for (int x = 0; x < kc; x++) {
						int q = border(j + x - kc / 2, d.c, type);
						if (q < 0) continue;
						double v = (double)k[y * kc + x] * U8(m)[((size_t)p * d.c + q) * ch + c];
						s += v; a += fabs(v);
					}
				}
				float g = F32(o)[((size_t)i * d.c + j) * ch + c];
				if (!(fabs(g - s) <= 2e-5 * a + 1e-7 * (a < 1) + 1e-30)) fail("value", "filter2D: row %d col %d channel %d is %g, not %g", i, j, c, g, s);
			}
	compared((uint64_t)d.r * d.c * ch);
}

SC(median, 350, 0)
{
	int size = R.p(70) ? 2 * R.range(0, 2) + 1 : 2 * R.range(0, 5) + 1;
	Dim2 d = img(R, lim(R) / (size > 5 ? 4 : 1));
	if (R.u(40) == 0) { size = 2 * R.range(6, 16) + 1; d = img(R, 600); if (R.p(60)) { d.r = size + R.range(0, 5); d.c = size + R.range(0, 5); } }
	simple_mat m = in_u8(R, d), o = out_sm(R, d, 1, 1);
	desc("median %d of %dx%d", size, d.r, d.c);
	sig(d.r); sig(d.c); sig(size);
	seen("size %d", size);
	hypercv_medianblur(m, o, size);
	req_sm(o, d.r, d.c, 1, 1, "median");
	int h = size / 2;
	std::vector<unsigned char> w(size * size);
	for (int i = 0; i < d.r; i++)
		for (int j = 0; j < d.c; j++) {
			int want = U8(m)[(size_t)i * d.c + j], got = U8(o)[(size_t)i * d.c + j];
			if (i >= h && j >= h && i + h < d.r && j + h < d.c) {
				for (int y = 0; y < size; y++) memcpy(&w[y * size], U8(m) + (size_t)(i - h + y) * d.c + j - h, size);
				std::nth_element(w.begin(), w.begin() + size * size / 2, w.end());
				want = w[size * size / 2];
			}
			if (got != want) fail("value", "median %d: row %d col %d is %d, not %d", size, i, j, got, want);
		}
	compared((uint64_t)d.r * d.c);
}

SC(mean_blur, 350, 0)
{
	int size = R.p(70) ? R.range(1, 5) : R.range(1, 13);
	Dim2 d = img(R, lim(R) / (size > 5 ? 4 : 1));
	if (R.u(40) == 0) { size = R.range(14, 40); d = img(R, 1500); if (R.p(60)) { d.r = R.range(14, 45); d.c = R.range(14, 45); } }
	simple_mat m = in_u8(R, d), o = out_sm(R, d, 1, 1);
	desc("mean %d of %dx%d", size, d.r, d.c);
	sig(d.r); sig(d.c); sig(size);
	seen("size %d", size);
	hypercv_meanblur(m, o, size);
	req_sm(o, d.r, d.c, 1, 1, "mean");
	for (int i = 0; i < d.r; i++)
		for (int j = 0; j < d.c; j++) {
			long sum = 0, n = 0;
			for (int y = std::max(0, i - size / 2); y < std::min(d.r, i + size - size / 2); y++)
				for (int x = std::max(0, j - size / 2); x < std::min(d.c, j + size - size / 2); x++) { sum += U8(m)[(size_t)y * d.c + x]; n++; }
			int got = U8(o)[(size_t)i * d.c + j];
			if (got != sum / n) fail("value", "mean %d: row %d col %d is %d, not %ld of %ld", size, i, j, got, sum, n);
		}
	compared((uint64_t)d.r * d.c);
}

SC(integral, 350, 0)
{
	Dim2 d = img(R, R.u(30) == 0 ? 280000 : lim(R));
	simple_mat m = in_u8(R, d), o = out_sm(R, d, 3, 1);
	size_t n = (size_t)d.r * d.c;
	if (n > 8000000) {              // the sum has to fit into an int
		unwatch(m->data);
		for (size_t k = 0; k < n; k++) U8(m)[k] &= 63;
		watch(m->data, n, "image");
	}
	desc("integral of %dx%d", d.r, d.c);
	sig(d.r); sig(d.c);
	hypercv_integral(m, o);
	req_sm(o, d.r, d.c, 3, 1, "integral");
	int* g = (int*)o->data;
	std::vector<long> col(d.c, 0);
	for (int i = 0; i < d.r; i++) {
		long s = 0;
		for (int j = 0; j < d.c; j++) {
			col[j] += U8(m)[(size_t)i * d.c + j];
			s += col[j];
			if (g[(size_t)i * d.c + j] != s) fail("value", "integral: row %d col %d of %dx%d is %d, not %ld", i, j, d.r, d.c, g[(size_t)i * d.c + j], s);
		}
	}
	if ((size_t)d.r * d.c > 65536) seen("more than 65536 pixels");
	compared((uint64_t)d.r * d.c);
}

static void gauss(int n, double sigma, std::vector<double>& k)
{
	static const double fix[4][7] = {{1}, {.25, .5, .25}, {.0625, .25, .375, .25, .0625}, {.03125, .109375, .21875, .28125, .21875, .109375, .03125}};
	k.assign(n, 0);
	double s = sigma > 0 ? sigma : ((n - 1) * 0.5 - 1) * 0.3 + 0.8, sum = 0;
	for (int i = 0; i < n; i++) {
		double x = i - (n - 1) * 0.5;
		k[i] = sigma <= 0 && (n & 1) && n <= 7 ? fix[n / 2][i] : exp(-x * x / (2 * s * s));
		sum += k[i];
	}
	for (int i = 0; i < n; i++) k[i] /= sum;
}

// any sigma, or one that is special: the one a size implies, tiny, whole
static double sigma_of(Rng& R, int n, double hi)
{
	switch (R.u(10)) {
	case 0: return ((n - 1) * 0.5 - 1) * 0.3 + 0.8;
	case 1: return ((2 * R.range(0, 9)) * 0.5 - 1) * 0.3 + 0.8;
	case 2: return n & 1 ? pow(10, -R.range(1, 12)) : R.real(0.3, hi);
	case 3: return R.range(1, 6);
	case 4: return R.range(1, 20) * 0.5;
	case 5: return pow(10, R.range(1, 6));
	}
	return R.real(0.3, hi);
}
SC(gauss_kernel, 400, 0)
{
	int n = R.p(70) ? R.range(1, 9) : R.p(90) ? R.range(1, 65) : R.range(60, 600), kt = R.p(50) ? 4 : 5;
	double sigma = R.p(40) ? (R.p(50) ? 0 : -R.real(0, 5)) : sigma_of(R, n, 12);
	desc("gaussian kernel of length %d sigma %g type %d", n, sigma, kt);
	sig(n); sig(kt); sig((uint64_t)(sigma * 1000 + 100000));
	seen("%s %s", kt == 4 ? "float" : "double", sigma > 0 ? "sigma" : (n & 1) && n <= 7 ? "table" : "derived sigma");
	simple_mat k = own(gaussian_kernel(n, sigma, kt));
	req_sm(k, 1, n, kt, 1, "kernel");
	std::vector<double> w;
	gauss(n, sigma, w);
	double sum = 0;
	for (int i = 0; i < n; i++) {
		double g = kt == 4 ? F32(k)[i] : ((double*)k->data)[i], o = kt == 4 ? F32(k)[n - 1 - i] : ((double*)k->data)[n - 1 - i];
		double tol = kt == 4 ? 1e-6 : 1e-12;
		REQ(fabs(g - w[i]) <= tol * (1e-3 + w[i]) * 10, "coefficient %d of %d is %.9g, not %.9g", i, n, g, w[i]);
		REQ(fabs(g - o) <= tol, "the kernel is not symmetric: %.9g and %.9g", g, o);
		sum += g;
	}
	REQ(fabs(sum - 1) <= (kt == 4 ? 1e-5 : 1e-10), "the coefficients sum up to %.9g", sum);
	compared(n);
}

// separable filter with saturation after each pass, as a real number
static void separable(const unsigned char* src, int r, int c, int ch, const std::vector<double>& kx, const std::vector<double>& ky, int type, std::vector<double>& out)
{
	std::vector<double> t((size_t)r * c * ch);
	out.assign((size_t)r * c * ch, 0);
	int nx = (int)kx.size(), ny = (int)ky.size();
	for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) for (int q = 0; q < ch; q++) {
		double s = 0;
		for (int k = 0; k < nx; k++) { int x = border(j + k - nx / 2, c, type); if (x >= 0) s += kx[k] * src[((size_t)i * c + x) * ch + q]; }
		t[((size_t)i * c + j) * ch + q] = s < 0 ? 0 : s > 255 ? 255 : s;
	}
	for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) for (int q = 0; q < ch; q++) {
		double s = 0;
		for (int k = 0; k < ny; k++) { int y = border(i + k - ny / 2, r, type); if (y >= 0) s += ky[k] * t[((size_t)y * c + j) * ch + q]; }
		out[((size_t)i * c + j) * ch + q] = s < 0 ? 0 : s > 255 ? 255 : s;
	}
}
static void req_rounded(simple_mat o, const std::vector<double>& want, int ch, const char* what)
{
	for (size_t q = 0; q < want.size(); q++)
		if (!rounds_to(U8(o)[q], want[q], 3e-3))
			fail("value", "%s: row %zu col %zu channel %zu of %dx%d is %d, not %.4f", what, q / ch / o->cols, q / ch % o->cols, q % ch, o->rows, o->cols, U8(o)[q], want[q]);
	compared(want.size());
}

SC(gauss_blur, 400, 0)
{
	int kw = 2 * R.range(0, 3) + 1, kh = 2 * R.range(0, 3) + 1;
	if (R.u(8) == 0) { kw = 2 * R.range(0, 10) + 1; kh = 2 * R.range(0, 10) + 1; }
	Dim2 d = img(R, lim(R) / (kw + kh > 14 ? 3 : 1));
	if (R.u(60) == 0) { kw = 2 * R.range(8, 40) + 1; kh = 2 * R.range(8, 40) + 1; d = img(R, 900); }
	int ch = R.p(60) ? 1 : 3, type = (int)R.u(5);
	double s1 = R.p(40) ? -R.real(0, 1) : sigma_of(R, kw, 6), s2 = R.p(40) ? 0 : sigma_of(R, kh, 6);
	if (s2 <= 0 && s1 > 0 && kw != kh && R.p(30)) s1 = R.real(0.3, 6);
	simple_mat m = in_u8(R, d, ch), o = out_sm(R, d, 1, ch);
	desc("gaussian blur %dx%d channels %d kernel %dx%d sigma %g %g %s", d.r, d.c, ch, kw, kh, s1, s2, BNAME[type]);
	sig(d.r); sig(d.c); sig(kw * 100 + kh); sig(ch * 10 + type); sig((uint64_t)(s1 * 1000 + 5000)); sig((uint64_t)(s2 * 1000));
	seen("%s channels %d", BNAME[type], ch);
	if (kw > d.c || kh > d.r) seen("kernel larger than the image");
	hypercv_gaussian_blur(m, o, kw, kh, s1, s2, type);
	req_sm(o, d.r, d.c, 1, ch, "gaussian blur");
	std::vector<double> kx, ky, w;
	gauss(kw, s1, kx);
	gauss(kh, s2 > 0 ? s2 : s1, ky);
	separable(U8(m), d.r, d.c, ch, kx, ky, type, w);
	req_rounded(o, w, ch, "gaussian blur");
}

SC(kernel_blur, 300, 0)
{
	int nx = R.range(1, 7), ny = R.range(1, 7);
	Dim2 d = img(R, lim(R));
	if (R.u(40) == 0) { nx = R.range(1, 70); ny = R.range(1, 70); d = img(R, 1500); }
	Dim2 dx = {1, nx}, dy = {1, ny};
	int ch = R.p(60) ? 1 : 3, type = (int)R.u(5);
	simple_mat m = in_u8(R, d, ch), o = out_sm(R, d, 1, ch);
	simple_mat x = in_f32(R, dx, 1, 0.01, 1), y = in_f32(R, dy, 1, 0.01, 1);
	unwatch(x->data);
	unwatch(y->data);
	double gain = R.p(70) ? 1 : R.real(0.3, 1.6), sx = 0, sy = 0;
	if (nx < 12 && ny < 12 && R.p(25)) {         // sharpening and differences: both bounds are met in both passes
		for (int i = 0; i < nx; i++) if (R.p(50)) F32(x)[i] *= -1;
		for (int i = 0; i < ny; i++) if (R.p(50)) F32(y)[i] *= -1;
		gain = R.real(0.5, 2.5);
		seen("negative coefficients");
	}
	for (int i = 0; i < nx; i++) sx += fabs(F32(x)[i]);
	for (int i = 0; i < ny; i++) sy += fabs(F32(y)[i]);
	for (int i = 0; i < nx; i++) F32(x)[i] = (float)(F32(x)[i] / sx * gain);
	for (int i = 0; i < ny; i++) F32(y)[i] = (float)(F32(y)[i] / sy * gain);
	watch_sm(x, "x kernel");
	watch_sm(y, "y kernel");
	desc("blur %dx%d channels %d with own kernels %d and %d, gain %g, %s", d.r, d.c, ch, nx, ny, gain, BNAME[type]);
	sig(d.r); sig(d.c); sig(nx * 10 + ny); sig(ch * 10 + type);
	seen("%s channels %d", BNAME[type], ch);
	hypercv_gaussian_blur_with_kernel(m, o, x, y, type);
	req_sm(o, d.r, d.c, 1, ch, "blur");
	std::vector<double> kx(F32(x), F32(x) + nx), ky(F32(y), F32(y) + ny), w;
	separable(U8(m), d.r, d.c, ch, kx, ky, type, w);
	req_rounded(o, w, ch, "blur with kernels");
}

SC(laplacian, 350, 0)
{
	Dim2 d = img(R, lim(R));
	int ks = R.range(1, 4), type = (int)R.u(5);
	simple_mat m = in_u8(R, d), o = out_sm(R, d, 1, 1);
	desc("laplacian %d of %dx%d %s", ks, d.r, d.c, BNAME[type]);
	sig(d.r); sig(d.c); sig(ks * 10 + type);
	seen("%s size %d", BNAME[type], ks);
	hypercv_laplacian(m, o, ks, type);
	req_sm(o, d.r, d.c, 1, 1, "laplacian");
	for (int i = 0; i < d.r; i++) for (int j = 0; j < d.c; j++) {
		int s = -4 * U8(m)[(size_t)i * d.c + j];
		static const int dy[4] = {-1, 1, 0, 0}, dx[4] = {0, 0, -1, 1};
		for (int q = 0; q < 4; q++) { int y = border(i + dy[q], d.r, type), x = border(j + dx[q], d.c, type); if (y >= 0 && x >= 0) s += U8(m)[(size_t)y * d.c + x]; }
		if (ks == 2) s *= 2;
		int w = s < 0 ? 0 : s > 255 ? 255 : s, g = U8(o)[(size_t)i * d.c + j];
		if (g != w) fail("value", "laplacian: row %d col %d of %dx%d is %d, not %d", i, j, d.r, d.c, g, w);
	}
	compared((uint64_t)d.r * d.c);
}

SC(sobel, 350, 0)
{
	Dim2 d = img(R, lim(R));
	int type = (int)R.u(5), th = R.p(80) ? R.range(0, 500) : R.range(-5, 1030);
	simple_mat m = in_u8(R, d), o = out_sm(R, d, 1, 1);
	desc("sobel of %dx%d threshold %d %s", d.r, d.c, th, BNAME[type]);
	sig(d.r); sig(d.c); sig(th + 100); sig(type);
	seen("%s", BNAME[type]);
	uint64_t on = 0;
	hypercv_sobel(m, o, th, type);
	req_sm(o, d.r, d.c, 1, 1, "sobel");
	static const int gx[3][3] = {{-1, 0, 1}, {-2, 0, 2}, {-1, 0, 1}};
	for (int i = 0; i < d.r; i++) for (int j = 0; j < d.c; j++) {
		int a = 0, b = 0;
		for (int u = -1; u <= 1; u++) for (int v = -1; v <= 1; v++) {
			int y = border(i + u, d.r, type), x = border(j + v, d.c, type);
			if (y < 0 || x < 0) continue;
			int p = U8(m)[(size_t)y * d.c + x];
			a += gx[u + 1][v + 1] * p;
			b += gx[v + 1][u + 1] * p;
		}
		int w = std::max(abs(a), abs(b)) > th ? 255 : 0, g = U8(o)[(size_t)i * d.c + j];
		on += w != 0;
		if (g != w) fail("value", "sobel: row %d col %d of %dx%d is %d, not %d (gradient %d %d)", i, j, d.r, d.c, g, w, a, b);
	}
	if (on && on < (uint64_t)d.r * d.c) seen("edges and background");
	compared((uint64_t)d.r * d.c);
}

SC(edge_energy, 250, 0)
{
	Dim2 d = img(R, 3000);
	simple_mat m = in_u8(R, d);
	desc("edge energy of %dx%d", d.r, d.c);
	sig(d.r); sig(d.c);
	NEED(cal_edge_signal_energy);
	float g = cal_edge_signal_energy(m);
	digest(&g, sizeof g);
	double w = 0;
	for (int i = 0; i < d.r; i++) for (int j = 0; j < d.c; j++) {
		double s = 0;
		static const int k[9] = {0, -2, 0, -2, 8, -2, 0, -2, 0};   // sum of both operators
		for (int q = 0; q < 9; q++) { int y = i + q / 3 - 1, x = j + q % 3 - 1; if (y >= 0 && x >= 0 && y < d.r && x < d.c) s += k[q] / 6.0 * U8(m)[(size_t)y * d.c + x]; }
		w += s * s;
	}
	w = w / d.r / d.c;
	REQ(fabs(g - w) <= 1e-5 * w + 1e-6, "the edge energy of %dx%d is %g, not %g", d.r, d.c, g, w);
	compared();
}

// ---- geometry -------------------------------------------------------------------
SC(flip, 450, 0)
{
	Dim2 d = img(R, lim(R));
	int type = R.p(50) ? 1 : R.pick(ALL_TYPES), ch = R.p(50) ? 1 : R.range(1, 4), how = (int)R.u(5);
	simple_mat m = in_sm(R, d, type, ch), o = out_sm(R, d, type, ch);
	static const int code[3] = {1, 0, -1};
	bool fx, fy;
	if (how < 3) { simple_mat_flip(m, o, code[how]); fx = how != 1; fy = how != 0; }
	else if (how == 3) { simple_mat_flip_horizontal(m, o); fx = true; fy = false; }
	else { simple_mat_flip_vertical(m, o); fx = false; fy = true; }
	desc("flip %d of %dx%d type %d channels %d", how, d.r, d.c, type, ch);
	sig(d.r); sig(d.c); sig(type * 100 + ch * 10 + how);
	seen("flip %s%s channels %d", fx ? "horizontal " : "", fy ? "vertical" : "", ch);
	req_sm(o, d.r, d.c, type, ch, "flip");
	size_t e = esize(type) * ch;
	for (int i = 0; i < d.r; i++) for (int j = 0; j < d.c; j++) {
		int y = fy ? d.r - 1 - i : i, x = fx ? d.c - 1 - j : j;
		if (memcmp((char*)o->data + ((size_t)i * d.c + j) * e, (char*)m->data + ((size_t)y * d.c + x) * e, e) != 0)
			fail("value", "flip: row %d col %d of %dx%d type %d channels %d is not row %d col %d of the source", i, j, d.r, d.c, type, ch, y, x);
	}
	compared((uint64_t)d.r * d.c);
	if (R.p(20)) {      // an involution
		simple_mat b = out_sm(R, d, type, ch);
		simple_mat_flip(o, b, fx && fy ? -1 : fx ? 1 : 0);
		req_bytes(b->data, m->data, (size_t)d.r * d.c * e, "flipped twice");
	}
}

static Dim2 img2(Rng& R, size_t l) { Dim2 d = img(R, l); if (d.r < 2) d.r = 2; if (d.c < 2) d.c = 2; return d; }

SC(pyr_down, 300, 0)
{
	Dim2 d = img2(R, lim(R)), t = {(d.r + 1) / 2, (d.c + 1) / 2};
	int ch = R.p(60) ? 1 : 3;
	simple_mat m = in_u8(R, d, ch), o = out_sm(R, t, 1, ch);
	desc("pyramid down %dx%d channels %d", d.r, d.c, ch);
	sig(d.r); sig(d.c); sig(ch);
	seen("%s x %s channels %d", d.r & 1 ? "odd" : "even", d.c & 1 ? "odd" : "even", ch);
	hypercv_pyramid_down(m, o);
	req_sm(o, t.r, t.c, 1, ch, "pyramid down");
	std::vector<double> k, w, q((size_t)t.r * t.c * ch);
	gauss(5, 0, k);
	separable(U8(m), d.r, d.c, ch, k, k, 1, w);
	for (int i = 0; i < t.r; i++) for (int j = 0; j < t.c; j++) for (int c = 0; c < ch; c++)
		q[((size_t)i * t.c + j) * ch + c] = w[((size_t)2 * i * d.c + 2 * j) * ch + c];
	req_rounded(o, q, ch, "pyramid down");
}

SC(pyr_up, 300, 0)
{
	Dim2 d = img2(R, lim(R) / 3), t = {d.r * 2, d.c * 2};
	int ch = R.p(60) ? 1 : 3;
	simple_mat m = in_u8(R, d, ch), o = out_sm(R, t, 1, ch);
	desc("pyramid up %dx%d channels %d", d.r, d.c, ch);
	sig(d.r); sig(d.c); sig(ch);
	seen("channels %d", ch);
	hypercv_pyramid_up(m, o);
	req_sm(o, t.r, t.c, 1, ch, "pyramid up");
	std::vector<unsigned char> z((size_t)t.r * t.c * ch, 0);
	for (int i = 0; i < d.r; i++) for (int j = 0; j < d.c; j++) for (int c = 0; c < ch; c++)
		z[((size_t)2 * i * t.c + 2 * j) * ch + c] = U8(m)[((size_t)i * d.c + j) * ch + c];
	std::vector<double> k, w;
	gauss(5, 0, k);
	for (int i = 0; i < 5; i++) k[i] *= 2;
	separable(z.data(), t.r, t.c, ch, k, k, 1, w);
	req_rounded(o, w, ch, "pyramid up");
}

SC(rotate, 400, 0)
{
	Dim3 d;
	d.S = R.p(70) ? R.range(1, 14) : R.range(1, 70);
	d.L = R.p(70) ? R.range(1, 14) : R.range(1, 70);
	if (R.u(25) == 0) { if (R.p(50)) d.S = R.range(100, 800); else d.L = R.range(100, 800); }
	d.B = R.range(1, 5);
	int type = R.pick(ALL_TYPES), il = (int)R.u(3);
	double angle = R.p(35) ? 90.0 * R.range(-4, 5) : R.p(30) ? (double)R.range(-720, 720) : R.real(-720, 720);
	hyper_mat m = in_hm(R, d, type, ILS[il], false);
	size_t e = esize(type), n = (size_t)d.S * d.L * d.B * e;
	char* orig = raw<char>(n);
	memcpy(orig, m->data, n);
	watch(m->wavelength, d.B * sizeof(float), "wavelengths");
	desc("rotate %s samples=%d lines=%d bands=%d type=%d by %.9g", ILS[il], d.S, d.L, d.B, type, angle);
	sig(d.S); sig(d.L); sig(d.B); sig(type * 10 + il); sig((uint64_t)((angle + 1000) * 1000));
	seen("%s", fmod(angle, 90) == 0 ? "right angle" : "other angle");
	hyper_mat r = own(hyper_mat_rotate(m, angle));
	REQ(r != NULL, "rotate returned NULL");
	// the image keeps its contents, in whatever layout it is left
	REQ(m->samples == d.S && m->lines == d.L && m->bands == d.B && m->data_type == type, "rotate changed the shape of its input");
	for (int i = 0; i < d.L; i++) for (int j = 0; j < d.S; j++) for (int k = 0; k < d.B; k++)
		if (memcmp(orig + at(ILS[il], d.S, d.L, d.B, i, j, k) * e, (char*)m->data + at(m->interleave, d.S, d.L, d.B, i, j, k) * e, e) != 0)
			fail("value", "rotate changed line %d sample %d band %d of its input", i, j, k);
	double th = angle * 3.1415926 / 180, c = cos(th), s = sin(th);
	int h = (d.L + 1) / 2, w = (d.S + 1) / 2;
	double W = 2 * (w * fabs(c) + h * fabs(s)), H = 2 * (h * fabs(c) + w * fabs(s));
	// the canvas is the bounding box of the rotated image, cut to whole pixels
	double tw = 1e-5 * (1 + W), tH = 1e-5 * (1 + H);
	REQ(r->samples >= (int)floor(W - tw) && r->samples <= (int)floor(W + tw), "the rotated image has %d samples, not %g", r->samples, W);
	REQ(r->lines >= (int)floor(H - tH) && r->lines <= (int)floor(H + tH), "the rotated image has %d lines, not %g", r->lines, H);
	req_hm(r, r->samples, r->lines, d.B, type, "bip", "rotated");
	REQ(r->wavelength && memcmp(r->wavelength, m->wavelength, d.B * sizeof(float)) == 0, "rotate lost the wavelengths");
	int rw = r->samples, rh = r->lines;
	// sources of every cell, sure and possible (on a cell boundary the rounding decides)
	std::vector<std::vector<int> > src((size_t)rw * rh);
	std::vector<char> sure((size_t)rw * rh, 0);
	for (int i = 0; i < d.L; i++) for (int j = 0; j < d.S; j++) {
		double x = (i + 0.5 - h) * c + (j + 0.5 - w) * s + rh / 2.0, y = (j + 0.5 - w) * c - (i + 0.5 - h) * s + rw / 2.0;
		double tol = 1e-7 * (1 + rw + rh);
		int x0 = (int)floor(x - tol), x1 = (int)floor(x + tol), y0 = (int)floor(y - tol), y1 = (int)floor(y + tol);
		for (int a = x0; a <= x1; a++) for (int b = y0; b <= y1; b++)
			if (a >= 0 && b >= 0 && a < rh && b < rw) {
				src[(size_t)a * rw + b].push_back(i * d.S + j);
				if (x0 == x1 && y0 == y1) sure[(size_t)a * rw + b] = 1;
			}
	}
	std::vector<char> zero(d.B * e, 0);
	for (int a = 0; a < rh; a++) for (int b = 0; b < rw; b++) {
		const char* got = (char*)r->data + ((size_t)a * rw + b) * d.B * e;
		std::vector<int>& v = src[(size_t)a * rw + b];
		bool ok = !sure[(size_t)a * rw + b] && memcmp(got, zero.data(), d.B * e) == 0;
		for (size_t q = 0; q < v.size() && !ok; q++) {
			ok = true;
			for (int k = 0; k < d.B && ok; k++)
				ok = memcmp(got + k * e, orig + at(ILS[il], d.S, d.L, d.B, v[q] / d.S, v[q] % d.S, k) * e, e) == 0;
		}
		if (!ok) fail("value", "rotated by %g: line %d sample %d of %dx%d %s", angle, a, b, rh, rw, v.empty() ? "is not zero" : "is not the pixel that lands there");
	}
	compared((uint64_t)rw * rh);
}

// ---- morphology -------------------------------------------------------------------
static void erode(const std::vector<unsigned char>& a, std::vector<unsigned char>& b, int r, int c, const unsigned char* k, int h, int w, bool dil)
{
	b = a;
	for (int i = h / 2; i + h / 2 < r; i++) for (int j = w / 2; j + w / 2 < c; j++) {
		size_t p = (size_t)i * c + j;
		if ((a[p] != 0) == dil) continue;
		for (int y = 0; y < h; y++) for (int x = 0; x < w; x++)
			if (k[y * w + x] == 1 && (a[(size_t)(i - h / 2 + y) * c + j - w / 2 + x] != 0) == dil) b[p] = dil;
	}
}
SC(morphology, 600, 0)
{
	Dim2 d = img(R, lim(R));
	int w = R.range(1, 5), h = R.range(1, 5), op = (int)R.u(4), it = R.range(1, 3);
	if (R.u(8) == 0) { w = R.range(1, 12); h = R.range(1, 12); }
	bool large = R.u(50) == 0;      // more members than a byte counts
	if (large) { w = R.range(15, 24); h = R.range(15, 24); d.r = R.range(h, h + 30); d.c = R.range(w, w + 30); it = 1; }
	if (R.p(60) && op > 1) it = 1;
	simple_mat m = in_u8(R, d);
	unwatch(m->data);
	if (R.p(80)) {     // dense enough for structures to matter
		int den = R.range(3, 97), v = R.p(60) ? 1 : 255;
		if (large && R.p(60)) { den = abs(100 - 25600 / (w * h)); if (R.p(50)) den = 100 - den; }   // about 256 of one kind below the structure
		for (size_t i = 0; i < (size_t)d.r * d.c; i++) U8(m)[i] = R.p(den) ? v : 0;
	}
	watch(m->data, (size_t)d.r * d.c, "image");
	S_2D s = create_2D_struct(w, h);
	REQ(s != NULL, "create_2D_struct returned NULL");
	unsigned char* k = (unsigned char*)s->data;
	if (R.p(large ? 20 : 50)) for (int q = 0; q < w * h; q++) k[q] = R.p(60);
	std::vector<unsigned char> kk(k, k + w * h);
	watch(k, w * h, "structure");
	bool fits = d.r >= h && d.c >= w;
	simple_mat o = fits ? out_sm(R, d, 1, 1) : out_sm_keep(R, d, 1, 1);
	std::vector<unsigned char> a(U8(m), U8(m) + (size_t)d.r * d.c), b, keep(U8(o), U8(o) + (fits ? 0 : (size_t)d.r * d.c));
	static const char* const N[4] = {"corrosion", "expend", "open", "close"};
	desc("%s of %dx%d with a structure of width %d height %d, %d times", N[op], d.r, d.c, w, h, op > 1 ? it : 1);
	sig(d.r); sig(d.c); sig(w * 100 + h); sig(op * 10 + it);
	seen("%s%s", N[op], fits ? "" : " with a too large structure");
	if (op == 0) hypercv_corrosion(m, o, s);
	else if (op == 1) hypercv_expend(m, o, s);
	else if (op == 2) hypercv_open(m, o, s, it);
	else hypercv_close(m, o, s, it);
	unwatch(k);
	bool kept = memcmp(kk.data(), k, w * h) == 0;
	delete_S_2D(s);
	if (!kept) fail("modified", "the structure of a morphology was changed");
	req_sm(o, d.r, d.c, 1, 1, N[op]);
	if (!fits) {
		if (op < 2) req_bytes(o->data, keep.data(), keep.size(), "image smaller than the structure");
		else skip();
		return;
	}
	if (op == 0) { erode(a, b, d.r, d.c, kk.data(), h, w, false); a = b; }
	else if (op == 1) { erode(a, b, d.r, d.c, kk.data(), h, w, true); a = b; }
	else for (int t = 0; t < it; t++) {
		erode(a, b, d.r, d.c, kk.data(), h, w, op == 3);
		erode(b, a, d.r, d.c, kk.data(), h, w, op != 3);
	}
	size_t changed = 0;
	for (size_t q = 0; q < a.size(); q++) {
		if (U8(o)[q] != a[q]) fail("value", "%s: row %zu col %zu of %dx%d is %d, not %d", N[op], q / d.c, q % d.c, d.r, d.c, U8(o)[q], a[q]);
		changed += a[q] != U8(m)[q];
	}
	if (changed) seen("%s changes pixels", N[op]);
	compared(a.size());
}

// ---- thresholds ---------------------------------------------------------------------
static const char* const TNAME[5] = {"binary", "binary_inv", "trunc", "tozero", "tozero_inv"};
SC(threshold, 500, 0)
{
	Dim2 d = img(R, lim(R));
	int type = (int)R.u(5), th = R.p(90) ? R.range(0, 255) : R.pick((const int[]){0, 255, -1, 256}), mx = R.range(0, 255);
	if (type == 2 && (th < 0 || th > 255)) th = R.range(0, 255);
	bool direct = R.p(50);
	simple_mat m = in_u8(R, d), o = out_sm(R, d, 1, 1);
	if (R.p(30)) th = U8(m)[R.u((size_t)d.r * d.c)];     // the tie
	desc("threshold %s of %dx%d at %d max %d", TNAME[type], d.r, d.c, th, mx);
	sig(d.r); sig(d.c); sig(type); sig(th + 10); sig(mx);
	seen("%s", TNAME[type]);
	if (!direct) hypercv_threshold(m, o, th, mx, type);
	else if (type == 0) hypercv_threshold_binary(m, o, th, mx);
	else if (type == 1) hypercv_threshold_binary_inv(m, o, th, mx);
	else if (type == 2) hypercv_threshold_trunc(m, o, th, mx);
	else if (type == 3) hypercv_threshold_tozero(m, o, th, mx);
	else hypercv_threshold_tozero_inv(m, o, th, mx);
	req_sm(o, d.r, d.c, 1, 1, TNAME[type]);
	bool eq = false;
	for (size_t q = 0; q < (size_t)d.r * d.c; q++) {
		int v = U8(m)[q], up = v > th, w = type == 0 ? (up ? mx : 0) : type == 1 ? (up ? 0 : mx) : type == 2 ? (up ? th : v) : type == 3 ? (up ? v : 0) : (up ? 0 : v);
		eq |= v == th;
		if (U8(o)[q] != w) fail("value", "%s at %d: pixel %d becomes %d, not %d", TNAME[type], th, v, U8(o)[q], w);
	}
	if (eq) seen("pixels equal to the threshold");
	compared((uint64_t)d.r * d.c);
}

static double between(const double* hist, double N, int T)
{
	double n0 = 0, s0 = 0, s = 0;
	for (int i = 0; i < 256; i++) { s += i * hist[i]; if (i <= T) { n0 += hist[i]; s0 += i * hist[i]; } }
	if (n0 == 0 || n0 == N) return 0;
	double u0 = s0 / n0, u1 = (s - s0) / (N - n0);
	return n0 / N * (1 - n0 / N) * (u0 - u1) * (u0 - u1);
}
SC(otsu, 400, 0)
{
	Dim2 d = img(R, lim(R));
	int ch = R.p(70) ? 1 : 3;
	simple_mat m = in_u8(R, d, ch);
	if (R.p(40)) {       // two modes
		unwatch(m->data);
		int a = R.range(0, 120), b = R.range(100, 255), sp = R.range(1, 40), den = R.range(5, 95);
		for (size_t q = 0; q < (size_t)d.r * d.c * ch; q++) { int v = (R.p(den) ? a : b) + R.range(-sp, sp); U8(m)[q] = v < 0 ? 0 : v > 255 ? 255 : v; }
		watch(m->data, (size_t)d.r * d.c * ch, "image");
		seen("two modes");
	}
	if (ch == 3) {       // no gray on a whole number, where the rounding of the weights decides
		unwatch(m->data);
		for (size_t q = 0; q < (size_t)d.r * d.c; q++) if ((U8(m)[q * 3] * 114 + U8(m)[q * 3 + 1] * 587 + U8(m)[q * 3 + 2] * 299) % 1000 == 0) U8(m)[q * 3 + 2] ^= 1;
		watch(m->data, (size_t)d.r * d.c * 3, "image");
	}
	desc("otsu of %dx%d channels %d", d.r, d.c, ch);
	sig(d.r); sig(d.c); sig(ch);
	int T = otsuThreshold(m);
	digest(&T, sizeof T);
	seen("channels %d", ch);
	REQ(T >= 0 && T <= 255, "otsu threshold %d", T);
	double hist[256] = {0}, N = (double)d.r * d.c, best = 0;
	for (size_t q = 0; q < (size_t)d.r * d.c; q++)
		hist[ch == 3 ? (U8(m)[q * 3] * 114 + U8(m)[q * 3 + 1] * 587 + U8(m)[q * 3 + 2] * 299) / 1000 : U8(m)[q]]++;
	for (int t = 0; t < 256; t++) best = std::max(best, between(hist, N, t));
	double g = between(hist, N, T);
	REQ(g >= best * (1 - 1e-9) - 1e-9, "the otsu threshold %d separates with variance %g, the best one with %g", T, g, best);
	if (best == 0) { REQ(ch == 3 || T == 0, "the otsu threshold of a constant image is %d", T); seen("constant image"); }
	compared();
	if (ch == 1) {
		simple_mat o = out_sm(R, d, 1, 1);
		if (R.p(50)) hypercv_threshold_otsu(m, o); else hypercv_threshold(m, o, R.range(0, 255), R.range(0, 255), 8);
		req_sm(o, d.r, d.c, 1, 1, "otsu");
		for (size_t q = 0; q < (size_t)d.r * d.c; q++)
			if (U8(o)[q] != (U8(m)[q] > T ? 255 : 0)) fail("value", "otsu: pixel %d becomes %d at threshold %d", U8(m)[q], U8(o)[q], T);
		compared((uint64_t)d.r * d.c);
	}
}

// ---- colours ----------------------------------------------------------------------
SC(to_rgb, 300, 0)
{
	Dim2 d = img(R, lim(R));
	bool bin = R.p(50);
	simple_mat m = in_u8(R, d);
	if (bin) { unwatch(m->data); for (size_t q = 0; q < (size_t)d.r * d.c; q++) U8(m)[q] &= 1; watch(m->data, (size_t)d.r * d.c, "image"); }
	desc("%s to rgb %dx%d", bin ? "binary" : "gray", d.r, d.c);
	sig(d.r); sig(d.c); sig(bin);
	seen("%s", bin ? "binary" : "gray");
	simple_mat o = own(bin ? sm_binary2rgb(m) : sm_gray2rgb(m));
	req_sm(o, d.r, d.c, 1, 3, "rgb");
	for (size_t q = 0; q < (size_t)d.r * d.c * 3; q++) {
		int w = U8(m)[q / 3] * (bin ? 255 : 1);
		if (U8(o)[q] != w) fail("value", "%s to rgb: pixel %zu channel %zu is %d, not %d", bin ? "binary" : "gray", q / 3, q % 3, U8(o)[q], w);
	}
	compared((uint64_t)d.r * d.c * 3);
}
SC(rgb_gray, 400, 0)
{
	Dim2 d = img(R, lim(R));
	int method = (int)R.u(3);
	simple_mat m = in_u8(R, d, 3);
	desc("rgb to gray %dx%d method %d", d.r, d.c, method);
	sig(d.r); sig(d.c); sig(method);
	seen("method %d", method);
	simple_mat o = own(sm_rgb2gray(m, method));
	req_sm(o, d.r, d.c, 1, 1, "gray");
	for (size_t q = 0; q < (size_t)d.r * d.c; q++) {
		const unsigned char* p = U8(m) + 3 * q;
		int g = U8(o)[q];
		bool ok;
		if (method == 0) ok = g == (2 * (p[0] + p[1] + p[2]) + 3) / 6;
		else if (method == 1) ok = g == std::max(p[0], std::max(p[1], p[2]));
		else { int t = p[0] * 299 + p[1] * 587 + p[2] * 114; ok = g == t / 1000 || (t % 1000 == 0 && t && g == t / 1000 - 1); }
		if (!ok) fail("value", "rgb to gray method %d: (%d,%d,%d) becomes %d", method, p[0], p[1], p[2], g);
	}
	compared((uint64_t)d.r * d.c);
}
SC(bgr_rgb, 250, 0)
{
	Dim2 d = img(R, lim(R));
	simple_mat m = in_u8(R, d, 3), o = out_sm(R, d, 1, 3);
	desc("bgr to rgb %dx%d", d.r, d.c);
	sig(d.r); sig(d.c);
	sm_bgr2rgb(m, o);
	req_sm(o, d.r, d.c, 1, 3, "rgb");
	for (size_t q = 0; q < (size_t)d.r * d.c; q++)
		for (int k = 0; k < 3; k++)
			if (U8(o)[q * 3 + k] != U8(m)[q * 3 + 2 - k]) fail("value", "bgr to rgb: pixel %zu channel %d is %d, not %d", q, k, U8(o)[q * 3 + k], U8(m)[q * 3 + 2 - k]);
	compared((uint64_t)d.r * d.c * 3);
}

// ---- statistics -------------------------------------------------------------------
static const int REAL_TYPES[9] = {1, 2, 3, 4, 5, 12, 13, 14, 15};
static long double elem(simple_mat m, size_t q)
{
	switch (m->data_type) {
	case 1: return U8(m)[q];
	case 2: return ((short*)m->data)[q];
	case 3: return ((int*)m->data)[q];
	case 4: return F32(m)[q];
	case 5: return ((double*)m->data)[q];
	case 12: return ((unsigned short*)m->data)[q];
	case 13: return ((unsigned*)m->data)[q];
	case 14: return ((long*)m->data)[q];
	default: return ((unsigned long*)m->data)[q];
	}
}
SC(img_mean_var, 500, 0)
{
	Dim2 d = img(R, lim(R));
	int type = R.pick(REAL_TYPES);
	simple_mat m = in_sm(R, d, type, 1);
	if (R.p(50) && type != 4 && type != 5) {      // small values, where a lost element shows
		unwatch(m->data);
		int hi = R.range(1, 100);
		for (size_t q = 0; q < (size_t)d.r * d.c; q++) {
			int v = R.range(0, hi);
			if (esize(type) == 1) U8(m)[q] = v; else if (esize(type) == 2) ((short*)m->data)[q] = v;
			else if (esize(type) == 4) ((int*)m->data)[q] = v; else ((long*)m->data)[q] = v;
		}
		watch(m->data, (size_t)d.r * d.c * esize(type), "image");
	}
	else if (R.p(40)) {                           // nearly even and bright, where the mean has to be precise
		unwatch(m->data);
		int hi = R.range(1, 100);
		double base = type == 5 || esize(type) == 8 ? R.real(1e6, 1e9) : type == 4 ? R.real(1e3, 1e5) : esize(type) == 4 ? R.real(1e6, 2e9) : esize(type) == 2 ? R.real(1e4, 3e4) : 150;
		for (size_t q = 0; q < (size_t)d.r * d.c; q++) {
			double v = floor(base) + R.range(0, hi);
			if (type == 4) F32(m)[q] = (float)v; else if (type == 5) ((double*)m->data)[q] = v;
			else if (esize(type) == 1) U8(m)[q] = (unsigned char)v; else if (esize(type) == 2) ((short*)m->data)[q] = (short)v;
			else if (esize(type) == 4) ((int*)m->data)[q] = (int)v; else ((long*)m->data)[q] = (long)v;
		}
		watch(m->data, (size_t)d.r * d.c * esize(type), "image");
		seen("nearly even and bright");
	}
	size_t n = (size_t)d.r * d.c;
	desc("mean and variance of %dx%d type %d", d.r, d.c, type);
	sig(d.r); sig(d.c); sig(type);
	seen("type %d", type);
	float g = simple_mat_mean(m), v = simple_mat_variance(m);
	digest(&g, sizeof g); digest(&v, sizeof v);
	long double s = 0, a = 0, mx = 0;
	for (size_t q = 0; q < n; q++) { long double x = elem(m, q); s += x; a += fabsl(x); mx = std::max(mx, fabsl(x)); }
	long double mean = s / n;
	REQ(fabsl(g - mean) <= 2e-7L * fabsl(mean) + 1e-11L * (a / n) + 1e-30L, "the mean of %dx%d type %d is %.9g, not %.9Lg", d.r, d.c, type, g, mean);
	long double t = 0;
	for (size_t q = 0; q < n; q++) { long double x = elem(m, q) - mean; t += x * x; }
	t /= n;
	// what rounding the mean to double leaves
	long double em = 1e-13L * mx, tol = 2e-6L * t + em * em + 4 * em * sqrtl(t);
	REQ(fabsl(v - t) <= tol + 1e-30L, "the variance of %dx%d type %d is %.9g, not %.9Lg", d.r, d.c, type, v, t);
	compared(2);
}
static void gray_of(simple_mat m, std::vector<int>& g)
{
	size_t n = (size_t)m->rows * m->cols;
	g.resize(n);
	for (size_t q = 0; q < n; q++)
		g[q] = m->channels == 1 ? U8(m)[q] : (2 * (U8(m)[3 * q] + U8(m)[3 * q + 1] + U8(m)[3 * q + 2]) + 3) / 6;
}
SC(img_stats, 500, 0)
{
	Dim2 d = img(R, lim(R));
	int ch = R.p(60) ? 1 : 3;
	simple_mat m = in_u8(R, d, ch);
	size_t n = (size_t)d.r * d.c;
	desc("histogram, contrast, entropy of %dx%d channels %d", d.r, d.c, ch);
	sig(d.r); sig(d.c); sig(ch);
	seen("channels %d", ch);
	std::vector<int> g;
	gray_of(m, g);
	int* hist = raw<int>(256);
	fill_bytes(R, hist, 256 * sizeof(int));
	poison_uninit(hist, 256 * sizeof(int));
	simple_mat_grayscale_statistics(m, hist);
	need_init(hist, 256 * sizeof(int), "histogram");
	digest(hist, 256 * sizeof(int));
	int want[256] = {0};
	for (size_t q = 0; q < n; q++) want[g[q]]++;
	long total = 0;
	for (int i = 0; i < 256; i++) { REQ(hist[i] == want[i], "the histogram counts %d pixels of gray %d, not %d", hist[i], i, want[i]); total += hist[i]; }
	REQ(total == (long)n, "the histogram counts %ld of %zu pixels", total, n);
	compared(256);
	double e = 0;
	for (int i = 0; i < 256; i++) if (want[i]) { double p = (double)want[i] / n; e -= p * log2(p); }
	float ge = simple_mat_entropy(m);
	digest(&ge, sizeof ge);
	REQ(fabs(ge - e) <= 1e-4, "the entropy is %g, not %g", ge, e);
	double c = 0;
	size_t pairs = 0;
	for (int i = 0; i < d.r; i++) for (int j = 0; j < d.c; j++) {
		if (j) { double x = g[(size_t)i * d.c + j] - g[(size_t)i * d.c + j - 1]; c += x * x; pairs++; }
		if (i) { double x = g[(size_t)i * d.c + j] - g[(size_t)(i - 1) * d.c + j]; c += x * x; pairs++; }
	}
	if (pairs) c /= pairs;
	float gc = simple_mat_contrast_ratio(m);
	digest(&gc, sizeof gc);
	REQ(fabs(gc - c) <= 1e-6 * c + 1e-9, "the contrast of %dx%d is %g, not %g", d.r, d.c, gc, c);
	if (d.r == 1 || d.c == 1) seen("one row or column");
	compared(2);
}
