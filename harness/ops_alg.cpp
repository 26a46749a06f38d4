// Equalization, stretching, normalization, clustering, shape, Fourier, detection, components, drawing, vectors.
#include "h.h"
#include <algorithm>
#include <setjmp.h>
#include <signal.h>
#include <sys/time.h>
#include <time.h>
extern "C" {
#include "c_include/vector.h"
}

static size_t lim(Rng& R) { int k = (int)R.u(40); return k == 0 ? (R.u(50) == 0 ? 1200000 : 90000) : k < 6 ? 20000 : 2500; }

// ---- equalization and stretching --------------------------------------------------
SC(his_equal, 700, 0)
{
	Dim2 d = dim2(R, lim(R));
	simple_mat m = in_u8(R, d), o = out_sm(R, d, 1, 1);
	long n = (long)d.r * d.c;
	desc("histogram equalization of %dx%d", d.r, d.c);
	sig(d.r); sig(d.c);
	HisEqualization(m, o);
	req_sm(o, d.r, d.c, 1, 1, "equalization");
	long h[256] = {0};
	for (long q = 0; q < n; q++) h[U8(m)[q]]++;
	int used = 0;
	for (int i = 0; i < 256; i++) used += h[i] > 0;
	seen("%s", used == 1 ? "constant image" : used == 2 ? "two grays" : used < 20 ? "few grays" : "many grays");
	for (int i = 1; i < 256; i++) h[i] += h[i - 1];
	for (long q = 0; q < n; q++) {
		int w = (int)(h[U8(m)[q]] * 255 / n);
		if (U8(o)[q] != w) fail("value", "equalization of %dx%d: gray %d becomes %d, not %d", d.r, d.c, U8(m)[q], U8(o)[q], w);
	}
	compared(n);
}
SC(stretch, 700, 0)
{
	Dim3 d = dim3(R, lim(R));
	hyper_mat m = in_hm(R, d, 4, "bsq", false), o = out_hm(R, d, 1, "bsq");
	size_t n = (size_t)d.S * d.L;
	for (int k = 0; k < d.B; k++) {
		float* p = F32(m) + k * n;
		int kind = (int)R.u(7);
		double a = R.pick((const double[]){0, 0, -1, 1, -1000, 1000, 1e6, -1e7}), w = R.pick((const double[]){1, 2, 255, 1000, 1e5});
		seen("band kind %d", kind);
		for (size_t q = 0; q < n; q++)
			p[q] = (float)(kind == 0 ? a : kind == 1 ? R.range(0, 1) : kind == 2 ? R.range(-3, 3) : kind == 3 ? a + R.range(0, 255) : a + R.real(0, w));
		if (kind == 4 && n > 1) p[R.u(n)] = 0;
		if (kind == 5 && R.p(50)) fill_f32(R, p, n, -w, w);
		spice(R, p, n);
	}
	watch_hm(m, "hyper mat");
	desc("stretch samples=%d lines=%d bands=%d", d.S, d.L, d.B);
	sig(d.S); sig(d.L); sig(d.B);
	hyper_mat_linear_tension(m, o);
	req_hm(o, d.S, d.L, d.B, 1, "bsq", "stretch");
	for (int k = 0; k < d.B; k++) {
		const float* p = F32(m) + k * n;
		double lo = p[0], hi = p[0];
		for (size_t q = 0; q < n; q++) { lo = std::min(lo, (double)p[q]); hi = std::max(hi, (double)p[q]); }
		for (size_t q = 0; q < n; q++) {
			double s = hi > lo ? 255 / (hi - lo) : 0, v = hi > lo ? (p[q] - lo) * s : 0, tol = 1e-6 * (fabs(p[q] * s) + fabs(lo * s) + 1);
			int g = ((unsigned char*)o->data)[k * n + q];
			bool ok = false;
			for (int t = -1; t <= 1; t++) {
				int r = (int)floor(v + t * tol);
				ok |= g == (r <= 0 ? (p[q] == 0 ? 0 : 1) : r >= 255 ? 255 : r);
			}
			if (tol > 1) { int r = (int)floor(v); ok |= abs(g - r) <= tol + 1; }
			if (!ok) fail("value", "stretch of band %d of %dx%dx%d: %g in [%g,%g] becomes %d, not %d", k, d.S, d.L, d.B, p[q], lo, hi, g, (int)floor(v));
		}
	}
	compared(n * d.B);
}

// ---- normalization -----------------------------------------------------------------
SC(normalize, 1200, 0)
{
	static const int N[4] = {NORM_INF, NORM_L1, NORM_L2, NORM_MINMAX};
	static const char* const NN[4] = {"INF", "L1", "L2", "MINMAX"};
	Dim2 d = dim2(R, lim(R));
	bool f = R.p(50), direct = R.p(40);
	int k = (int)R.u(4);
	size_t n = (size_t)d.r * d.c;
	double sc = R.pick((const double[]){1, 255, 1e4, 1e-3});
	simple_mat m = f ? in_f32(R, d, 1, R.p(50) ? 0 : -sc, sc) : in_u8(R, d);
	simple_mat o = out_sm(R, d, f ? 4 : 1, 1);
	static const float A[] = {1, 255, 0, 100, -50, 300, 1000, 50000};
	float al = R.p(60) ? R.pick(A) : (float)R.real(-100, 400), be = R.p(60) ? R.pick(A) : (float)R.real(-100, 400);
	desc("normalize %s %dx%d %s alpha %g beta %g%s", f ? "float" : "uchar", d.r, d.c, NN[k], al, be, direct ? " (typed call)" : "");
	sig(d.r); sig(d.c); sig(f * 4 + k); sig((uint64_t)(int64_t)(al * 100)); sig((uint64_t)(int64_t)(be * 100));
	seen("%s %s", f ? "float" : "uchar", NN[k]);
	if (!direct) hypercv_normalize(m, o, al, be, N[k]);
	else if (f) hypercv_normalize_float(m, o, al, be, N[k]);
	else hypercv_normalize_uchar(m, o, al, be, N[k]);
	req_sm(o, d.r, d.c, f ? 4 : 1, 1, "normalized");
	std::vector<double> x(n);
	double l1 = 0, l2 = 0, mx = -1e300, mn = 1e300, inf = 0;
	for (size_t q = 0; q < n; q++) {
		x[q] = f ? (double)F32(m)[q] : U8(m)[q];
		l1 += fabs(x[q]); l2 += x[q] * x[q]; mx = std::max(mx, x[q]); mn = std::min(mn, x[q]); inf = std::max(inf, fabs(x[q]));
	}
	l2 = sqrt(l2);
	double b = std::max(al, be), a = std::min(al, be);
	for (size_t q = 0; q < n; q++) {
		double w, norm = k == 0 ? inf : k == 1 ? l1 : l2, mag;
		if (k < 3) { w = norm > 0 ? x[q] * al / norm : 0; mag = fabs(w); }
		else { double t = mx > mn ? (x[q] - mn) * (b - a) / (mx - mn) : 0; w = t + a; mag = fabs(t) + fabs(a); }
		if (f) { if (!(fabs(F32(o)[q] - w) <= 2e-6 * mag)) fail("value", "normalize float %s: %g becomes %.9g, not %.9g", NN[k], x[q], F32(o)[q], w); }
		else {
			double c = w < 0 ? 0 : w > 255 ? 255 : w;
			if (!(fabs(U8(o)[q] - c) <= 0.5 + 2e-6 * mag)) fail("value", "normalize uchar %s: %g becomes %d, not %g", NN[k], x[q], U8(o)[q], c);
		}
	}
	if (k < 3 && (k == 0 ? inf : k == 1 ? l1 : l2) == 0) seen("zero norm");
	if (k == 3 && mx == mn) seen("constant image");
	compared(n);
}

// ---- clustering ------------------------------------------------------------------
// the clock only selects the first centres: every case has its own time
static thread_local time_t g_now = 0;
extern "C" time_t __wrap_time(time_t* t)
{
	time_t n = g_now ? g_now : 1700000000;
	if (t) *t = n;
	return n;
}
static sigjmp_buf g_jump;
static volatile sig_atomic_t g_armed = 0;
static void on_slow(int) { if (g_armed) { g_armed = 0; siglongjmp(g_jump, 1); } }
// false when the call did not return within the time
static bool kmeans_limited(simple_mat m, POINT* v, int kind, int th)
{
	struct sigaction sa, old;
	memset(&sa, 0, sizeof sa);
	sa.sa_handler = on_slow;
	sigaction(SIGVTALRM, &sa, &old);
	struct itimerval t = {{0, 0}, {5, 0}}, z = {{0, 0}, {0, 0}};
	bool ok = true;
	if (sigsetjmp(g_jump, 1) == 0) {
		g_armed = 1;
		setitimer(ITIMER_VIRTUAL, &t, NULL);
		hypercv_k_means(m, v, kind, th);
		g_armed = 0;
	} else ok = false;
	setitimer(ITIMER_VIRTUAL, &z, NULL);
	sigaction(SIGVTALRM, &old, NULL);
	return ok;
}
SC(k_means, 700, F_NOTHREAD | F_NORERUN | F_NOOM)
{
	Dim2 d = dim2(R, R.u(8) ? 400 : 1500);
	int ch = R.p(80) ? 1 : 3, kind = R.range(1, 5), th = R.p(70) ? 0 : R.range(1, 5);
	if (R.u(20) == 0) kind = R.u(5) ? R.range(6, 20) : R.range(20, 300);
	simple_mat m = in_sm(R, d, 1, ch, false);
	size_t n = (size_t)d.r * d.c;
	int mode = (int)R.u(5);
	if (mode) {                                  // sparse points, blobs, empty
		memset(m->data, 0, n * ch);
		int pts = mode == 1 ? R.range(0, 12) : mode == 4 ? 0 : R.range(1, 6);
		for (int p = 0; p < pts; p++) {
			int y = (int)R.u(d.r), x = (int)R.u(d.c), h = mode == 1 ? 0 : R.range(0, 4);
			for (int i = std::max(0, y - h); i <= std::min(d.r - 1, y + h); i++) for (int j = std::max(0, x - h); j <= std::min(d.c - 1, x + h); j++)
				for (int k = 0; k < ch; k++) U8(m)[((size_t)i * d.c + j) * ch + k] = (unsigned char)R.range(3, 255);
		}
	}
	watch_sm(m, "image");
	std::vector<char> on(n);
	size_t lit = 0;
	for (size_t q = 0; q < n; q++) { const unsigned char* p = U8(m) + q * ch; on[q] = ch == 1 ? p[0] != 0 : (2 * (p[0] + p[1] + p[2]) + 3) / 6 != 0; lit += on[q]; }
	desc("k-means of %dx%d channels %d, %zu points, %d kinds, threshold %d", d.r, d.c, ch, lit, kind, th);
	sig(d.r); sig(d.c); sig(kind * 10 + th); sig(lit); sig(ch);
	seen("%s", lit == 0 ? "no points" : lit < (size_t)kind ? "fewer points than clusters" : "points");
	seen("threshold %s", th ? "positive" : "0");
	POINT* v = NULL;
	POINT zero = {-7, -7};
	vector_init(v, zero, (size_t)kind);
	g_now = (time_t)R.range(1, 2000000000);
	bool ok = kmeans_limited(m, v, kind, th);
	g_now = 0;
	std::vector<POINT> c;
	for (int k = 0; k < kind; k++) c.push_back(v[k]);
	size_t sz = vector_size(v);
	vector_free(v);
	if (!ok) fail("hang", "k-means of %dx%d with %d clusters does not return", d.r, d.c, kind);
	REQ(sz == (size_t)kind, "k-means changed the number of centres to %zu", sz);
	compared(kind);
	for (int k = 0; k < kind; k++)
		REQ(c[k].x >= 0 && c[k].x < d.c && c[k].y >= 0 && c[k].y < d.r, "k-means: centre %d of %dx%d is (%d,%d)", k, d.r, d.c, c[k].x, c[k].y);
	if (th) return;
	// where the centres go: they stay, or pass through a circle of truncated means
	std::vector<POINT> at = c, pts;
	for (int i = 0; i < d.r; i++) for (int j = 0; j < d.c; j++) if (on[(size_t)i * d.c + j]) { POINT p = {j, i}; pts.push_back(p); }
	for (int step = 0; step < 1000; step++) {
		std::vector<long> sx(kind, 0), sy(kind, 0), num(kind, 0);
		for (size_t p = 0; p < pts.size(); p++) {
			int b = 0;
			long best = -1;
			for (int k = 0; k < kind; k++) { long x = at[k].x - pts[p].x, y = at[k].y - pts[p].y, e = x * x + y * y; if (best < 0 || e < best) { best = e; b = k; } }
			sx[b] += pts[p].x; sy[b] += pts[p].y; num[b]++;
		}
		bool back = true;
		int off = 0;
		for (int k = 0; k < kind; k++) {
			at[k].x = (int)(num[k] ? sx[k] / num[k] : 0); at[k].y = (int)(num[k] ? sy[k] / num[k] : 0);
			if (at[k].x != c[k].x || at[k].y != c[k].y) { back = false; off = k; }
			if (!num[k] && step == 0) seen("cluster without points");
		}
		if (back) { seen("%s", step ? "circle of centres" : "centres at rest"); return; }
		if (step == 999 || pts.empty()) fail("value", "k-means: centre %d of %dx%d is (%d,%d), the mean of its %ld points (%d,%d)", off, d.r, d.c, c[off].x, c[off].y, num[off], at[off].x, at[off].y);
	}
}

// ---- Hu moments ---------------------------------------------------------------------
static void hu_ref(simple_mat m, long double* hu, long double* mag)
{
	int r = m->rows, c = m->cols;
	long double s = 0, sx = 0, sy = 0;
	for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) { long double v = U8(m)[(size_t)i * c + j]; s += v; sx += v * j; sy += v * i; }
	for (int q = 0; q < 7; q++) hu[q] = mag[q] = 0;
	if (s == 0) return;
	int cx = (int)((double)sx / (double)s + 0.5), cy = (int)((double)sy / (double)s + 0.5);
	long double M[4][4] = {{0}}, A[4][4] = {{0}};
	for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) {
		long double v = U8(m)[(size_t)i * c + j], x = j - cx, y = i - cy;
		if (v == 0) continue;
		long double px[4] = {1, x, x * x, x * x * x}, py[4] = {1, y, y * y, y * y * y};
		for (int a = 0; a < 4; a++) for (int b = 0; a + b < 4; b++) { M[a][b] += px[a] * py[b] * v; A[a][b] += fabsl(px[a] * py[b] * v); }
	}
	for (int a = 0; a < 4; a++) for (int b = 0; a + b < 4; b++) { long double p = powl(s, 1 + (a + b) / 2.0L); M[a][b] /= p; A[a][b] /= p; }
	for (int t = 0; t < 2; t++) {
		long double (*u)[4] = t ? A : M;
		long double sg = t ? 1 : -1;
		long double t1 = u[2][0] + sg * u[0][2], t2 = u[3][0] + sg * 3 * u[1][2], t3 = 3 * u[2][1] + sg * u[0][3], t4 = u[3][0] + u[1][2], t5 = u[2][1] + u[0][3], u11 = u[1][1];
		long double* h = t ? mag : hu;
		h[0] = u[2][0] + u[0][2];
		h[1] = t1 * t1 + 4 * u11 * u11;
		h[2] = t2 * t2 + t3 * t3;
		h[3] = t4 * t4 + t5 * t5;
		h[4] = t2 * t4 * (t4 * t4 + sg * 3 * t5 * t5) + t3 * t5 * (3 * t4 * t4 + sg * t5 * t5);
		h[5] = t1 * (t4 * t4 + sg * t5 * t5) + 4 * u11 * t4 * t5;
		h[6] = t3 * t4 * (t4 * t4 + sg * 3 * t5 * t5) + sg * t2 * t5 * (3 * t4 * t4 + sg * t5 * t5);
	}
}
static simple_mat shape(Rng& R, Dim2 d)
{
	simple_mat m = in_u8(R, d);
	if (R.p(60)) {
		unwatch(m->data);
		memset(m->data, 0, (size_t)d.r * d.c);
		for (int p = R.range(0, 4); p > 0; p--) {
			int y0 = (int)R.u(d.r), x0 = (int)R.u(d.c), y1 = std::min(d.r, y0 + R.range(1, 8)), x1 = std::min(d.c, x0 + R.range(1, 8)), v = R.p(50) ? 1 : R.range(1, 255);
			for (int i = y0; i < y1; i++) for (int j = x0; j < x1; j++) U8(m)[(size_t)i * d.c + j] = (unsigned char)v;
		}
		watch(m->data, (size_t)d.r * d.c, "image");
	}
	return m;
}
SC(hu_moments, 600, 0)
{
	Dim2 d = dim2(R, lim(R));
	simple_mat m = shape(R, d);
	double* hu = raw<double>(7);
	fill_bytes(R, hu, 56);
	poison_uninit(hu, 56);
	desc("Hu moments of %dx%d", d.r, d.c);
	sig(d.r); sig(d.c); sig(U8(m)[0]); sig(U8(m)[(size_t)d.r * d.c / 2]);
	calc_hu_moment(hu, m);
	need_init(hu, 56, "Hu moments");
	digest(hu, 56);
	long double w[7], mag[7];
	hu_ref(m, w, mag);
	seen("%s", mag[0] == 0 ? "nothing or one point" : "shape");
	for (int q = 0; q < 7; q++)
		if (!(fabsl(hu[q] - w[q]) <= 1e-9L * mag[q] + 1e-300L)) fail("value", "Hu moment %d of %dx%d is %.12g, not %.12Lg", q, d.r, d.c, hu[q], w[q]);
	compared(7);
	// the same shape elsewhere has the same moments
	Dim2 e = {d.r + R.range(0, 5), d.c + R.range(0, 5)};
	if ((size_t)e.r * e.c > 40000) return;
	int oy = R.range(0, e.r - d.r), ox = R.range(0, e.c - d.c);
	simple_mat m2 = in_sm(R, e, 1, 1, false);
	memset(m2->data, 0, (size_t)e.r * e.c);
	for (int i = 0; i < d.r; i++) memcpy(U8(m2) + (size_t)(i + oy) * e.c + ox, U8(m) + (size_t)i * d.c, d.c);
	double* h2 = raw<double>(7);
	calc_hu_moment(h2, m2);
	long double w2[7], mag2[7];
	hu_ref(m2, w2, mag2);
	for (int q = 0; q < 7; q++)
		if (!(fabsl(h2[q] - w2[q]) <= 1e-9L * mag2[q] + 1e-300L)) fail("value", "Hu moment %d of the moved shape is %.12g, not %.12Lg", q, h2[q], w2[q]);
	seen("moved shape");
	compared(7);
}
SC(match_shapes, 500, 0)
{
	Dim2 d = dim2(R, lim(R) / 2 + 50), e = R.p(50) ? d : dim2(R, 1200);
	simple_mat a = shape(R, d), b = shape(R, e);
	desc("match of shapes %dx%d and %dx%d", d.r, d.c, e.r, e.c);
	sig(d.r); sig(d.c); sig(e.r); sig(e.c); sig(U8(a)[0]); sig(U8(b)[0]);
	long double x[7], y[7], mx[7], my[7], n1 = 0, n2 = 0, err = 0;
	hu_ref(a, x, mx); hu_ref(b, y, my);
	for (int q = 0; q < 7; q++) { n1 += fabsl(x[q] - y[q]); n2 += fabsl(x[q] + y[q]); err += mx[q] + my[q]; }
	double g = hypercv_match_shapes(a, b), h = hypercv_match_shapes(b, a), s = hypercv_match_shapes(a, a);
	double all[3] = {g, h, s};
	digest(all, sizeof all);
	REQ(s == 1, "a shape of %dx%d matches itself by %.17g", d.r, d.c, s);
	REQ(fabs(g - h) <= 1e-12, "the match is %.17g one way and %.17g the other", g, h);
	compared(2);
	if (n2 == 0) { REQ(g == 1, "two empty shapes match by %g", g); seen("no shape in either"); return; }
	long double w = 1 - n1 / n2, tol = 4e-9L * err / n2 + 1e-12L;
	if (tol > 0.01L) skip();
	REQ(fabsl(g - w) <= tol, "the shapes match by %.12g, not %.12Lg", g, w);
	seen("two shapes");
}

// ---- Fourier ----------------------------------------------------------------------
static Dim2 fdim(Rng& R)
{
	Dim2 d = {R.range(1, 12), R.range(1, 12)};
	if (R.u(6) == 0) { d.r = R.range(1, 22); d.c = R.range(1, 22); }
	if (R.u(15) == 0) { d.r = R.range(1, 2); d.c = R.range(1, 150); if (R.p(50)) std::swap(d.r, d.c); }
	return d;
}
static double value(simple_mat m, size_t q) { return m->data_type == 1 ? U8(m)[q] : m->data_type == 12 ? ((unsigned short*)m->data)[q] : F32(m)[q]; }
// sum over (x,y) of (re + i im) e^{sign 2 pi i (ix/r + jy/c)}
static void transform(const std::vector<double>& re, const std::vector<double>& im, int r, int c, int sign, std::vector<double>& ore, std::vector<double>& oim)
{
	std::vector<double> cr(r), sr(r), cc(c), sc(c);
	for (int k = 0; k < r; k++) { cr[k] = cos(2 * M_PI * k / r); sr[k] = sign * sin(2 * M_PI * k / r); }
	for (int k = 0; k < c; k++) { cc[k] = cos(2 * M_PI * k / c); sc[k] = sign * sin(2 * M_PI * k / c); }
	std::vector<double> tr((size_t)r * c), ti((size_t)r * c);
	ore.assign((size_t)r * c, 0); oim = ore;
	for (int x = 0; x < r; x++) for (int j = 0; j < c; j++) {
		double a = 0, b = 0;
		for (int y = 0; y < c; y++) { int k = (int)((long)j * y % c); double p = re[x * c + y], q = im[x * c + y]; a += p * cc[k] - q * sc[k]; b += p * sc[k] + q * cc[k]; }
		tr[x * c + j] = a; ti[x * c + j] = b;
	}
	for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) {
		double a = 0, b = 0;
		for (int x = 0; x < r; x++) { int k = (int)((long)i * x % r); double p = tr[x * c + j], q = ti[x * c + j]; a += p * cr[k] - q * sr[k]; b += p * sr[k] + q * cr[k]; }
		ore[i * c + j] = a; oim[i * c + j] = b;
	}
}
static double dft_eps(Dim2 d) { return 2 * M_PI * (d.r + d.c) * 2e-7 + (double)d.r * d.c * 1.2e-7 + 1e-6; }
SC(dft, 500, 0)
{
	Dim2 d = fdim(R);
	size_t n = (size_t)d.r * d.c;
	int type = R.p(50) ? 1 : 12;
	bool direct = R.p(40);
	simple_mat m = in_sm(R, d, type, 1), re = out_sm(R, d, 4, 1), im = out_sm(R, d, 4, 1);
	desc("dft of %dx%d type %d", d.r, d.c, type);
	sig(d.r); sig(d.c); sig(type); sig(direct);
	seen("type %d", type);
	if (!direct) hypercv_dft(m, re, im); else if (type == 1) hypercv_dft_uchar(m, re, im); else hypercv_dft_ushort(m, re, im);
	req_sm(re, d.r, d.c, 4, 1, "dft"); req_sm(im, d.r, d.c, 4, 1, "dft");
	std::vector<double> x(n), z(n, 0), wr, wi;
	double a = 0;
	for (size_t q = 0; q < n; q++) { x[q] = value(m, q); a += x[q]; }
	transform(x, z, d.r, d.c, -1, wr, wi);
	double tol = a * dft_eps(d) + 1e-6;
	for (size_t q = 0; q < n; q++) {
		REQ(fabs(F32(re)[q] - wr[q]) <= tol, "dft of %dx%d: the real part of frequency (%zu,%zu) is %g, not %g", d.r, d.c, q / d.c, q % d.c, F32(re)[q], wr[q]);
		REQ(fabs(F32(im)[q] - wi[q]) <= tol, "dft of %dx%d: the imaginary part of frequency (%zu,%zu) is %g, not %g", d.r, d.c, q / d.c, q % d.c, F32(im)[q], wi[q]);
	}
	compared(2 * n);
	// magnitude
	simple_mat mg = out_sm(R, d, 4, 1);
	hypercv_magnitude(re, im, mg);
	req_sm(mg, d.r, d.c, 4, 1, "magnitude");
	for (size_t q = 0; q < n; q++) {
		double w = sqrt((double)F32(re)[q] * F32(re)[q] + (double)F32(im)[q] * F32(im)[q]);
		REQ(fabs(F32(mg)[q] - w) <= 1e-6 * w, "magnitude %zu is %g, not %g", q, F32(mg)[q], w);
	}
	compared(n);
	// and back
	simple_mat back = out_sm(R, d, type, 1);
	if (!direct) hypercv_idft(re, im, back); else if (type == 1) hypercv_idft_uchar(re, im, back); else hypercv_idft_ushort(re, im, back);
	req_sm(back, d.r, d.c, type, 1, "inverse dft");
	double bt = 0.5 + 2 * a * dft_eps(d);
	if (bt > 1) seen("roundtrip beyond float precision");
	for (size_t q = 0; q < n; q++)
		REQ(fabs(value(back, q) - x[q]) < bt, "dft and back of %dx%d type %d: pixel %zu is %g, not %g", d.r, d.c, type, q, value(back, q), x[q]);
	compared(n);
}
SC(idft, 400, 0)
{
	Dim2 d = fdim(R);
	size_t n = (size_t)d.r * d.c;
	int type = R.p(50) ? 1 : 12;
	double sc = type == 1 ? 255 : 65535;
	simple_mat re = in_f32(R, d, 1, -sc, sc), im = in_f32(R, d, 1, -sc, sc), o = out_sm(R, d, type, 1);
	std::vector<double> x(n), y(n), wr, wi;
	if (R.p(60)) { unwatch(re->data); F32(re)[0] += (float)(sc * 0.5 * n); watch(re->data, n * 4, "real part"); }
	double a = 0;
	for (size_t q = 0; q < n; q++) { x[q] = F32(re)[q]; y[q] = F32(im)[q]; a += fabs(x[q]) + fabs(y[q]); }
	desc("inverse dft of %dx%d type %d", d.r, d.c, type);
	sig(d.r); sig(d.c); sig(type);
	seen("type %d", type);
	hypercv_idft(re, im, o);
	req_sm(o, d.r, d.c, type, 1, "inverse dft");
	transform(x, y, d.r, d.c, 1, wr, wi);
	for (size_t q = 0; q < n; q++) {
		double w = wr[q] / n, c = w < 0 ? 0 : w > sc ? sc : w;
		if (w < 0) seen("clipped below"); else if (w > sc) seen("clipped above");
		REQ(fabs(value(o, q) - c) <= 0.5 + a / n * dft_eps(d), "inverse dft of %dx%d type %d: pixel %zu is %g, not %g", d.r, d.c, type, q, value(o, q), w);
	}
	compared(n);
}
SC(dft_spectrum, 400, 0)
{
	Dim2 d = fdim(R);
	size_t n = (size_t)d.r * d.c;
	simple_mat m = in_u8(R, d), o = out_sm(R, d, 1, 1);
	desc("spectrum of %dx%d", d.r, d.c);
	sig(d.r); sig(d.c); sig(U8(m)[0]);
	hypercv_dft_frespectrum(m, o);
	req_sm(o, d.r, d.c, 1, 1, "spectrum");
	std::vector<double> x(n), z(n, 0), wr, wi;
	double a = 0;
	for (int i = 0; i < d.r; i++) for (int j = 0; j < d.c; j++) { double v = U8(m)[i * d.c + j]; a += v; x[i * d.c + j] = (i + j) & 1 ? -v : v; }
	transform(x, z, d.r, d.c, -1, wr, wi);
	for (size_t q = 0; q < n; q++) {
		double w = sqrt(wr[q] * wr[q] + wi[q] * wi[q]) / sqrt((double)n);
		if (w > 255) { w = 255; seen("saturated"); }
		REQ(fabs(U8(o)[q] - w) <= 0.5 + a / sqrt((double)n) * 2 * dft_eps(d), "spectrum of %dx%d: (%zu,%zu) is %d, not %g", d.r, d.c, q / d.c, q % d.c, U8(o)[q], w);
	}
	compared(n);
}
// the numbers 2^a 3^b 5^c of the int range with b up to 14 (those the library knows), made once before any thread starts
static std::vector<int> smooth_table()
{
	std::vector<int> t;
	for (long a = 1; a <= 2147483647; a *= 2) for (long b = a, e = 0; b <= 2147483647 && e <= 14; b *= 3, e++) for (long c = b; c <= 2147483647; c *= 5) t.push_back((int)c);
	std::sort(t.begin(), t.end());
	return t;
}
static const std::vector<int> SMOOTH = smooth_table();
SC(dft_size, 300, 0)
{
	const int LAST = 2125764000;
	uint64_t acc = 0;
	auto check = [&](int n) {
		int g = get_optimal_DFT_size(n), w = n < 0 || n >= LAST ? -1 : *std::lower_bound(SMOOTH.begin(), SMOOTH.end(), n < 1 ? 1 : n);
		acc = acc * 31 + (unsigned)g;
		if (g != w) fail("value", "the optimal DFT size of %d is %d, not %d", n, g, w);
		compared();
	};
	uint64_t base = R.u(8);
	int block = (int)R.u(300);
	desc("optimal DFT sizes, kind %d", (int)base);
	sig(base); sig(block);
	seen("kind %d", (int)base);
	if (base < 2) for (int i = 0; i < 400; i++) check(block * 200 + i);                       // all small sizes
	else if (base < 5) for (int i = 0; i < 100; i++) { int q = (int)R.u(SMOOTH.size()); for (long t = -1; t <= 1; t++) if (SMOOTH[q] + t <= 2147483647) check((int)(SMOOTH[q] + t)); }
	else if (base < 7) for (int i = 0; i < 300; i++) check((int)R.u(2147483648ULL));
	else { static const int E[] = {0, 1, 2, -1, -2, INT32_MIN, INT32_MIN + 1, INT32_MAX, INT32_MAX - 1, LAST - 1, LAST, LAST + 1, 2123366400, 2123366401}; for (int e : E) check(e); for (int i = 0; i < 100; i++) check(-(int)R.u(2147483648ULL)); }
	digest(&acc, sizeof acc);
}

// ---- target detection ----------------------------------------------------------------
static bool solve_inverse(std::vector<double> a, std::vector<double>& v, int m)
{
	v.assign(m * m, 0);
	for (int i = 0; i < m; i++) v[i * m + i] = 1;
	for (int i = 0; i < m; i++) {
		int p = i;
		for (int r = i + 1; r < m; r++) if (fabs(a[r * m + i]) > fabs(a[p * m + i])) p = r;
		if (fabs(a[p * m + i]) < 1e-12) return false;
		for (int c = 0; c < m; c++) { std::swap(a[i * m + c], a[p * m + c]); std::swap(v[i * m + c], v[p * m + c]); }
		double s = 1 / a[i * m + i];
		for (int c = 0; c < m; c++) { a[i * m + c] *= s; v[i * m + c] *= s; }
		for (int r = 0; r < m; r++) if (r != i) { double t = a[r * m + i]; if (t != 0) for (int c = 0; c < m; c++) { a[r * m + c] -= t * a[i * m + c]; v[r * m + c] -= t * v[i * m + c]; } }
	}
	return true;
}
SC(cem, 500, 0)
{
	int B = R.p(70) ? R.range(1, 6) : R.range(1, 16);
	Dim3 d = {R.range(1, 20), R.range(1, 20), B};
	if (R.u(10) == 0) { d.S = R.range(20, 60); d.L = R.range(20, 60); }
	if (R.u(60) == 0) { d.B = B = R.range(1, 3); d.S = R.range(60, 300); d.L = R.range(60, 240); seen("many pixels"); }
	else if (R.u(60) == 0) { d.B = B = R.range(16, 40); seen("many bands"); }
	while (d.S * d.L < 3 * B + 2) { d.S++; d.L++; }
	int N = d.S * d.L;
	const char* il = ILS[R.u(3)];
	hyper_mat m = in_hm(R, d, 4, il, false);
	double sc = R.pick((const double[]){1, 10, 100, 1e4, 1e-3});
	double ts = R.p(60) ? sc : sc * R.pick((const double[]){1e-2, 1e2, 1e-4, 1e4});   // reflectances against raw counts and the like
	std::vector<double> base(B), x((size_t)N * B), t(B);
	for (int k = 0; k < B; k++) { base[k] = R.real(-0.3, 0.3) * sc; t[k] = (float)(R.real(0.2, 1) * ts * (R.p(30) ? -1 : 1)); }
	for (int i = 0; i < d.L; i++) for (int j = 0; j < d.S; j++) {
		bool target = ts <= sc && R.u(12) == 0;
		for (int k = 0; k < B; k++) {
			float v = (float)(target ? t[k] : base[k] + R.real(-1, 1) * sc);
			F32(m)[at(il, d.S, d.L, B, i, j, k)] = v;
			x[(size_t)(i * d.S + j) * B + k] = v;
		}
	}
	float* sp = raw<float>(B);
	for (int k = 0; k < B; k++) sp[k] = (float)t[k];
	watch(sp, B * 4, "target spectrum");
	watch(m->wavelength, B * 4, "wavelengths");
	if (same_il(il, "bsq")) watch_hm(m, "hyper mat");
	desc("cem samples=%d lines=%d bands=%d %s", d.S, d.L, B, il);
	sig(d.S); sig(d.L); sig(B); sig(il[2]);
	seen("%s", il);
	seen("target %s the image", ts < sc ? "far below" : ts > sc ? "far above" : "of the size of");
	std::vector<double> r(B * B, 0), v;
	for (int a = 0; a < B; a++) for (int b = 0; b < B; b++) { for (int p = 0; p < N; p++) r[a * B + b] += x[(size_t)p * B + a] * x[(size_t)p * B + b]; r[a * B + b] /= N * sc * sc; }
	if (!solve_inverse(r, v, B)) skip();
	double nr = 0, nv = 0;
	for (int a = 0; a < B; a++) { double s = 0, u = 0; for (int b = 0; b < B; b++) { s += fabs(r[a * B + b]); u += fabs(v[a * B + b]); } nr = std::max(nr, s); nv = std::max(nv, u); }
	if (nr * nv > 300) skip();
	std::vector<double> w(B, 0);
	double den = 0, mag = 0;
	for (int a = 0; a < B; a++) { for (int b = 0; b < B; b++) { w[a] += v[a * B + b] * t[b]; mag += fabs(t[a] * v[a * B + b] * t[b]); } den += t[a] * w[a]; }
	if (mag > 30 * den) skip();
	double wn = 0;
	for (int a = 0; a < B; a++) { w[a] /= den; wn += fabs(w[a]); }
	simple_mat o = own(hyper_mat_cem(m, sp));
	req_sm(o, d.L, d.S, 4, 1, "cem");
	REQ(same_il(m->interleave, "bsq"), "cem: the source is %.3s afterwards", m->interleave);
	double eps = (N * 6e-8 + B * 4e-6) * nr * nv * (mag / den) + 1e-6;
	for (int p = 0; p < N; p++) {
		double g = 0, a = 0;
		for (int k = 0; k < B; k++) { g += x[(size_t)p * B + k] * w[k]; a += fabs(x[(size_t)p * B + k]) * wn; }
		if (!(fabs(F32(o)[p] - g) <= eps * a + 1e-5)) fail("value", "cem of samples=%d lines=%d bands=%d: pixel %d is %g, not %g", d.S, d.L, B, p, F32(o)[p], g);
		for (int k = 0; k < B; k++)
			if (F32(m)[at("bsq", d.S, d.L, B, p / d.S, p % d.S, k)] != (float)x[(size_t)p * B + k]) fail("value", "cem changed line %d sample %d band %d of the source", p / d.S, p % d.S, k);
	}
	compared(N);
}

// ---- principal components -------------------------------------------------------------
static void jacobi(std::vector<double>& a, std::vector<double>& q, int m)
{
	q.assign(m * m, 0);
	for (int i = 0; i < m; i++) q[i * m + i] = 1;
	for (int sweep = 0; sweep < 60; sweep++)
		for (int p = 0; p < m; p++) for (int r = p + 1; r < m; r++) {
			double g = a[p * m + r];
			if (fabs(g) < 1e-300) continue;
			double th = (a[r * m + r] - a[p * m + p]) / (2 * g), t = (th >= 0 ? 1 : -1) / (fabs(th) + sqrt(th * th + 1)), c = 1 / sqrt(t * t + 1), s = t * c;
			for (int k = 0; k < m; k++) { double x = a[k * m + p], y = a[k * m + r]; a[k * m + p] = c * x - s * y; a[k * m + r] = s * x + c * y; }
			for (int k = 0; k < m; k++) { double x = a[p * m + k], y = a[r * m + k]; a[p * m + k] = c * x - s * y; a[r * m + k] = s * x + c * y; }
			for (int k = 0; k < m; k++) { double x = q[k * m + p], y = q[k * m + r]; q[k * m + p] = c * x - s * y; q[k * m + r] = s * x + c * y; }
		}
}
SC(pca, 400, 0)
{
	int B = R.p(70) ? R.range(1, 4) : R.range(1, 7);
	Dim3 d = {R.range(2, 18), R.range(2, 18), B};
	bool grid = R.u(6) == 0;        // bands that do not correlate at all
	while (d.S * d.L < 3 * B + 6) { d.S++; d.L++; }
	if (grid) { d.S = 1 << R.range(2, 4); d.L = 1 << R.range(3, 4); }
	else if (R.p(8)) { d.S = R.range(50, 90); d.L = R.range(50, 110); d.B = B = std::min(B, 3); seen("many pixels"); }
	int stripes = R.p(40) ? (int)R.range(2, 5) : 0;       // pixels that differ by their place
	int N = d.S * d.L, iter = R.range(120, 200);
	hyper_mat m = in_hm(R, d, 4, "bip", false), o = out_hm(R, d, 4, "bip");
	double sc = R.pick((const double[]){1, 10, 100}), ratio = R.real(1.8, 2.6);
	std::vector<double> mix(B * B), off(B);
	// a random rotation from random plane rotations; the strongest direction may lie in any band
	for (int i = 0; i < B; i++) mix[i * B + i] = 1;
	std::vector<int> perm(B);
	for (int i = 0; i < B; i++) perm[i] = i;
	for (int i = B - 1; i > 0; i--) std::swap(perm[i], perm[R.u(i + 1)]);
	int turns = R.p(20) ? 0 : 3 * B;
	for (int q = 0; q < turns && B > 1; q++) {
		int a = (int)R.u(B), b = (int)R.u(B);
		if (a == b) continue;
		double t = R.real(0, 6.3), c = cos(t), s = sin(t);
		for (int k = 0; k < B; k++) { double x = mix[k * B + a], y = mix[k * B + b]; mix[k * B + a] = c * x - s * y; mix[k * B + b] = s * x + c * y; }
	}
	for (int k = 0; k < B; k++) off[k] = R.p(30) ? 0 : R.real(-2, 2) * sc;
	for (int p = 0; p < N; p++) {
		double z[16];
		for (int k = 0; k < B; k++) z[k] = R.real(-1, 1) * sc / pow(ratio, perm[k]);
		if (stripes) { int on = stripes == 5 ? p < N / 2 : p % stripes == 0; z[0] = (on ? 1 : -1) * fabs(z[0]); }
		for (int k = 0; k < B; k++) { double s = off[k]; for (int q = 0; q < B; q++) s += mix[k * B + q] * z[q]; F32(m)[(size_t)p * B + k] = (float)s; }
	}
	if (grid) {
		std::vector<int> mask(B);
		for (int k = 0; k < B; k++) do { mask[k] = 1 + R.u(N - 1); } while (std::find(mask.begin(), mask.begin() + k, mask[k]) != mask.begin() + k);
		for (int p = 0; p < N; p++) for (int k = 0; k < B; k++) F32(m)[(size_t)p * B + k] = (float)(sc * (k * 7 % 3 + (__builtin_parity(p & mask[k]) ? 1 : -1) * (1 << perm[k])));
		turns = 0;
	}
	bool flat = !grid && B > 1 && R.p(10);                // a band that says nothing
	if (flat) { int k = (int)R.u(B); float v = R.p(40) ? 0 : (float)R.real(-2, 2); for (int p = 0; p < N; p++) F32(m)[(size_t)p * B + k] = v; seen("a constant band"); }
	watch_hm(m, "hyper mat");
	desc("pca samples=%d lines=%d bands=%d, %d iterations", d.S, d.L, B, iter);
	sig(d.S); sig(d.L); sig(B); sig(turns);
	seen("bands %d", B);
	seen("%s", grid ? "uncorrelated bands" : turns ? "rotated" : "directions along the bands");
	std::vector<double> x((size_t)N * B), c(B * B, 0), q;
	for (int k = 0; k < B; k++) {
		double s = 0;
		for (int p = 0; p < N; p++) s += F32(m)[(size_t)p * B + k];
		for (int p = 0; p < N; p++) x[(size_t)p * B + k] = F32(m)[(size_t)p * B + k] - s / N;
	}
	for (int a = 0; a < B; a++) for (int b = 0; b < B; b++) for (int p = 0; p < N; p++) c[a * B + b] += x[(size_t)p * B + a] * x[(size_t)p * B + b];
	jacobi(c, q, B);
	std::vector<int> ord(B);
	for (int k = 0; k < B; k++) ord[k] = k;
	std::sort(ord.begin(), ord.end(), [&](int a, int b) { return c[a * B + a] > c[b * B + b]; });
	double top = c[ord[0] * B + ord[0]];
	for (int k = 0; k + 1 < B - flat; k++) if (c[ord[k] * B + ord[k]] < 1.6 * c[ord[k + 1] * B + ord[k + 1]]) skip();
	if (c[ord[B - 1 - flat] * B + ord[B - 1 - flat]] < top * 3e-4) skip();
	hyper_mat_pca(m, o, iter);
	req_hm(o, d.S, d.L, B, 4, "bip", "pca");
	double norm = sqrt(top / N);
	for (int k = 0; k < B; k++) {
		double dot = 0, big = 0;
		std::vector<double> y(N, 0);
		for (int p = 0; p < N; p++) { for (int b = 0; b < B; b++) y[p] += x[(size_t)p * B + b] * q[b * B + ord[k]]; dot += y[p] * F32(o)[(size_t)p * B + k]; big = std::max(big, fabs(y[p])); }
		double sg = dot < 0 ? -1 : 1, tol = 0.02 * (norm + big);
		for (int p = 0; p < N; p++)
			if (!(fabs(sg * F32(o)[(size_t)p * B + k] - y[p]) <= tol)) fail("value", "pca of samples=%d lines=%d bands=%d: component %d of pixel %d is %g, not %g", d.S, d.L, B, k, p, sg * F32(o)[(size_t)p * B + k], y[p]);
	}
	compared((uint64_t)N * B);
}

// ---- drawing -----------------------------------------------------------------------
static void put(std::vector<unsigned char>& w, Dim2 d, int ch, int x, int y, RGB_data c)
{
	if (x < 0 || y < 0 || x >= d.c || y >= d.r) return;
	unsigned char* p = &w[((size_t)y * d.c + x) * ch];
	if (ch == 3) { p[0] = c.b; p[1] = c.g; p[2] = c.r; } else if (ch == 1) p[0] = c.r;
}
SC(draw_points, 600, F_NOOM)
{
	Dim2 d = dim2(R, R.u(10) ? 1500 : 20000);
	int ch = R.p(50) ? 1 : 3, n = R.p(10) ? 0 : R.u(20) ? R.range(1, 6) : R.range(6, 400), size = R.p(15) ? R.range(0, 60) : R.range(0, 7);
	if (n > 6) size = R.range(0, 5);
	simple_mat m = in_u8(R, d, ch), o = out_sm(R, d, 1, ch);
	RGB_data c;
	c.r = (unsigned char)R.u(256); c.g = (unsigned char)R.u(256); c.b = (unsigned char)R.u(256);
	std::vector<unsigned char> w(U8(m), U8(m) + (size_t)d.r * d.c * ch);
	POINT* v = raw<POINT>(n);
	for (int k = 0; k < n; k++) {
		bool in = R.p(70);
		v[k].x = in ? (int)R.u(d.c) : R.range(-40, d.c + 40);
		v[k].y = in ? (int)R.u(d.r) : R.range(-40, d.r + 40);
		if (!in) seen("point outside or near the edge");
		for (int i = -(size / 2); i <= size / 2; i++) for (int j = -(size / 2); j <= size / 2; j++) put(w, d, ch, v[k].x + i, v[k].y + j, c);
	}
	watch(v, n * sizeof(POINT), "points");
	desc("draw %d points of size %d in %dx%d channels %d", n, size, d.r, d.c, ch);
	sig(d.r); sig(d.c); sig(n); sig(size); sig(ch); if (n) { sig(v[0].x); sig(v[0].y); }
	seen("channels %d", ch);
	draw_POINT(m, o, v, n, c, size);
	req_sm(o, d.r, d.c, 1, ch, "points");
	req_bytes(o->data, w.data(), w.size(), "points");
}
SC(draw_lines, 800, F_NOOM)
{
	Dim2 d = dim2(R, R.u(10) ? 1500 : 20000);
	int ch = R.p(50) ? 1 : 3, th = R.p(15) ? R.range(0, 40) : R.range(0, 5), far = R.p(70) ? 0 : R.p(80) ? 50 : 3000;
	simple_mat m = in_u8(R, d, ch), o = out_sm(R, d, 1, ch);
	RGB_data c;
	c.r = (unsigned char)R.u(256); c.g = (unsigned char)R.u(256); c.b = (unsigned char)R.u(256);
	POINT p[2];
	for (int k = 0; k < 2; k++) { p[k].x = R.range(-far, d.c - 1 + far); p[k].y = R.range(-far, d.r - 1 + far); }
	int kind = (int)R.u(8);
	if (kind == 0) p[1].x = p[0].x;
	if (kind == 1) p[1].y = p[0].y;
	if (kind == 2) p[1] = p[0];
	if (kind == 3) { int t = R.range(-30, 30); p[1].x = p[0].x + t; p[1].y = p[0].y + (R.p(50) ? t : -t); }
	std::vector<unsigned char> w(U8(m), U8(m) + (size_t)d.r * d.c * ch);
	int dx = p[1].x - p[0].x, dy = p[1].y - p[0].y, n = std::max(abs(dx), abs(dy));
	for (int s = 0; s <= n; s++) {
		// the nearest pixel of the exact line, halves towards larger coordinates
		long x = p[0].x, y = p[0].y;
		if (n) {
			long a = 2L * p[0].x * n + 2L * dx * s + n, b = 2L * p[0].y * n + 2L * dy * s + n, q = 2L * n;
			x = a >= 0 ? a / q : -((-a + q - 1) / q);
			y = b >= 0 ? b / q : -((-b + q - 1) / q);
		}
		for (int t = -(th / 2); t <= th / 2; t++) put(w, d, ch, (int)x + t, (int)y, c);
	}
	desc("draw a line (%d,%d)-(%d,%d) of thickness %d in %dx%d channels %d", p[0].x, p[0].y, p[1].x, p[1].y, th, d.r, d.c, ch);
	sig(d.r); sig(d.c); sig(th); sig(ch); for (int k = 0; k < 2; k++) { sig(p[k].x); sig(p[k].y); }
	seen("%s", n == 0 ? "one point" : dx == 0 ? "vertical" : dy == 0 ? "horizontal" : abs(dx) > abs(dy) ? "flat" : abs(dx) == abs(dy) ? "diagonal" : "steep");
	if (far) seen("ends outside");
	draw_line(m, o, p[0], p[1], c, th);
	req_sm(o, d.r, d.c, 1, ch, "line");
	for (size_t q = 0; q < w.size(); q++)
		if (w[q] != U8(o)[q]) {
			// a tie in floating point may fall to the other side by one pixel
			fail("value", "line (%d,%d)-(%d,%d) of thickness %d in %dx%d: row %zu col %zu is %d, not %d", p[0].x, p[0].y, p[1].x, p[1].y, th, d.r, d.c, q / ch / d.c, q / ch % d.c, U8(o)[q], w[q]);
		}
	compared(w.size());
}

// ---- vectors -----------------------------------------------------------------------
struct Big { int a; double b; char c[5]; };
template <class T> struct Mk;
template <> struct Mk<char> { static char of(int v) { return (char)v; } static bool eq(char a, char b) { return a == b; } };
template <> struct Mk<int> { static int of(int v) { return v * 7919; } static bool eq(int a, int b) { return a == b; } };
template <> struct Mk<double> { static double of(int v) { return v / 3.0; } static bool eq(double a, double b) { return a == b; } };
template <> struct Mk<POINT> { static POINT of(int v) { POINT p; p.x = v; p.y = -v; return p; } static bool eq(POINT a, POINT b) { return a.x == b.x && a.y == b.y; } };
template <> struct Mk<Big> { static Big of(int v) { Big p; memset(&p, 0, sizeof p); p.a = v; p.b = v * 2.5; p.c[4] = (char)v; return p; } static bool eq(const Big& a, const Big& b) { return a.a == b.a && a.b == b.b && a.c[4] == b.c[4]; } };
template <class T> static void vec_run(Rng& R, const char* name)
{
	T* v = NULL;
	std::vector<T> w;
	int big = R.u(12) == 0, ops = R.range(1, big ? 1500 : 60), k = 0;
	char msg[200] = "";
	desc("%d operations on a vector of %s", ops, name);
	sig(ops); sig(sizeof(T)); sig(R.s);
	seen("vector of %s", name);
	size_t cap = 0;
	if (big && R.p(70)) {          // a large vector to begin with
		size_t n = R.p(50) ? R.range(200, 1500) : R.range(1, 70000);
		if (R.p(50)) for (size_t i = 0; i < n; i++) { T x = Mk<T>::of((int)(i * 7 % 251) - 100); vector_push_back(v, x); w.push_back(x); }
		else { T x = Mk<T>::of(R.range(-100, 100)); vector_init(v, x, n); w.assign(n, x); for (size_t i = 0; i < n; i++) v[i] = w[i] = Mk<T>::of((int)(i * 13 % 253) - 120); }
		if (n > 3000) ops = R.range(1, 40);
		seen("more than %d elements", n > 65536 ? 65536 : n > 4096 ? 4096 : n > 256 ? 256 : 0);
	}
	for (k = 0; k < ops && !msg[0]; k++) {
		int op = (int)R.u(20);
		if (op < 11) { T x = Mk<T>::of(R.range(-100, 100)); vector_push_back(v, x); w.push_back(x); seen("push"); }
		else if (op < 13) { if (w.empty()) continue; vector_pop_back(v); w.pop_back(); seen("pop"); }
		else if (op < 16) {
			size_t i = R.p(30) ? R.u(3) : R.u(w.size() + 2);
			vector_erase(v, i);
			if (i < w.size()) { w.erase(w.begin() + i); seen("erase"); } else seen("erase beyond the end");
		} else if (op == 16) { if (w.empty()) continue; size_t i = R.u(w.size()); T x = Mk<T>::of(R.range(-100, 100)); v[i] = x; w[i] = x; seen("assign"); }
		else if (op == 17) { vector_free(v); w.clear(); seen("free"); if (v != NULL) snprintf(msg, sizeof msg, "vector_free left the pointer"); }
		else if (op == 18) { size_t n = R.p(90) ? R.u(9) : R.u(600); T x = Mk<T>::of(R.range(-100, 100)); vector_init(v, x, n); w.assign(n, x); seen("init"); }
		else if (op == 19 && !w.empty()) { T x = v[0]; vector_push_back(v, x); w.push_back(x); }
		cap = vector_capacity(v);
		if (vector_size(v) != w.size()) snprintf(msg, sizeof msg, "after %d operations the size is %zu, not %zu", k + 1, (size_t)vector_size(v), w.size());
		else if (cap < w.size()) snprintf(msg, sizeof msg, "after %d operations the capacity is %zu for %zu elements", k + 1, cap, w.size());
		else if ((vector_empty(v) ? true : false) != w.empty()) snprintf(msg, sizeof msg, "after %d operations vector_empty is wrong", k + 1);
		else if (vector_begin(v) != v || (size_t)(vector_end(v) - vector_begin(v)) != w.size()) snprintf(msg, sizeof msg, "after %d operations begin and end span %zd elements, not %zu", k + 1, (ssize_t)(vector_end(v) - vector_begin(v)), w.size());
		else for (size_t i = 0; i < w.size(); i++) if (!Mk<T>::eq(v[i], w[i])) { snprintf(msg, sizeof msg, "after %d operations element %zu of %zu differs", k + 1, i, w.size()); break; }
		compared();
	}
	for (size_t i = 0; i < w.size() && !msg[0]; i++) digest(&v[i], sizeof(T) == sizeof(Big) ? sizeof(int) : sizeof(T));
	vector_free(v);
	if (msg[0]) fail("value", "vector of %s: %s", name, msg);
}
SC(vector, 700, F_NOOM)
{
	switch (R.u(5)) {
	case 0: vec_run<char>(R, "char"); break;
	case 1: vec_run<int>(R, "int"); break;
	case 2: vec_run<double>(R, "double"); break;
	case 3: vec_run<POINT>(R, "POINT"); break;
	default: vec_run<Big>(R, "struct"); break;
	}
}
