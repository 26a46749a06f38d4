// Image operations beyond 2^31 elements: results at the ends, around the powers of two and at random places.
#include "big.h"
#include <algorithm>

static const unsigned VF = F_BIG | F_NOTHREAD | F_NOMSAN | F_NORERUN;
static int edge(int p, int n, int type)     // -1: outside of a constant border
{
	if (p >= 0 && p < n) return p;
	if (type == 0) return -1;
	if (type == 1) return p < 0 ? 0 : n - 1;
	if (type == 3) { int q = p % n; return q < 0 ? q + n : q; }
	int t = type == 2 ? 2 * n : 2 * n - 2, q = p % t;
	if (q < 0) q += t;
	return q < n ? q : t - (type == 2 ? 1 : 0) - q;
}
// where it can be afforded: beyond what unsigned indices reach
static size_t least(Rng& R)
{
	bool less = R.p(50);
	return thorough() && less ? 0x80000000 : 0x100000000;
}
// rows and columns of an image of more than `least` elements
static Dim2 vast(Rng& R, int ch, size_t least = 0x80000000, bool wide = false)
{
	size_t want = (least + 100000 + R.u(20000000)) / ch + 1;
	Dim2 d;
	int kind = wide ? 2 : (int)R.u(3);
	d.c = kind == 0 ? (int)sqrt((double)want) + R.range(0, 9) : R.range(2500, 6000);
	d.r = (int)(want / d.c) + 1;
	if (kind == 2) std::swap(d.r, d.c);
	return d;
}
struct Img {
	simple_mat m;
	Dim2 d;
	int ch;
	uint64_t key;
	size_t n;                       // elements
	int px(int i, int j, int c = 0) const { return U8(m)[((size_t)i * d.c + j) * ch + c]; }
};
static simple_mat make(int r, int c, int type, int ch)
{
	simple_mat m = create_simple_mat(r, c, type, ch);
	REQ(m != NULL, "create_simple_mat returned NULL");
	return own(m);
}
static Img vast_u8(Rng& R, int ch, const char* what, bool wide = false, size_t least = 0x80000000)
{
	Img g;
	g.d = vast(R, ch, least, wide);
	g.ch = ch;
	g.key = R.next();
	g.n = (size_t)g.d.r * g.d.c * ch;
	g.m = make(g.d.r, g.d.c, 1, ch);
	desc("%s of %dx%d channels %d", what, g.d.r, g.d.c, ch);
	seen("%s channels %d", what, ch);
	sig(g.d.r); sig(g.d.c); sig(ch);
	big_fill(g.key, g.m->data, g.n);
	return g;
}
static void req_kept(Rng& R, const Img& g)
{
	for (size_t k = 0; k < 30000; k++) {
		size_t p = big_place(R, k, g.n);
		REQ(U8(g.m)[p] == big_byte(g.key, p), "byte %zu of the source was changed", p);
	}
}
static const size_t PROBES = 200000;
// a garbage result: what is left out shows
static simple_mat out(Dim2 d, int type, int ch)
{
	simple_mat o = make(d.r, d.c, type, ch);
	memset(o->data, 0xA5, (size_t)d.r * d.c * ch * esize(type));
	return o;
}
#define AT_PROBES(n, cols, chs, i, j, c) \
	for (size_t probe_ = 0, p = 0; p = big_place(R, probe_, n), probe_ < PROBES; probe_++) \
		for (int c = (int)(p % (chs)), j = (int)(p / (chs) % (cols)), i = (int)(p / (chs) / (cols)), once_ = 1; once_; once_ = 0)

static void flipped(Rng& R, int how, int ch)
{
	how += R.p(50) ? 2 : 0;
	Img g = vast_u8(R, ch, how == 0 ? "horizontal flip" : how == 1 ? "vertical flip" : how == 2 ? "flip by 1" : "flip by 0", false, least(R));
	simple_mat o = out(g.d, 1, ch);
	if (how == 0) simple_mat_flip_horizontal(g.m, o);
	else if (how == 1) simple_mat_flip_vertical(g.m, o);
	else simple_mat_flip(g.m, o, how == 2 ? 1 : 0);
	bool fx = how % 2 == 0;
	AT_PROBES(g.n, g.d.c, ch, i, j, c) {
		int w = fx ? g.px(i, g.d.c - 1 - j, c) : g.px(g.d.r - 1 - i, j, c);
		if (U8(o)[p] != w) fail("value", "flip: element %zu of %dx%dx%d is %d, not %d", p, g.d.r, g.d.c, ch, U8(o)[p], w);
	}
	compared(PROBES);
	req_kept(R, g);
}
SC(vast_flip_h, 1, VF) { flipped(R, 0, 1); }
SC(vast_flip_v, 1, VF) { flipped(R, 1, 1); }
SC(vast_flip_h_3, 1, VF) { flipped(R, 0, 3); }
SC(vast_flip_v_3, 1, VF) { flipped(R, 1, 3); }
static void v_flip_both(Rng& R, int ch)
{
	Img g = vast_u8(R, ch, "flip by -1", false, least(R));
	simple_mat o = out(g.d, 1, g.ch);
	simple_mat_flip(g.m, o, -1);
	AT_PROBES(g.n, g.d.c, g.ch, i, j, c) {
		int w = g.px(g.d.r - 1 - i, g.d.c - 1 - j, c);
		if (U8(o)[p] != w) fail("value", "flip by -1: element %zu of %dx%dx%d is %d, not %d", p, g.d.r, g.d.c, g.ch, U8(o)[p], w);
	}
	compared(PROBES);
	req_kept(R, g);
}
SC(vast_flip_both, 1, VF) { v_flip_both(R, 1); }
SC(vast_flip_both_3, 1, VF) { v_flip_both(R, 3); }
static void v_to_rgb(Rng& R, bool bin)
{
	Img g = vast_u8(R, 1, bin ? "binary to rgb" : "gray to rgb", false, least(R) / 3);
	if (bin) for (size_t q = 0; q < g.n; q++) U8(g.m)[q] &= 1;
	simple_mat o = bin ? sm_binary2rgb(g.m) : sm_gray2rgb(g.m);
	REQ(o != NULL && o != g.m, "no new image");
	own(o);
	req_sm(o, g.d.r, g.d.c, 1, 3, "rgb");
	AT_PROBES(g.n * 3, g.d.c, 3, i, j, c) {
		int w = g.px(i, j) * (bin ? 255 : 1);
		if (U8(o)[p] != w) fail("value", "to rgb: channel %d of row %d col %d of %dx%d is %d, not %d", c, i, j, g.d.r, g.d.c, U8(o)[p], w);
	}
	compared(PROBES);
	if (!bin) req_kept(R, g);
}
SC(vast_gray2rgb, 1, VF) { v_to_rgb(R, false); }
SC(vast_binary2rgb, 1, VF) { v_to_rgb(R, true); }
static void v_rgb_gray(Rng& R, int method)
{
	Img g = vast_u8(R, 3, "rgb to gray", false, least(R));
	simple_mat o = sm_rgb2gray(g.m, method);
	REQ(o != NULL && o != g.m, "no new image");
	own(o);
	req_sm(o, g.d.r, g.d.c, 1, 1, "gray");
	AT_PROBES(g.n, g.d.c, 3, i, j, c) {
		size_t q = p / 3;
		int a = g.px(i, j, 0), b = g.px(i, j, 1), e = g.px(i, j, 2), v = U8(o)[q], t = a * 299 + b * 587 + e * 114;
		bool ok = method == 0 ? v == (2 * (a + b + e) + 3) / 6 : method == 1 ? v == std::max(a, std::max(b, e)) : v == t / 1000 || (t % 1000 == 0 && t && v == t / 1000 - 1);
		if (!ok) fail("value", "rgb to gray method %d: row %d col %d of %dx%d, (%d,%d,%d), becomes %d (channel %d)", method, i, j, g.d.r, g.d.c, a, b, e, v, c);
	}
	compared(PROBES);
	req_kept(R, g);
}
SC(vast_gray_average, 1, VF) { v_rgb_gray(R, 0); }
SC(vast_gray_max, 1, VF) { v_rgb_gray(R, 1); }
SC(vast_gray_weighted, 1, VF) { v_rgb_gray(R, 2); }
SC(vast_bgr_rgb, 1, VF)
{
	Img g = vast_u8(R, 3, "bgr to rgb", false, least(R));
	simple_mat o = out(g.d, 1, 3);
	sm_bgr2rgb(g.m, o);
	AT_PROBES(g.n, g.d.c, 3, i, j, c)
		if (U8(o)[p] != g.px(i, j, 2 - c)) fail("value", "bgr to rgb: channel %d of row %d col %d of %dx%d is %d, not %d", c, i, j, g.d.r, g.d.c, U8(o)[p], g.px(i, j, 2 - c));
	compared(PROBES);
	req_kept(R, g);
}
static void v_border(Rng& R, int ch, bool constant)
{
	int type = constant ? 0 : R.range(1, 4), b[4], value = R.range(0, 255);
	for (int q = 0; q < 4; q++) b[q] = R.range(q == 0, 5);
	Img g = vast_u8(R, ch, type ? "border" : "constant border", false, least(R));
	simple_mat o = hypercv_copy_make_border(g.m, b[0], b[1], b[2], b[3], type, (unsigned char)value);
	REQ(o != NULL && o != g.m, "no new image");
	own(o);
	Dim2 d = {g.d.r + b[0] + b[1], g.d.c + b[2] + b[3]};
	req_sm(o, d.r, d.c, 1, ch, "border");
	AT_PROBES((size_t)d.r * d.c * ch, d.c, ch, i, j, c) {
		int y = edge(i - b[0], g.d.r, type), x = edge(j - b[2], g.d.c, type), w = y < 0 || x < 0 ? value : g.px(y, x, c);
		if (U8(o)[p] != w) fail("value", "border %d: row %d col %d channel %d of %dx%d is %d, not %d", type, i, j, c, d.r, d.c, U8(o)[p], w);
	}
	compared(PROBES);
	req_kept(R, g);
}
SC(vast_border, 1, VF) { v_border(R, R.p(50) ? 1 : 3, false); }
SC(vast_border_const, 1, VF) { v_border(R, R.p(50) ? 1 : 3, true); }
static void v_filter2d(Rng& R, int ch)
{
	int type = (int)R.u(5), kr = R.range(1, 2), kc = R.range(1, 2);
	float k[4];
	for (int q = 0; q < 4; q++) k[q] = (float)R.range(-5, 5) + 0.5f;
	Img g = vast_u8(R, ch, "filter");
	simple_mat o = out(g.d, 4, ch);
	hypercv_filter2D(g.m, o, k, kr, kc, type);
	AT_PROBES(g.n, g.d.c, ch, i, j, c) {
		double s = 0;
		for (int y = 0; y < kr; y++) for (int x = 0; x < kc; x++) {
			int u = edge(i + y - kr / 2, g.d.r, type), v = edge(j + x - kc / 2, g.d.c, type);
			if (u >= 0 && v >= 0) s += k[y * kc + x] * g.px(u, v, c);
		}
		if (!(fabs(F32(o)[p] - s) <= 1e-4 * (1 + fabs(s)))) fail("value", "filter2D: row %d col %d channel %d of %dx%d is %g, not %g", i, j, c, g.d.r, g.d.c, F32(o)[p], s);
	}
	compared(PROBES);
	req_kept(R, g);
}
SC(vast_filter2d, 1, VF) { v_filter2d(R, 1); }
SC(vast_filter2d_3, 1, VF) { v_filter2d(R, 3); }
SC(vast_median, 1, VF)
{
	Img g = vast_u8(R, 1, "median");
	// flat rows are quick to sort: only those around the places to look at, and some more, vary
	auto varied = [&](int i) {
		static const size_t E[] = {0, 0x40000000, 0x80000000, 0x20000000, 0x10000000, 0x8000000, 0x4000000};
		bool v = i >= g.d.r - 4 || i / 32 % 16 == 0;
		for (size_t e : E) v |= abs(i - (int)(e / g.d.c)) < 4;
		return v;
	};
	for (int i = 0; i < g.d.r; i++) if (!varied(i)) memset((char*)g.m->data + (size_t)i * g.d.c, 7, g.d.c);
	int size = R.p(15) ? 1 : 3, h = size / 2;
	simple_mat o = out(g.d, 1, 1);
	hypercv_medianblur(g.m, o, size);
	AT_PROBES(g.n, g.d.c, 1, i, j, c) {
		int w = g.px(i, j, c);
		if (h && i >= h && j >= h && i + h < g.d.r && j + h < g.d.c) {
			int v[9];
			for (int q = 0; q < 9; q++) v[q] = g.px(i - 1 + q / 3, j - 1 + q % 3);
			std::nth_element(v, v + 4, v + 9);
			w = v[4];
		}
		if (U8(o)[p] != w) fail("value", "median %d: row %d col %d of %dx%d is %d, not %d", size, i, j, g.d.r, g.d.c, U8(o)[p], w);
	}
	compared(PROBES);
	for (size_t k = 0; k < 30000; k++) {
		size_t p = big_place(R, k, g.n);
		REQ(U8(g.m)[p] == (varied((int)(p / g.d.c)) ? big_byte(g.key, p) : 7), "byte %zu of the source was changed", p);
	}
}
SC(vast_mean_blur, 1, VF)
{
	int size = R.range(1, 3);
	Img g = vast_u8(R, 1, "mean", false, least(R));
	simple_mat o = out(g.d, 1, 1);
	hypercv_meanblur(g.m, o, size);
	AT_PROBES(g.n, g.d.c, 1, i, j, c) {
		int s = 0, n = 0;
		for (int y = std::max(0, i - size / 2); y < std::min(g.d.r, i + size - size / 2); y++)
			for (int x = std::max(0, j - size / 2); x < std::min(g.d.c, j + size - size / 2); x++) { s += g.px(y, x, c); n++; }
		if (U8(o)[p] != s / n) fail("value", "mean %d: row %d col %d of %dx%d is %d, not %d", size, i, j, g.d.r, g.d.c, U8(o)[p], s / n);
	}
	compared(PROBES);
	req_kept(R, g);
}
SC(vast_integral, 1, VF)
{
	// dark enough for the sums to fit
	Dim2 d = vast(R, 1);
	uint64_t key = R.next();
	desc("integral of %dx%d", d.r, d.c); sig(d.r); sig(d.c); seen("integral");
	size_t n = (size_t)d.r * d.c;
	simple_mat m = make(d.r, d.c, 1, 1), o = out(d, 3, 1);
	for (size_t k = 0; k < 2000000; k++) { size_t p = big_place(R, k, n); U8(m)[p] = (unsigned char)(1 + (big_byte(key, p) & 127)); }
	hypercv_integral(m, o);
	std::vector<long> col(d.c, 0);
	for (int i = 0; i < d.r; i++) {
		const unsigned char* a = U8(m) + (size_t)i * d.c;
		const int* b = (int*)o->data + (size_t)i * d.c;
		long s = 0;
		for (int j = 0; j < d.c; j++) { s += a[j]; col[j] += s; if (b[j] != col[j]) fail("value", "integral: row %d col %d of %dx%d is %d, not %ld", i, j, d.r, d.c, b[j], col[j]); }
	}
	compared(n);
}
static void v_gauss(Rng& R, int ch)
{
	int kw = 3, kh = 3, type = (int)R.u(5);
	if (R.p(50)) (R.p(50) ? kw : kh) = 1;
	Img g = vast_u8(R, ch, "gaussian blur", true);
	simple_mat o = out(g.d, 1, ch);
	hypercv_gaussian_blur(g.m, o, kw, kh, 0, 0, type);
	static const double K[2][3] = {{0, 1, 0}, {.25, .5, .25}};
	AT_PROBES(g.n, g.d.c, ch, i, j, c) {
		double s = 0;
		for (int q = 0; q < 9; q++) {
			int y = edge(i + q / 3 - 1, g.d.r, type), x = edge(j + q % 3 - 1, g.d.c, type);
			if (y >= 0 && x >= 0) s += K[kh == 3][q / 3] * K[kw == 3][q % 3] * g.px(y, x, c);
		}
		if (!(fabs(U8(o)[p] - s) <= 0.5 + 3e-3)) fail("value", "gaussian blur: row %d col %d channel %d of %dx%d is %d, not %g", i, j, c, g.d.r, g.d.c, U8(o)[p], s);
	}
	compared(PROBES);
	req_kept(R, g);
}
SC(vast_gauss, 1, VF) { v_gauss(R, 1); }
SC(vast_gauss_3, 1, VF) { v_gauss(R, 3); }
SC(vast_laplacian, 1, VF)
{
	int type = (int)R.u(5), ks = R.range(1, 3);
	Img g = vast_u8(R, 1, "laplacian", false, least(R));
	simple_mat o = out(g.d, 1, 1);
	hypercv_laplacian(g.m, o, ks, type);
	static const int dy[4] = {-1, 1, 0, 0}, dx[4] = {0, 0, -1, 1};
	AT_PROBES(g.n, g.d.c, 1, i, j, c) {
		int s = -4 * g.px(i, j, c);
		for (int q = 0; q < 4; q++) { int y = edge(i + dy[q], g.d.r, type), x = edge(j + dx[q], g.d.c, type); if (y >= 0 && x >= 0) s += g.px(y, x); }
		if (ks == 2) s *= 2;
		int w = s < 0 ? 0 : s > 255 ? 255 : s;
		if (U8(o)[p] != w) fail("value", "laplacian: row %d col %d of %dx%d is %d, not %d", i, j, g.d.r, g.d.c, U8(o)[p], w);
	}
	compared(PROBES);
	req_kept(R, g);
}
SC(vast_sobel, 1, VF)
{
	int type = (int)R.u(5), th = R.range(100, 350);
	Img g = vast_u8(R, 1, "sobel", false, least(R));
	simple_mat o = out(g.d, 1, 1);
	hypercv_sobel(g.m, o, th, type);
	static const int gx[3][3] = {{-1, 0, 1}, {-2, 0, 2}, {-1, 0, 1}};
	AT_PROBES(g.n, g.d.c, 1, i, j, c) {
		int a = c, b = 0;
		for (int q = 0; q < 9; q++) {
			int y = edge(i + q / 3 - 1, g.d.r, type), x = edge(j + q % 3 - 1, g.d.c, type);
			if (y < 0 || x < 0) continue;
			a += gx[q / 3][q % 3] * g.px(y, x); b += gx[q % 3][q / 3] * g.px(y, x);
		}
		int w = std::max(abs(a), abs(b)) > th ? 255 : 0;
		if (U8(o)[p] != w) fail("value", "sobel: row %d col %d of %dx%d is %d, not %d", i, j, g.d.r, g.d.c, U8(o)[p], w);
	}
	compared(PROBES);
	req_kept(R, g);
}
SC(vast_edge_energy, 1, VF)
{
	NEED(cal_edge_signal_energy);
	Dim2 d = vast(R, 1);
	desc("edge energy of %dx%d", d.r, d.c); sig(d.r); sig(d.c); seen("edge energy");
	simple_mat m = make(d.r, d.c, 1, 1);
	// lone pixels: every one adds the same
	size_t n = (size_t)d.r * d.c;
	std::vector<std::pair<int, int> > at;
	for (int k = 0; k < 400; k++) {
		size_t p = k < 100 ? n - 1 - R.u(100000) : R.u(n);
		int i = (int)(p / d.c), j = (int)(p % d.c), ok = i > 2 && j > 2 && i < d.r - 3 && j < d.c - 3;
		for (size_t q = 0; q < at.size() && ok; q++) ok = abs(at[q].first - i) > 3 || abs(at[q].second - j) > 3;
		if (ok) { at.push_back(std::make_pair(i, j)); U8(m)[p] = 255; }
	}
	double w = at.size() * (64 + 4 * 4) / 36. * 255 * 255 / n;
	float g = cal_edge_signal_energy(m);
	REQ(fabs(g - w) <= 1e-3 * w, "the edge energy of %dx%d with %zu bright pixels is %g, not %g", d.r, d.c, at.size(), g, w);
	compared();
}
SC(vast_pyr_down, 1, VF)
{
	Img g = vast_u8(R, R.p(50) ? 1 : 3, "pyramid down", true);
	Dim2 t = {(g.d.r + 1) / 2, (g.d.c + 1) / 2};
	simple_mat o = out(t, 1, g.ch);
	hypercv_pyramid_down(g.m, o);
	static const double K[5] = {.0625, .25, .375, .25, .0625};
	AT_PROBES(g.n, g.d.c, g.ch, i0, j0, c) {
		int i = i0 / 2, j = j0 / 2;
		double s = 0;
		for (int q = 0; q < 25; q++) s += K[q / 5] * K[q % 5] * g.px(edge(2 * i + q / 5 - 2, g.d.r, 1), edge(2 * j + q % 5 - 2, g.d.c, 1), c);
		int v = U8(o)[((size_t)i * t.c + j) * g.ch + c];
		if (!(fabs(v - s) <= 0.5 + 3e-3)) fail("value", "pyramid down: row %d col %d channel %d of %dx%d is %d, not %g (%zu)", i, j, c, t.r, t.c, v, s, p);
	}
	compared(PROBES);
	req_kept(R, g);
}
SC(vast_pyr_up, 1, VF)
{
	Img g = vast_u8(R, R.p(50) ? 1 : 3, "pyramid up", true, 0x20000000);
	Dim2 t = {g.d.r * 2, g.d.c * 2};
	simple_mat o = out(t, 1, g.ch);
	hypercv_pyramid_up(g.m, o);
	static const double K[5] = {.125, .5, .75, .5, .125};
	AT_PROBES(g.n * 4, t.c, g.ch, i, j, c) {
		double s[5], sum = 0;
		for (int y = 0; y < 5; y++) {
			int u = edge(i + y - 2, t.r, 1);
			s[y] = 0;
			for (int x = 0; x < 5; x++) { int v = edge(j + x - 2, t.c, 1); if (u % 2 == 0 && v % 2 == 0) s[y] += K[x] * g.px(u / 2, v / 2, c); }
			s[y] = s[y] > 255 ? 255 : s[y];
			sum += K[y] * s[y];
		}
		sum = sum > 255 ? 255 : sum;
		if (!(fabs(U8(o)[p] - sum) <= 0.5 + 3e-3)) fail("value", "pyramid up: row %d col %d channel %d of %dx%d is %d, not %g", i, j, c, t.r, t.c, U8(o)[p], sum);
	}
	compared(PROBES);
	req_kept(R, g);
}
SC(vast_rotate, 1, VF)
{
	// a quarter turn: every pixel has one place
	int type = R.p(50) ? 1 : 12, quarter = R.range(1, 3);
	size_t e = esize(type), want = (0x80000000 + 100000 + R.u(9000000)) / e;
	Dim3 d;
	d.B = R.range(60, 200);
	d.S = R.range(1000, 4000) * 2;
	d.L = (int)(want / d.B / d.S / 2 + 1) * 2;
	uint64_t key = R.next();
	hyper_mat m = create_hyper_mat(d.S, d.L, d.B, type, "bip");
	REQ(m != NULL, "create_hyper_mat returned NULL");
	own(m);
	big_fill(key, m->data, (size_t)d.S * d.L * d.B * e);
	for (int k = 0; k < d.B; k++) m->wavelength[k] = (float)k + 0.5f;
	desc("rotation of samples=%d lines=%d bands=%d type=%d by %d", d.S, d.L, d.B, type, 90 * quarter); sig(d.S); sig(d.L); sig(quarter); seen("rotation");
	hyper_mat r = hyper_mat_rotate(m, 90.0 * quarter);
	REQ(r != NULL && r != m, "no new image");
	own(r);
	int tS = quarter == 2 ? d.S : d.L, tL = quarter == 2 ? d.L : d.S;
	REQ(r->samples <= tS && r->samples >= tS - 1 && r->lines <= tL && r->lines >= tL - 1 && r->bands == d.B && r->data_type == type, "the rotated image has %d samples, %d lines", r->samples, r->lines);
	double th = quarter * 90.0 * 3.1415926 / 180, co = cos(th), si = sin(th);
	size_t pe = d.B * e, n = (size_t)d.S * d.L * pe, sure = 0;
	for (size_t k = 0; k < 60000; k++) {
		size_t p = big_place(R, k, n), q = p / pe;
		int i = (int)(q / d.S), j = (int)(q % d.S);
		double x = (i + 0.5 - d.L / 2) * co + (j + 0.5 - d.S / 2) * si + r->lines / 2.0, y = (j + 0.5 - d.S / 2) * co - (i + 0.5 - d.L / 2) * si + r->samples / 2.0;
		double fx = x - floor(x), fy = y - floor(y);
		if (fx < 0.01 || fx > 0.99 || fy < 0.01 || fy > 0.99 || x < 0 || y < 0 || x >= r->lines || y >= r->samples) continue;
		sure++;
		unsigned char g = ((unsigned char*)r->data)[((size_t)x * r->samples + (size_t)y) * pe + p % pe], w = big_byte(key, p);
		if (g != w) fail("value", "rotated by %d: line %d sample %d byte %zu lands at line %d sample %d as %d, not %d", 90 * quarter, i, j, p % pe, (int)x, (int)y, g, w);
	}
	compared(sure);
}
static void v_morphology(Rng& R, bool dil)
{
	Img g = vast_u8(R, 1, dil ? "dilation" : "erosion", false, least(R));
	if (dil) for (size_t q = 0; q < g.n; q++) U8(g.m)[q] = U8(g.m)[q] > 230;       // mostly background
	int w = R.range(1, 3), h = R.range(1, 3);
	S_2D s = create_2D_struct(w, h);
	REQ(s != NULL, "create_2D_struct returned NULL");
	simple_mat o = out(g.d, 1, 1);
	if (dil) hypercv_expend(g.m, o, s); else hypercv_corrosion(g.m, o, s);
	delete_S_2D(s);
	AT_PROBES(g.n, g.d.c, 1, i, j, c) {
		int v = g.px(i, j, c);
		bool in = i >= h / 2 && j >= w / 2 && i + h / 2 < g.d.r && j + w / 2 < g.d.c;
		if (in && (v != 0) != dil)
			for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) if ((g.px(i - h / 2 + y, j - w / 2 + x) != 0) == dil) v = dil;
		if (U8(o)[p] != v) fail("value", "%s: row %d col %d of %dx%d is %d, not %d", dil ? "dilation" : "erosion", i, j, g.d.r, g.d.c, U8(o)[p], v);
	}
	compared(PROBES);
	if (!dil) req_kept(R, g);
}
SC(vast_erosion, 1, VF) { v_morphology(R, false); }
SC(vast_dilation, 1, VF) { v_morphology(R, true); }
static void thresholded(Rng& R, int type)
{
	static const char* const N[5] = {"binary threshold", "inverse threshold", "truncation", "to zero", "inverse to zero"};
	int th = R.range(20, 230), mx = R.range(1, 255), ch = 1;
	Img g = vast_u8(R, ch, N[type], false, least(R));
	simple_mat o = out(g.d, 1, ch);
	static void (*const F[5])(simple_mat, simple_mat, int, int) = {hypercv_threshold_binary, hypercv_threshold_binary_inv, hypercv_threshold_trunc, hypercv_threshold_tozero, hypercv_threshold_tozero_inv};
	if (R.p(50)) F[type](g.m, o, th, mx);
	else hypercv_threshold(g.m, o, th, mx, type);
	for (size_t k = 0; k < PROBES; k++) {
		size_t p = big_place(R, k, g.n);
		int v = U8(g.m)[p], up = v > th, w = type == 0 ? (up ? mx : 0) : type == 1 ? (up ? 0 : mx) : type == 2 ? (up ? th : v) : type == 3 ? (up ? v : 0) : (up ? 0 : v);
		if (U8(o)[p] != w) fail("value", "%s at %d: element %zu of %dx%dx%d, %d, becomes %d, not %d", N[type], th, p, g.d.r, g.d.c, ch, v, U8(o)[p], w);
	}
	compared(PROBES);
	req_kept(R, g);
}
SC(vast_binary, 1, VF) { thresholded(R, 0); }
SC(vast_binary_inv, 1, VF) { thresholded(R, 1); }
SC(vast_trunc, 1, VF) { thresholded(R, 2); }
SC(vast_tozero, 1, VF) { thresholded(R, 3); }
SC(vast_tozero_inv, 1, VF) { thresholded(R, 4); }
SC(vast_otsu, 1, VF)
{
	// dark, but for the end
	int ch = R.p(60) ? 1 : 3, a = R.range(0, 60), b = R.range(160, 250);
	Dim2 d = vast(R, ch, least(R));
	desc("otsu threshold of %dx%d channels %d", d.r, d.c, ch); sig(d.r); sig(d.c); sig(ch); seen("otsu channels %d", ch);
	simple_mat m = make(d.r, d.c, 1, ch);
	size_t n = (size_t)d.r * d.c * ch, cut = n - 400000;
	for (size_t q = 0; q < n; q++) U8(m)[q] = (unsigned char)((q < cut ? a : b) + q / ch % 3);
	int T = otsuThreshold(m);
	REQ(T >= a + 1 && T < b, "the otsu threshold of an image of %d to %d, and %d to %d at the end, is %d", a, a + 2, b, b + 2, T);
	compared();
	if (ch == 1) {
		simple_mat o = out(d, 1, 1);
		hypercv_threshold_otsu(m, o);
		for (size_t k = 0; k < PROBES; k++) {
			size_t p = big_place(R, k, n);
			if (U8(o)[p] != (p >= cut ? 255 : 0)) fail("value", "otsu: pixel %zu of %dx%d becomes %d", p, d.r, d.c, U8(o)[p]);
		}
		compared(PROBES);
	}
}
static simple_mat vast_f32(Rng& R, Dim2 d, int ch, uint64_t key)
{
	simple_mat m = make(d.r, d.c, 4, ch);
	size_t n = (size_t)d.r * d.c * ch;
	for (size_t q = 0; q < n; q++) F32(m)[q] = (float)(1 + (big_word(key, q) >> 40 & 0x3ff)) * 0.25f;
	return m;
}
static float f32_at(uint64_t key, size_t q) { return (float)(1 + (big_word(key, q) >> 40 & 0x3ff)) * 0.25f; }
SC(vast_add_uchar, 1, VF)
{
	int ch = R.p(50) ? 1 : 3;
	Img a = vast_u8(R, ch, "addition", false, least(R));
	uint64_t key = R.next();
	simple_mat b = make(a.d.r, a.d.c, 1, ch), o = out(a.d, 1, ch);
	big_fill(key, b->data, a.n);
	simple_mat_addition_uchar(a.m, b, o);
	for (size_t k = 0; k < PROBES; k++) {
		size_t p = big_place(R, k, a.n);
		unsigned char w = (unsigned char)(big_byte(a.key, p) + big_byte(key, p));
		if (U8(o)[p] != w) fail("value", "addition: element %zu of %dx%dx%d is %d, not %d", p, a.d.r, a.d.c, ch, U8(o)[p], w);
	}
	compared(PROBES);
	req_kept(R, a);
}
SC(vast_add_float, 1, VF)
{
	int ch = R.p(50) ? 1 : 3;
	Dim2 d = vast(R, ch);
	size_t n = (size_t)d.r * d.c * ch;
	uint64_t ka = R.next(), kb = R.next();
	desc("float addition of %dx%d channels %d", d.r, d.c, ch); sig(d.r); sig(d.c); sig(ch); seen("float addition");
	simple_mat a = vast_f32(R, d, ch, ka), b = vast_f32(R, d, ch, kb);
	simple_mat_addition_float(a, b, a);
	for (size_t k = 0; k < PROBES; k++) {
		size_t p = big_place(R, k, n);
		float w = f32_at(ka, p) + f32_at(kb, p);
		if (F32(a)[p] != w || F32(b)[p] != f32_at(kb, p)) fail("value", "float addition: element %zu of %dx%dx%d is %g, not %g", p, d.r, d.c, ch, F32(a)[p], w);
	}
	compared(PROBES);
}
SC(vast_log, 1, VF)
{
	int ch = R.p(50) ? 1 : 3;
	Dim2 d = vast(R, ch);
	size_t n = (size_t)d.r * d.c * ch;
	uint64_t key = R.next();
	desc("logarithm of %dx%d channels %d", d.r, d.c, ch); sig(d.r); sig(d.c); sig(ch); seen("logarithm");
	simple_mat m = vast_f32(R, d, ch, key), o = make(d.r, d.c, 4, ch);
	simple_mat_log(m, o);
	for (size_t k = 0; k < PROBES; k++) {
		size_t p = big_place(R, k, n);
		double w = log((double)f32_at(key, p));
		if (!(fabs(F32(o)[p] - w) <= 1e-5 * (1 + fabs(w)))) fail("value", "logarithm: element %zu of %dx%dx%d is %g, not %g", p, d.r, d.c, ch, F32(o)[p], w);
	}
	compared(PROBES);
}
SC(vast_float2uchar, 1, VF)
{
	int ch = R.p(50) ? 1 : 3;
	Dim2 d = vast(R, ch);
	size_t n = (size_t)d.r * d.c * ch;
	uint64_t key = R.next();
	desc("float to uchar of %dx%d channels %d", d.r, d.c, ch); sig(d.r); sig(d.c); sig(ch); seen("float to uchar");
	simple_mat m = make(d.r, d.c, 4, ch);
	for (size_t q = 0; q < n; q++) F32(m)[q] = (float)(big_word(key, q) >> 40 & 0xff);
	simple_mat o = simple_mat_float2uchar(m);
	REQ(o != NULL && o != m, "no new image");
	own(o);
	req_sm(o, d.r, d.c, 1, ch, "float to uchar");
	for (size_t k = 0; k < PROBES; k++) {
		size_t p = big_place(R, k, n);
		int w = (int)(big_word(key, p) >> 40 & 0xff);
		if (U8(o)[p] != w) fail("value", "float to uchar: element %zu of %dx%dx%d is %d, not %d", p, d.r, d.c, ch, U8(o)[p], w);
	}
	compared(PROBES);
}
static Dim3 cube(Rng& R, int lo, int hi, size_t least = 0x80000000)
{
	Dim3 d;
	d.B = R.range(lo, hi);
	d.S = R.range(500, 3000);
	d.L = (int)((least + 100000 + R.u(9000000)) / d.B / d.S) + 1;
	return d;
}
static hyper_mat cube_f32(Dim3 d, const char* il, uint64_t key)
{
	char b[4] = {il[0], il[1], il[2], 0};
	hyper_mat m = create_hyper_mat(d.S, d.L, d.B, 4, b);
	REQ(m != NULL, "create_hyper_mat returned NULL");
	own(m);
	size_t n = (size_t)d.S * d.L * d.B;
	for (size_t q = 0; q < n; q++) F32(m)[q] = f32_at(key, q);
	return m;
}
SC(vast_radiometric, 1, VF)
{
	bool rel = R.p(50);
	Dim3 d = cube(R, 50, 300);
	uint64_t key = R.next();
	desc("%s correction of samples=%d lines=%d bands=%d", rel ? "relative" : "absolute", d.S, d.L, d.B); sig(d.S); sig(d.L); sig(d.B); seen("%s correction", rel ? "relative" : "absolute");
	int nc = rel ? d.B * d.S : d.B;
	float* c = raw<float>(nc);
	fill_f32(R, c, nc, -2, 3);
	size_t n = (size_t)d.S * d.L * d.B;
	hyper_mat m = rel ? own(create_hyper_mat(d.S, d.L, d.B, 12, (char*)"bip")) : cube_f32(d, "bip", key);
	if (rel) big_fill(key, m->data, n * 2);
	hyper_mat r = rel ? relative_radiometric_correction(m, c) : absolute_radiometric_correction(m, c);
	REQ(r != NULL, "correction: returned NULL");
	own(r);
	req_hm(r, d.S, d.L, d.B, 4, "bip", "correction");
	for (size_t k = 0; k < PROBES; k++) {
		size_t p = big_place(R, k, n);
		int b = (int)(p % d.B), j = (int)(p / d.B % d.S);
		double v = rel ? (double)((unsigned short*)m->data)[p] * c[(size_t)b * d.S + j] : (double)F32(m)[p] * c[b];
		if (!(fabs(F32(r)[p] - v) <= 1e-6 * fabs(v))) fail("value", "correction: element %zu of %dx%dx%d is %g, not %g", p, d.L, d.S, d.B, F32(r)[p], v);
	}
	compared(PROBES);
}
SC(vast_sam, 1, VF)
{
	Dim3 d = cube(R, 50, 300);
	uint64_t key = R.next();
	float th = (float)R.real(0.55, 0.6);
	desc("SAM match of samples=%d lines=%d bands=%d threshold %g", d.S, d.L, d.B, th); sig(d.S); sig(d.L); sig(d.B); seen("SAM match");
	hyper_mat m = cube_f32(d, "bip", key);
	float* sp = raw<float>(d.B);
	fill_f32(R, sp, d.B, 0.1, 10);
	// pixels that are the spectrum itself
	size_t np = (size_t)d.S * d.L;
	for (size_t k = 0; k < PROBES; k += 2) { size_t q = big_place(R, k, np * d.B) / d.B; if (big_byte(key + 1, q) & 1) memcpy(F32(m) + q * d.B, sp, d.B * 4); }
	simple_mat r = spectrum_SAM_match(m, sp, th);
	REQ(r != NULL, "SAM match returned NULL");
	own(r);
	req_sm(r, d.L, d.S, 1, 1, "SAM match");
	size_t hits = 0, said = 0;
	for (size_t k = 0; k < PROBES; k++) {
		size_t q = big_place(R, k, np * d.B) / d.B;
		double a = 0, b = 0, c = 0;
		for (int t = 0; t < d.B; t++) { double x = F32(m)[q * d.B + t], y = sp[t]; a += x * x; b += y * y; c += x * y; }
		double ang = acos(std::min(1.0, c / sqrt(a * b)));
		if (fabs(ang - th) < 1e-4) continue;
		said++; hits += ang < th;
		if (U8(r)[q] != (ang < th)) fail("value", "SAM match: pixel %zu of %dx%d at angle %g, threshold %g, is %d", q, d.L, d.S, ang, th, U8(r)[q]);
	}
	if (hits && hits < said) seen("matched and not matched");
	compared(said);
}
SC(vast_hm_mean, 1, VF)
{
	Dim3 d = cube(R, 50, 300);
	uint64_t key = R.next();
	desc("mean over the bands of samples=%d lines=%d bands=%d", d.S, d.L, d.B); sig(d.S); sig(d.L); sig(d.B); seen("mean over the bands");
	hyper_mat m = cube_f32(d, "bip", key);
	Dim2 t = {d.L, d.S};
	simple_mat o = out(t, 4, 1);
	hyper_mat_mean(m, o);
	size_t np = (size_t)d.S * d.L;
	for (size_t k = 0; k < PROBES; k++) {
		size_t q = big_place(R, k, np * d.B) / d.B;
		double s = 0;
		for (int b = 0; b < d.B; b++) s += F32(m)[q * d.B + b];
		s /= d.B;
		if (!(fabs(F32(o)[q] - s) <= 1e-4 * s)) fail("value", "mean over the bands: pixel %zu of %dx%d is %g, not %g", q, d.L, d.S, F32(o)[q], s);
	}
	compared(PROBES);
}
SC(vast_stretch, 1, VF)
{
	Dim3 d = cube(R, 2, 60);
	uint64_t key = R.next();
	desc("stretch of samples=%d lines=%d bands=%d", d.S, d.L, d.B); sig(d.S); sig(d.L); sig(d.B); seen("stretch");
	hyper_mat m = cube_f32(d, "bsq", key), o = create_hyper_mat(d.S, d.L, d.B, 1, (char*)"bsq");
	REQ(o != NULL, "create_hyper_mat returned NULL");
	own(o);
	hyper_mat_linear_tension(m, o);
	// bands of 35000000 pixels and more hold all of 1024 values
	for (size_t k = 0; k < PROBES; k++) {
		size_t p = big_place(R, k, (size_t)d.S * d.L * d.B);
		int g = ((unsigned char*)o->data)[p];
		double w = (F32(m)[p] - 0.25) * 255 / (256 - 0.25);
		int lo = (int)floor(w - 1e-3), hi = (int)floor(w + 1e-3);
		lo = lo <= 0 ? 1 : lo; hi = hi <= 0 ? 1 : hi > 255 ? 255 : hi;
		if (g != lo && g != hi) fail("value", "stretch: element %zu of %dx%dx%d, %g, becomes %d, not %g", p, d.B, d.L, d.S, F32(m)[p], g, w);
	}
	compared(PROBES);
}
SC(vast_equal, 1, VF)
{
	Img g = vast_u8(R, 1, "equalization", false, least(R));
	int lo = R.range(0, 100);
	for (size_t q = g.n / 2; q < g.n; q++) U8(g.m)[q] = (unsigned char)(lo + U8(g.m)[q] / 3);       // two halves
	long h[256] = {0};
	for (size_t q = 0; q < g.n; q++) h[U8(g.m)[q]]++;
	for (int i = 1; i < 256; i++) h[i] += h[i - 1];
	simple_mat o = out(g.d, 1, 1);
	HisEqualization(g.m, o);
	for (size_t k = 0; k < PROBES; k++) {
		size_t p = big_place(R, k, g.n);
		int w = (int)(h[U8(g.m)[p]] * 255 / (long)g.n);
		if (U8(o)[p] != w) fail("value", "equalization of %dx%d: pixel %zu of gray %d becomes %d, not %d", g.d.r, g.d.c, p, U8(g.m)[p], U8(o)[p], w);
	}
	compared(PROBES);
}
static const int NORMS[4] = {NORM_INF, NORM_L1, NORM_L2, NORM_MINMAX};
static const char* const NNAME[4] = {"INF", "L1", "L2", "MINMAX"};
static void normalized(Rng& R, int k, bool f)
{
	Img g;
	uint64_t key = R.next();
	size_t from = f ? 0x80000000 : least(R);
	if (!f) g = vast_u8(R, 1, "normalization", false, from);
	else {
		g.d = vast(R, 1); g.ch = 1; g.n = (size_t)g.d.r * g.d.c; g.key = key;
		desc("float normalization %s of %dx%d", NNAME[k], g.d.r, g.d.c); sig(g.d.r); sig(g.d.c);
		g.m = vast_f32(R, g.d, 1, key);
	}
	size_t n = g.n, far = from + R.u(90000);
	// the norm is decided beyond 2^31
	if (f) { F32(g.m)[far] = 40000; F32(g.m)[n - 1] = 50000; }
	else {
		for (size_t q = 0; q < n; q++) U8(g.m)[q] = (unsigned char)(10 + U8(g.m)[q] / 2);
		U8(g.m)[far] = 1; U8(g.m)[n - 1] = 250;
	}
	sig(k); seen("%s %s", f ? "float" : "uchar", NNAME[k]);
	double l1 = 0, l2 = 0, mx = -1, mn = 1e9;
	for (size_t q = 0; q < n; q++) { double x = f ? F32(g.m)[q] : U8(g.m)[q]; l1 += x; l2 += x * x; mx = std::max(mx, x); mn = std::min(mn, x); }
	l2 = sqrt(l2);
	float al = (float)(k == 1 ? n * R.real(50, 100) : k == 2 ? sqrt((double)n) * R.real(50, 100) : R.real(100, 255)), be = (float)R.real(0, 50);
	simple_mat o = f ? make(g.d.r, g.d.c, 4, 1) : out(g.d, 1, 1);
	hypercv_normalize(g.m, o, al, be, NORMS[k]);
	double hi = std::max(al, be), lo = std::min(al, be);
	for (size_t q = 0; q < PROBES; q++) {
		size_t p = big_place(R, q, n);
		double x = f ? F32(g.m)[p] : U8(g.m)[p], w = k == 0 ? x * al / mx : k == 1 ? x * al / l1 : k == 2 ? x * al / l2 : (x - mn) * (hi - lo) / (mx - mn) + lo;
		if (f) { if (!(fabs(F32(o)[p] - w) <= 4e-6 * (fabs(w) + fabs(lo)))) fail("value", "float normalization %s: element %zu of %dx%d, %g, becomes %g, not %g", NNAME[k], p, g.d.r, g.d.c, x, F32(o)[p], w); }
		else {
			double c = w < 0 ? 0 : w > 255 ? 255 : w;
			if (!(fabs(U8(o)[p] - c) <= 0.5 + 4e-6 * (fabs(w) + fabs(lo)))) fail("value", "normalization %s: element %zu of %dx%d, %g, becomes %d, not %g", NNAME[k], p, g.d.r, g.d.c, x, U8(o)[p], c);
		}
	}
	compared(PROBES);
}
SC(vast_norm_inf, 1, VF) { normalized(R, 0, false); }
SC(vast_norm_l1, 1, VF) { normalized(R, 1, false); }
SC(vast_norm_l2, 1, VF) { normalized(R, 2, false); }
SC(vast_norm_minmax, 1, VF) { normalized(R, 3, false); }
SC(vast_fnorm_inf, 1, VF) { normalized(R, 0, true); }
SC(vast_fnorm_l1, 1, VF) { normalized(R, 1, true); }
SC(vast_fnorm_l2, 1, VF) { normalized(R, 2, true); }
SC(vast_fnorm_minmax, 1, VF) { normalized(R, 3, true); }
static void mean_var(Rng& R, int type, int var)
{
	static const char* const WHAT[2] = {"mean", "variance"};
	Dim2 d = vast(R, 1, type == 1 ? least(R) : 0x80000000);
	size_t n = (size_t)d.r * d.c, e = esize(type);
	desc("%s of %dx%d type %d", WHAT[var], d.r, d.c, type); sig(d.r); sig(d.c); sig(type); sig(var); seen("%s type %d", WHAT[var], type);
	simple_mat m = make(d.r, d.c, type, 1);
	int a = R.range(1, 40), b = R.range(60, 100);        // another half beyond
	for (size_t q = 0; q < n; q++) {
		int v = (q < n / 2 ? a : b) + (int)(q & 3);
		if (type == 4) F32(m)[q] = (float)v;
		else if (type == 5) ((double*)m->data)[q] = v;
		else if (e == 1) U8(m)[q] = (unsigned char)v;
		else if (e == 2) ((short*)m->data)[q] = (short)v;
		else if (e == 4) ((int*)m->data)[q] = v;
		else ((long*)m->data)[q] = v;
	}
	double h = (double)(n / 2) / n, mean = h * a + (1 - h) * b + 1.5, want = var ? h * (1 - h) * (b - a) * (b - a) + 1.25 : mean;
	double got = var ? simple_mat_variance(m) : simple_mat_mean(m);
	REQ(fabs(got - want) <= 1e-5 * want, "the %s of %dx%d type %d is %g, not %g", WHAT[var], d.r, d.c, type, got, want);
	compared();
}
SC(vast_mean, 1, VF) { mean_var(R, 1, 0); }
SC(vast_variance, 1, VF) { mean_var(R, 1, 1); }
SC(vast_variance_2, 1, VF) { mean_var(R, 2, 1); }
SC(vast_variance_3, 1, VF) { mean_var(R, 3, 1); }
SC(vast_variance_4, 1, VF) { mean_var(R, 4, 1); }
SC(vast_variance_5, 1, VF) { mean_var(R, 5, 1); }
SC(vast_variance_12, 1, VF) { mean_var(R, 12, 1); }
SC(vast_variance_13, 1, VF) { mean_var(R, 13, 1); }
SC(vast_variance_14, 1, VF) { mean_var(R, 14, 1); }
SC(vast_variance_15, 1, VF) { mean_var(R, 15, 1); }
static void statistic(Rng& R, int what, int ch = 1)
{
	static const char* const N[3] = {"histogram", "contrast", "entropy"};
	Img g = vast_u8(R, ch, N[what], false, least(R));
	if (ch == 3) for (size_t q = 0; q < g.n; q++) U8(g.m)[q] = (unsigned char)((q / 3 < g.n / 6 ? 0 : 128) + (q / 3 & 63));
	else for (size_t q = g.n / 2; q < g.n; q++) U8(g.m)[q] = (unsigned char)(128 + (q & 63));
	size_t px = (size_t)g.d.r * g.d.c;
	#define GRAY(q) (ch == 1 ? U8(g.m)[q] : U8(g.m)[(q) * 3])
	if (what == 1) {
		double c = 0, pairs = (double)g.d.r * (g.d.c - 1) + (double)g.d.c * (g.d.r - 1);
		for (int i = 0; i < g.d.r; i++) {
			long s = 0;
			for (int j = 0; j < g.d.c; j++) {
				size_t q = (size_t)i * g.d.c + j;
				int v = GRAY(q), t;
				if (j) { t = v - GRAY(q - 1); s += t * t; }
				if (i) { t = v - GRAY(q - g.d.c); s += t * t; }
			}
			c += s;
		}
		c /= pairs;
		float v = simple_mat_contrast_ratio(g.m);
		REQ(fabs(v - c) <= 1e-5 * c, "the contrast of %dx%dx%d is %g, not %g", g.d.r, g.d.c, ch, v, c);
		compared();
		return;
	}
	long h[256] = {0};
	for (size_t q = 0; q < px; q++) h[GRAY(q)]++;
	if (what == 0) {
		int* got = raw<int>(256);
		simple_mat_grayscale_statistics(g.m, got);
		for (int i = 0; i < 256; i++) REQ(got[i] == h[i], "the histogram of %dx%dx%d counts %d pixels of gray %d, not %ld", g.d.r, g.d.c, ch, got[i], i, h[i]);
		compared(256);
	} else {
		double e = 0;
		for (int i = 0; i < 256; i++) if (h[i]) { double p = (double)h[i] / px; e -= p * log2(p); }
		float v = simple_mat_entropy(g.m);
		REQ(fabs(v - e) <= 1e-4 * e, "the entropy of %dx%dx%d is %g, not %g", g.d.r, g.d.c, ch, v, e);
		compared();
	}
}
SC(vast_histogram, 1, VF) { statistic(R, 0); }
SC(vast_histogram_3, 1, VF) { statistic(R, 0, 3); }
SC(vast_contrast, 1, VF) { statistic(R, 1); }
SC(vast_entropy, 1, VF) { statistic(R, 2); }
SC(vast_kmeans, 1, VF)
{
	// one group beyond 2^31
	size_t from = least(R);
	Dim2 d = vast(R, 1, from);
	simple_mat m = make(d.r, d.c, 1, 1);
	int far = (int)((from + d.c - 1) / d.c), y0 = far + (int)R.u(d.r - far), x0 = (int)R.u(d.c - 20), w = R.range(1, 20);
	for (int j = 0; j < w; j++) U8(m)[(size_t)y0 * d.c + x0 + j] = 255;
	desc("k-means of %dx%d with %d pixels in row %d from column %d", d.r, d.c, w, y0, x0); sig(d.r); sig(d.c); sig(w); sig(y0); seen("k-means");
	POINT* v = NULL;
	POINT zero = {0, 0};
	vector_init(v, zero, (size_t)1);
	hypercv_k_means(m, v, 1, 0);
	POINT c = v[0];
	vector_free(v);
	REQ(c.x == x0 + (w - 1) / 2 && c.y == y0, "k-means: the centre is (%d,%d), not (%d,%d)", c.x, c.y, x0 + (w - 1) / 2, y0);
	compared();
}
SC(vast_hu, 1, VF)
{
	size_t from = least(R);
	Dim2 d = vast(R, 1, from);
	simple_mat m = make(d.r, d.c, 1, 1);
	int far = (int)((from + d.c - 1) / d.c), h = R.range(1, 3), y0 = far + (int)R.u(std::max(1, d.r - far - h)), x0 = (int)R.u(d.c - 40), w = R.range(2, 40);
	h = std::min(h, d.r - y0);
	double s = 0, sx = 0, sy = 0, u = 0;
	for (int i = 0; i < h; i++) for (int j = 0; j < w; j++) { int v = R.range(100, 255); U8(m)[(size_t)(y0 + i) * d.c + x0 + j] = (unsigned char)v; s += v; sx += (double)v * (x0 + j); sy += (double)v * (y0 + i); }
	desc("moments of %dx%d with %dx%d pixels at row %d column %d", d.r, d.c, h, w, y0, x0); sig(d.r); sig(d.c); sig(w); sig(y0); seen("moments");
	double cx = floor(sx / s + 0.5), cy = floor(sy / s + 0.5), hu[7];
	for (int i = 0; i < h; i++) for (int j = 0; j < w; j++) u += U8(m)[(size_t)(y0 + i) * d.c + x0 + j] * ((x0 + j - cx) * (x0 + j - cx) + (y0 + i - cy) * (y0 + i - cy));
	u = u / s / s;
	NEED(fabs(sx / s + 0.5 - round(sx / s + 0.5)) > 1e-6 && fabs(sy / s + 0.5 - round(sy / s + 0.5)) > 1e-6);
	calc_hu_moment(hu, m);
	REQ(fabs(hu[0] - u) <= 1e-6 * u, "the first Hu moment of %dx%d is %g, not %g", d.r, d.c, hu[0], u);
	compared();
}
static void drawn(Rng& R, bool line, int ch)
{
	size_t from = least(R);
	Img g = vast_u8(R, ch, line ? "line" : "points", false, from);
	simple_mat o = out(g.d, 1, ch);
	RGB_data col;
	col.r = 1; col.g = 2; col.b = 3;
	int far = (int)(from / ch / g.d.c), n = R.range(1, 4);
	std::vector<std::pair<int, int> > at;
	POINT* v = raw<POINT>(4);
	if (line) {
		v[0].x = R.range(0, g.d.c - 1); v[0].y = std::min(g.d.r - 1, far + R.range(-20, 20)); v[1] = v[0]; v[1].y = g.d.r - 1;
		draw_line(g.m, o, v[0], v[1], col, 1);
		for (int y = v[0].y; y <= v[1].y; y++) at.push_back(std::make_pair(v[0].x, y));
	} else {
		for (int k = 0; k < n; k++) { v[k].x = R.range(0, g.d.c - 1); v[k].y = k ? R.range(std::min(far, g.d.r - 1), g.d.r - 1) : g.d.r - 1; at.push_back(std::make_pair(v[k].x, v[k].y)); }
		draw_POINT(g.m, o, v, n, col, 1);
	}
	for (size_t k = 0; k < at.size(); k++) {
		unsigned char* q = U8(o) + ((size_t)at[k].second * g.d.c + at[k].first) * ch;
		REQ(ch == 1 ? q[0] == 1 : q[0] == 3 && q[1] == 2 && q[2] == 1, "drawing on %dx%dx%d: column %d row %d is not drawn", g.d.r, g.d.c, ch, at[k].first, at[k].second);
	}
	AT_PROBES(g.n, g.d.c, ch, i, j, c) {
		bool drawn = false;
		if (line) drawn = abs(j - v[0].x) <= 1 && i >= v[0].y;
		else for (size_t k = 0; k < at.size(); k++) drawn |= abs(at[k].first - j) <= 1 && abs(at[k].second - i) <= 1;
		if (!drawn && U8(o)[p] != g.px(i, j, c)) fail("value", "drawing on %dx%dx%d changed row %d col %d", g.d.r, g.d.c, ch, i, j);
	}
	compared(PROBES + at.size());
	req_kept(R, g);
}
SC(vast_points, 1, VF) { drawn(R, false, 1); }
SC(vast_points_3, 1, VF) { drawn(R, false, 3); }
SC(vast_line, 1, VF) { drawn(R, true, 1); }
SC(vast_line_3, 1, VF) { drawn(R, true, 3); }
static void types(Rng& R, int kind)
{
	Dim3 d = cube(R, 3, 300);
	size_t n = (size_t)d.S * d.L * d.B;
	uint64_t key = R.next();
	static const int FROM[6] = {1, 1, 12, 4, 4, 4}, TO[6] = {4, 3, 4, 1, 12, 3};
	static const char* const N[6] = {"uchar to float", "uchar to int", "ushort to float", "float to uchar", "float to ushort", "float to int"};
	const char* il = ILS[R.u(3)];
	char ib[4] = {il[0], il[1], il[2], 0};
	desc("%s of samples=%d lines=%d bands=%d", N[kind], d.S, d.L, d.B); sig(n); sig(kind); seen("%s", N[kind]);
	hyper_mat m = create_hyper_mat(d.S, d.L, d.B, FROM[kind], ib);
	REQ(m != NULL, "create_hyper_mat returned NULL");
	own(m);
	if (FROM[kind] == 4) for (size_t q = 0; q < n; q++) F32(m)[q] = (float)(int)(big_word(key, q) >> 40 & 0xff);
	else big_fill(key, m->data, n * esize(FROM[kind]));
	hyper_mat o = kind == 0 ? hyper_mat_uchar2float(m) : kind == 1 ? hyper_mat_uchar2int(m) : kind == 2 ? hyper_mat_ushort2float(m) : kind == 3 ? hyper_mat_float2uchar(m) : kind == 4 ? hyper_mat_float2ushort(m) : hyper_mat_float2int(m);
	REQ(o != NULL, "the conversion returned NULL");
	own(o);
	req_hm(o, d.S, d.L, d.B, TO[kind], il, "type conversion");
	for (size_t k = 0; k < PROBES; k++) {
		size_t p = big_place(R, k, n);
		double w = FROM[kind] == 1 ? ((unsigned char*)m->data)[p] : FROM[kind] == 12 ? ((unsigned short*)m->data)[p] : F32(m)[p];
		double g = TO[kind] == 4 ? F32(o)[p] : TO[kind] == 3 ? ((int*)o->data)[p] : TO[kind] == 1 ? ((unsigned char*)o->data)[p] : ((unsigned short*)o->data)[p];
		if (g != w) fail("value", "%s: element %zu of %dx%dx%d is %g, not %g", N[kind], p, d.S, d.L, d.B, g, w);
	}
	compared(PROBES);
}
SC(vast_uchar2float, 1, VF) { types(R, 0); }
SC(vast_uchar2int, 1, VF) { types(R, 1); }
SC(vast_ushort2float, 1, VF) { types(R, 2); }
SC(vast_float2uc, 1, VF) { types(R, 3); }
SC(vast_float2ushort, 1, VF) { types(R, 4); }
SC(vast_float2int, 1, VF) { types(R, 5); }
