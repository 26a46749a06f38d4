// Calls that break a stated precondition have to be refused: "ERROR: ..." and exit status 1.
#include "h.h"
#include <utility>
void alloc_cap(size_t n);

struct Bad { const char* name; void (*fn)(Rng& R); };
static int n9(Rng& R) { return R.range(1, 9); }
static Dim3 d3(Rng& R) { return Dim3{n9(R), n9(R), n9(R)}; }
static Dim2 d2(Rng& R) { return Dim2{R.range(1, 20), R.range(1, 20)}; }
static hyper_mat cube(Rng& R, int type, const char* il) { return in_hm(R, d3(R), type, il); }
static const char* other_il(Rng& R, int il) { return ILS[(il + 1 + R.u(2)) % 3]; }
static int other_type(Rng& R, int t) { int k; do k = R.pick(ALL_TYPES); while (k == t); return k; }
static Dim2 other(Rng& R, Dim2 d)       // a different size, smaller or larger, in one or both directions
{
	Dim2 e = d;
	int m = (int)R.u(3);
	if (m != 1) e.r = R.p(50) && d.r > 1 ? d.r - 1 : d.r + R.range(1, 3);
	if (m != 0) e.c = R.p(50) && d.c > 1 ? d.c - 1 : d.c + R.range(1, 3);
	return e;
}
static int bad_border(Rng& R) { static const int B[] = {5, 6, 8, 16, -1, 100, 17, 2147483647}; return R.pick(B); }
static int nonpos(Rng& R) { static const int B[] = {0, -1, -2, -1000, -2147483647 - 1}; return R.pick(B); }
static int bad_type(Rng& R) { static const int B[] = {0, -1, 7, 8, 10, 11, 16, 100, -4, 2147483647}; return R.pick(B); }
static simple_mat sm(Rng& R, Dim2 d, int type = 1, int ch = 1) { return in_sm(R, d, type, ch); }
static simple_mat o2(simple_mat s, Rng& R) { return sm(R, other(R, Dim2{s->rows, s->cols}), s->data_type, s->channels); }
static void* const NUL = NULL;
static S_2D structure(Rng& R)
{
	int w = R.range(1, 3), h = R.range(1, 3);
	unsigned char one[9] = {1, 1, 1, 1, 1, 1, 1, 1, 1};
	return create_2D_struct_with_data(w, h, one);
}
typedef hyper_mat (*HConv)(hyper_mat);
static hyper_mat (*const FROM_UC[])(hyper_mat) = {hyper_mat_uchar2short, hyper_mat_uchar2int, hyper_mat_uchar2float, hyper_mat_uchar2ushort};
static hyper_mat (*const FROM_F[])(hyper_mat) = {hyper_mat_float2char, hyper_mat_float2int, hyper_mat_float2short, hyper_mat_float2ushort, hyper_mat_float2uchar, hyper_mat_float2uint};
typedef void (*Thr)(simple_mat, simple_mat, int, int);
static const Thr THR[] = {hypercv_threshold_binary, hypercv_threshold_binary_inv, hypercv_threshold_trunc, hypercv_threshold_tozero, hypercv_threshold_tozero_inv};
typedef void (*Dft)(simple_mat, simple_mat, simple_mat);
static const Dft DFTS[] = {hypercv_dft, hypercv_dft_uchar, hypercv_dft_ushort};
typedef void (*Flip)(simple_mat, simple_mat);
static const Flip FLIPS[] = {simple_mat_flip_horizontal, simple_mat_flip_vertical};
typedef void (*Stat)(simple_mat);
static void st_contrast(simple_mat m) { simple_mat_contrast_ratio(m); }
static void st_entropy(simple_mat m) { simple_mat_entropy(m); }
static void st_gray(simple_mat m) { static int g[256]; simple_mat_grayscale_statistics(m, g); }
static void st_mean(simple_mat m) { simple_mat_mean(m); }
static void st_var(simple_mat m) { simple_mat_variance(m); }
static const Stat BYTE_STATS[] = {st_contrast, st_entropy, st_gray};
static const Stat GRAY_STATS[] = {st_mean, st_var};
typedef void (*Norm)(simple_mat, simple_mat, float, float, int);
static const Norm NORMS[] = {hypercv_normalize, hypercv_normalize_uchar, hypercv_normalize_float};

extern "C" simple_mat hypercv_colortransform(simple_mat src_mat, int method);
static void extern_colortransform(Rng& R)
{
	if (R.p(50)) hypercv_colortransform(NULL, COLOR_BGR2RGB);
	else hypercv_colortransform(sm(R, d2(R), 1, 3), R.p(50) ? -R.range(1, 9) : 1000 + (int)R.u(9));
}
// a call of a function the tree does not have says nothing
#define HAVE(f) do { if (!(f)) { printf("ERROR: no such function\n"); fflush(stdout); _Exit(1); } } while (0)
#define J(name, ...) {name, [](Rng& R) { (void)R; __VA_ARGS__ }}
static const Bad BAD[] = {
	// creation
	J("create_hyper_mat with a size that is not positive", int s[3] = {n9(R), n9(R), n9(R)}; s[R.u(3)] = nonpos(R); create_hyper_mat(s[0], s[1], s[2], R.pick(ALL_TYPES), ILS[R.u(3)]);),
	J("create_hyper_mat with an unknown data type", create_hyper_mat(n9(R), n9(R), n9(R), bad_type(R), ILS[R.u(3)]);),
	J("create_hyper_mat whose size overflows", create_hyper_mat(2000000000, R.range(1900000000, 2000000000), R.range(500, 2000000000), R.pick(ALL_TYPES), ILS[R.u(3)]);),
	J("create_hyper_mat beyond the memory", alloc_cap(1 << 26); create_hyper_mat(R.range(20000, 2000000000), R.range(4000, 70000), R.range(2, 9), R.pick(ALL_TYPES), ILS[R.u(3)]);),
	J("create_simple_mat with a size that is not positive", int s[3] = {n9(R), n9(R), n9(R)}; s[R.u(3)] = nonpos(R); create_simple_mat(s[0], s[1], R.pick(ALL_TYPES), s[2]);),
	J("create_simple_mat with an unknown data type", create_simple_mat(n9(R), n9(R), bad_type(R), R.range(1, 4));),
	J("create_simple_mat whose size overflows", create_simple_mat(2000000000, R.range(1900000000, 2000000000), R.pick(ALL_TYPES), R.range(500, 2000000000));),
	J("create_simple_mat beyond the memory", alloc_cap(1 << 26); create_simple_mat(R.range(20000, 2000000000), R.range(4000, 70000), R.pick(ALL_TYPES), R.range(1, 4));),
	J("create_2D_struct with a size that is not positive", if (R.p(50)) create_2D_struct(nonpos(R), n9(R)); else create_2D_struct(n9(R), nonpos(R));),
	J("create_2D_struct_with_data with a size that is not positive", unsigned char b[9] = {0}; if (R.p(50)) create_2D_struct_with_data(nonpos(R), n9(R), b); else create_2D_struct_with_data(n9(R), nonpos(R), b);),
	// cubes
	J("bil2bsq or bil2bip of another interleave", HConv f = R.p(50) ? bil2bsq : bil2bip; f(cube(R, R.pick(ALL_TYPES), f == bil2bsq ? "bip" : "bsq"));),
	J("bsq2bil or bsq2bip of another interleave", HConv f = R.p(50) ? bsq2bil : bsq2bip; f(cube(R, R.pick(ALL_TYPES), f == bsq2bil ? "bip" : "bil"));),
	J("bip2bsq or bip2bil of another interleave", HConv f = R.p(50) ? bip2bsq : bip2bil; f(cube(R, R.pick(ALL_TYPES), f == bip2bsq ? "bil" : "bsq"));),
	J("interleave conversion of NULL", HConv f[] = {bil2bsq, bil2bip, bsq2bil, bsq2bip, bip2bsq, bip2bil}; f[R.u(6)](NULL);),
	J("hyper_mat_copy_to of NULL", hyper_mat m = cube(R, 1, "bsq"); if (R.p(50)) hyper_mat_copy_to(NULL, m); else hyper_mat_copy_to(m, NULL);),
	J("hyper_mat_copy_to of another size", Dim3 d = d3(R); Dim3 e = d; int* p[3] = {&e.S, &e.L, &e.B}; *p[R.u(3)] += R.range(1, 3); if (R.p(50)) std::swap(d, e); int t = R.pick(ALL_TYPES);
		hyper_mat_copy_to(in_hm(R, d, t, "bsq"), in_hm(R, e, t, "bsq"));),
	J("hyper_mat_copy_to of another data type", Dim3 d = d3(R); int t = R.pick(ALL_TYPES); hyper_mat_copy_to(in_hm(R, d, t, "bil"), in_hm(R, d, other_type(R, t), "bil"));),
	J("hyper_mat_copy_wavelength of NULL", hyper_mat m = cube(R, 1, "bsq"); if (R.p(50)) hyper_mat_copy_wavelength(NULL, m); else hyper_mat_copy_wavelength(m, NULL);),
	J("hyper_mat_copy_wavelength of other bands", Dim3 d = d3(R); Dim3 e = d; e.B += R.range(1, 4); if (R.p(50)) std::swap(d, e); hyper_mat_copy_wavelength(in_hm(R, d, 1, "bsq"), in_hm(R, e, 1, "bsq"));),
	J("hyper_mat_get_range that is empty or reversed", Dim3 d = d3(R); hyper_mat m = in_hm(R, d, R.pick(ALL_TYPES), ILS[R.u(3)]); int a[3] = {0, 0, 0}; int b[3] = {d.L, d.S, d.B}; int k = (int)R.u(3);
		if (R.p(50)) a[k] = b[k]; else { int n = b[k]; a[k] = n; b[k] = R.range(0, n); }
		hyper_mat_get_range(m, a[0], a[1], a[2], b[0], b[1], b[2]);),
	J("hyper_mat_get_range before the image", Dim3 d = d3(R); hyper_mat m = in_hm(R, d, R.pick(ALL_TYPES), ILS[R.u(3)]); int a[3] = {0, 0, 0}; a[R.u(3)] = -R.range(1, 100);
		hyper_mat_get_range(m, a[0], a[1], a[2], d.L, d.S, d.B);),
	J("hyper_mat_get_range beyond the image", Dim3 d = d3(R); hyper_mat m = in_hm(R, d, R.pick(ALL_TYPES), ILS[R.u(3)]); int b[3] = {d.L, d.S, d.B}; b[R.u(3)] += R.p(50) ? 1 : R.range(1, 1000);
		hyper_mat_get_range(m, 0, 0, 0, b[0], b[1], b[2]);),
	J("hyper_mat_2_simple_mat of another interleave", Dim3 d = d3(R); hyper_mat_2_simple_mat(in_hm(R, d, 1, ILS[R.range(1, 2)]), sm(R, {d.L, d.S}), 1);),
	J("hyper_mat_2_simple_mat of a band outside", Dim3 d = d3(R); int t = R.pick(ALL_TYPES); hyper_mat_2_simple_mat(in_hm(R, d, t, "bsq"), sm(R, {d.L, d.S}, t), R.p(50) ? nonpos(R) : d.B + R.range(1, 50));),
	J("hyper_mat_2_simple_mat into a small mat", Dim3 d = {R.range(2, 9), R.range(2, 9), n9(R)}; int t = R.pick(ALL_TYPES);
		hyper_mat_2_simple_mat(in_hm(R, d, t, "bsq"), R.p(50) ? sm(R, {d.L - 1, d.S}, t) : sm(R, {d.L, d.S - 1}, t), 1);),
	J("simple_mat_2_hyper_mat of another size", Dim3 d = d3(R); Dim2 e = other(R, {d.L, d.S}); int t = R.pick(ALL_TYPES); simple_mat_2_hyper_mat(in_hm(R, d, t, "bsq"), sm(R, e, t), 1);),
	J("simple_mat_2_hyper_mat into a band outside", Dim3 d = d3(R); int t = R.pick(ALL_TYPES); simple_mat_2_hyper_mat(in_hm(R, d, t, "bsq"), sm(R, {d.L, d.S}, t), R.p(50) ? nonpos(R) : d.B + R.range(1, 50));),
	J("simple_mat_2_hyper_mat into another interleave", Dim3 d = d3(R); int t = R.pick(ALL_TYPES); simple_mat_2_hyper_mat(in_hm(R, d, t, ILS[R.range(1, 2)]), sm(R, {d.L, d.S}, t), 1);),
	J("simple_mat_2_hyper_mat of another data type", Dim3 d = d3(R); int t = R.pick(ALL_TYPES); simple_mat_2_hyper_mat(in_hm(R, d, t, "bsq"), sm(R, {d.L, d.S}, other_type(R, t)), 1);),
	J("simple_mat_2_hyper_mat of a color mat", Dim3 d = d3(R); int t = R.pick(ALL_TYPES); simple_mat_2_hyper_mat(in_hm(R, d, t, "bsq"), sm(R, {d.L, d.S}, t, R.range(2, 4)), 1);),
	J("reshape_hypermat_2_simplemat to another size", Dim3 d = d3(R); reshape_hypermat_2_simplemat(in_hm(R, d, R.pick(ALL_TYPES), "bsq"), d.S * d.L, d.B + R.range(1, 3));),
	J("hyper_mat_splicing of another data type", Dim3 d = d3(R); int t = R.pick(ALL_TYPES); hyper_mat_splicing(in_hm(R, d, t, "bsq"), in_hm(R, {1, 1, 1}, other_type(R, t), "bsq"), 0);),
	J("hyper_mat_splicing outside of the mat", Dim3 d = d3(R); int n = d.S * d.L * d.B; int t = R.pick(ALL_TYPES); Dim3 e = {R.range(1, d.S), R.range(1, d.L), R.range(1, d.B)}; int k = e.S * e.L * e.B;
		hyper_mat_splicing(in_hm(R, d, t, "bsq"), in_hm(R, e, t, "bsq"), R.p(50) ? -R.range(1, 9) : n - k + R.range(1, 9));),
	J("hyper_mat_splicing of a larger part", Dim3 d = d3(R); Dim3 e = d; e.B++; int t = R.pick(ALL_TYPES); hyper_mat_splicing(in_hm(R, d, t, "bsq"), in_hm(R, e, t, "bsq"), 0);),
	J("hyper_mat_transport of another interleave or size", Dim3 d = d3(R); Dim3 e = {d.L, d.S, d.B}; const char* il = "bsq"; if (R.p(50)) il = ILS[R.range(1, 2)]; else { int* p[3] = {&e.S, &e.L, &e.B}; *p[R.u(3)] += 1; }
		hyper_mat_transport(in_hm(R, e, 2, il), in_hm(R, d, 2, il));),
	J("hyper_mat_transport of NULL", hyper_mat_transport(cube(R, 1, "bsq"), NULL);),
	J("hyper_mat_mean of another interleave", Dim3 d = d3(R); hyper_mat_mean(in_hm(R, d, 4, ILS[R.u(2)]), sm(R, {d.L, d.S}, 4));),
	J("hyper_mat_mean into another size or type", Dim3 d = d3(R); simple_mat m = R.p(50) ? sm(R, {d.L, d.S}, other_type(R, 4)) : sm(R, other(R, {d.L, d.S}), 4); hyper_mat_mean(in_hm(R, d, 4, "bip"), m);),
	J("hyper_mat_mean of NULL", hyper_mat_mean(NULL, sm(R, {2, 2}, 4));),
	// files
	J("hmread or hmsave with a NULL path", hyper_mat m = cube(R, 1, "bsq"); switch (R.u(5)) { case 0: hmread_with_hdr(NULL, "x"); break; case 1: hmread_with_hdr("x", NULL); break; case 2: hmread_with_size(NULL, 1, 1, 1, 1, "bsq"); break; case 3: hmsave(NULL, m); break; case 4: hmsave(scratch("never"), NULL); }),
	J("hmread_with_size with a size that is not positive", int s[3] = {n9(R), n9(R), n9(R)}; s[R.u(3)] = nonpos(R); hmread_with_size("/proc/self/cmdline", s[0], s[1], s[2], R.pick(ALL_TYPES), "bsq");),
	J("bitmap functions with NULL", simple_mat m = sm(R, d2(R)); switch (R.u(3)) { case 0: smread_bmp(NULL); break; case 1: smwrite_bmp(NULL, m); break; case 2: smwrite_bmp(scratch("never.bmp"), NULL); }),
	J("smread with a NULL path", smread(NULL, 1, 1, 1, 1);),
	J("smwrite_bmp of another data type", smwrite_bmp(scratch("never.bmp"), sm(R, d2(R), other_type(R, 1), R.p(50) ? 1 : 3));),
	J("smwrite_bmp of other channels", smwrite_bmp(scratch("never.bmp"), sm(R, d2(R), 1, R.p(50) ? 2 : 4));),
	// data types
	J("conversion of a cube that does not hold bytes", FROM_UC[R.u(4)](cube(R, other_type(R, 1), ILS[R.u(3)]));),
	J("conversion of a cube that does not hold floats", int k = (int)R.u(6); HAVE(FROM_F[k]); FROM_F[k](cube(R, other_type(R, 4), ILS[R.u(3)]));),
	J("hyper_mat_ushort2float of another data type", hyper_mat_ushort2float(cube(R, other_type(R, 12), ILS[R.u(3)]));),
	J("simple_mat_float2uchar of another data type or NULL", if (R.p(30)) simple_mat_float2uchar(NULL); else simple_mat_float2uchar(sm(R, d2(R), other_type(R, 4), R.range(1, 3)));),
	// filters
	J("hypercv_filter2D with NULL", simple_mat s = sm(R, d2(R)); simple_mat o = sm(R, {s->rows, s->cols}, 4); float k[9] = {1}; switch (R.u(3)) { case 0: hypercv_filter2D(NULL, o, k, 3, 3, 4); break; case 1: hypercv_filter2D(s, NULL, k, 3, 3, 4); break; case 2: hypercv_filter2D(s, o, NULL, 3, 3, 4); }),
	J("hypercv_filter2D into another type", simple_mat s = sm(R, d2(R)); float k[9] = {1}; hypercv_filter2D(s, sm(R, {s->rows, s->cols}, other_type(R, 4)), k, 3, 3, 4);),
	J("hypercv_filter2D into another size", simple_mat s = sm(R, d2(R)); float k[9] = {1}; hypercv_filter2D(s, sm(R, other(R, {s->rows, s->cols}), 4), k, 3, 3, 4);),
	J("hypercv_filter2D into other channels", simple_mat s = sm(R, d2(R), 1, 1 + 2 * (int)R.u(2)); float k[9] = {1}; hypercv_filter2D(s, sm(R, {s->rows, s->cols}, 4, s->channels == 1 ? 3 : 1), k, 3, 3, 4);),
	J("hypercv_filter2D with an unknown border", simple_mat s = sm(R, d2(R)); float k[9] = {1}; hypercv_filter2D(s, sm(R, {s->rows, s->cols}, 4), k, 3, 3, bad_border(R));),
	J("hypercv_medianblur with NULL or an even size", simple_mat s = sm(R, d2(R)); simple_mat o = sm(R, {s->rows, s->cols}); switch (R.u(3)) { case 0: hypercv_medianblur(NULL, o, 3); break; case 1: hypercv_medianblur(s, NULL, 3); break; case 2: hypercv_medianblur(s, o, 2 * (int)R.u(5)); }),
	J("hypercv_meanblur with NULL or a size that is not positive", simple_mat s = sm(R, d2(R)); simple_mat o = sm(R, {s->rows, s->cols}); switch (R.u(3)) { case 0: hypercv_meanblur(NULL, o, 3); break; case 1: hypercv_meanblur(s, NULL, 3); break; case 2: hypercv_meanblur(s, o, nonpos(R)); }),
	J("gaussian_kernel with a bad size or type", if (R.p(50)) gaussian_kernel(nonpos(R), 1, R.range(4, 5)); else { int t; do t = R.pick(ALL_TYPES); while (t == 4 || t == 5); gaussian_kernel(R.range(1, 9), 1, t); }),
	J("hypercv_gaussian_blur with a bad kernel size", simple_mat s = sm(R, d2(R)); simple_mat o = sm(R, {s->rows, s->cols}); int b = R.p(50) ? 2 * R.range(0, 5) : nonpos(R); if (R.p(50)) hypercv_gaussian_blur(s, o, b, 3, 1, 1, 4); else hypercv_gaussian_blur(s, o, 3, b, 1, 1, 4);),
	J("hypercv_gaussian_blur with NULL or an unknown border", simple_mat s = sm(R, d2(R)); simple_mat o = sm(R, {s->rows, s->cols}); if (R.p(30)) hypercv_gaussian_blur(NULL, o, 3, 3, 1, 1, 4); else hypercv_gaussian_blur(s, o, 3, 3, 1, 1, bad_border(R));),
	J("hypercv_gaussian_blur_with_kernel of NULL, an unknown border or other channels", int ch = R.p(50) ? 2 : 4; simple_mat s = sm(R, d2(R), 1, ch); simple_mat o = sm(R, {s->rows, s->cols}, 1, ch); simple_mat g = sm(R, d2(R)); simple_mat go = sm(R, {g->rows, g->cols}); simple_mat k = own(gaussian_kernel(3, 1, 4));
		switch (R.u(3)) { case 0: hypercv_gaussian_blur_with_kernel(NULL, go, k, k, 4); break; case 1: hypercv_gaussian_blur_with_kernel(g, go, k, k, bad_border(R)); break; case 2: hypercv_gaussian_blur_with_kernel(s, o, k, k, 4); }),
	J("hypercv_integral of NULL", hypercv_integral(NULL, sm(R, {2, 2}, 3));),
	J("hypercv_integral of an image that is not gray bytes", Dim2 d = d2(R); bool t = R.p(50); hypercv_integral(sm(R, d, t ? other_type(R, 1) : 1, t ? 1 : R.range(2, 4)), sm(R, d, 3));),
	J("hypercv_integral into another type", Dim2 d = d2(R); hypercv_integral(sm(R, d), R.p(50) ? sm(R, d, other_type(R, 3)) : sm(R, d, 3, R.range(2, 4)));),
	J("hypercv_copy_make_border with a bad argument", simple_mat s = sm(R, d2(R)); int b[4] = {1, 1, 1, 1}; switch (R.u(3)) { case 0: hypercv_copy_make_border(NULL, 1, 1, 1, 1, 4, 0); break; case 1: b[R.u(4)] = -R.range(1, 50); hypercv_copy_make_border(s, b[0], b[1], b[2], b[3], 4, 0); break; case 2: hypercv_copy_make_border(s, 1, 1, 1, 1, bad_border(R), 0); }),
	J("hypercv_border_Interpolate with an unknown border or length", if (R.p(50)) hypercv_border_Interpolate(R.range(-9, 9), 5, bad_border(R)); else hypercv_border_Interpolate(R.range(-9, 9), -R.range(1, 50), 4);),
	J("hypercv_laplacian with NULL or a size that is not positive", simple_mat s = sm(R, d2(R)); simple_mat o = sm(R, {s->rows, s->cols}, 4); switch (R.u(3)) { case 0: hypercv_laplacian(NULL, o, 1, 4); break; case 1: hypercv_laplacian(s, NULL, 1, 4); break; case 2: hypercv_laplacian(s, o, nonpos(R), 4); }),
	J("hypercv_sobel with another size, border or channels", simple_mat s = sm(R, d2(R)); simple_mat o = sm(R, {s->rows, s->cols}); simple_mat x; simple_mat y; switch (R.u(3)) { case 0: hypercv_sobel(s, o2(s, R), 0, 4); break; case 1: hypercv_sobel(s, o, 0, bad_border(R)); break;
		case 2: x = sm(R, d2(R), 1, R.range(2, 4)); y = sm(R, {x->rows, x->cols}, 1, x->channels); hypercv_sobel(x, y, 0, 4); }),
	J("cal_edge_signal_energy of an image that is not gray bytes", HAVE(cal_edge_signal_energy); Dim2 d = d2(R); switch (R.u(3)) { case 0: cal_edge_signal_energy(NULL); break; case 1: cal_edge_signal_energy(sm(R, d, other_type(R, 1))); break; case 2: cal_edge_signal_energy(sm(R, d, 1, R.range(2, 4))); }),
	// geometry
	J("flips of NULL or another size", simple_mat s = sm(R, d2(R), R.pick(ALL_TYPES), R.range(1, 3)); Flip f = FLIPS[R.u(2)]; switch (R.u(3)) { case 0: f(NULL, s); break; case 1: f(s, NULL); break; case 2: f(s, o2(s, R)); }),
	J("flips into another type or channels", Dim2 d = d2(R); int t = R.pick(ALL_TYPES); int c = R.range(1, 3); FLIPS[R.u(2)](sm(R, d, t, c), R.p(50) ? sm(R, d, other_type(R, t), c) : sm(R, d, t, c + 1));),
	J("simple_mat_flip of NULL or another size", simple_mat s = sm(R, d2(R)); switch (R.u(3)) { case 0: simple_mat_flip(NULL, s, R.range(-1, 1)); break; case 1: simple_mat_flip(s, NULL, R.range(-1, 1)); break; case 2: simple_mat_flip(s, o2(s, R), R.range(-1, 1)); }),
	J("hypercv_pyramid_down of NULL, a small image, another size or type", Dim2 d = {R.range(2, 12), R.range(2, 12)}; Dim2 h = {(d.r + 1) / 2, (d.c + 1) / 2}; simple_mat s = sm(R, d); switch (R.u(5)) { case 0: hypercv_pyramid_down(NULL, s); break; case 1: hypercv_pyramid_down(s, NULL); break;
		case 2: if (R.p(50)) hypercv_pyramid_down(sm(R, {1, d.c}), sm(R, {1, h.c})); else hypercv_pyramid_down(sm(R, {d.r, 1}), sm(R, {h.r, 1})); break; case 3: hypercv_pyramid_down(s, sm(R, other(R, h))); break; case 4: hypercv_pyramid_down(s, sm(R, h, other_type(R, 1))); }),
	J("hypercv_pyramid_up of NULL, a small image, another size or type", Dim2 d = {R.range(2, 12), R.range(2, 12)}; Dim2 h = {d.r * 2, d.c * 2}; simple_mat s = sm(R, d); switch (R.u(5)) { case 0: hypercv_pyramid_up(NULL, s); break; case 1: hypercv_pyramid_up(s, NULL); break;
		case 2: if (R.p(50)) hypercv_pyramid_up(sm(R, {1, d.c}), sm(R, {2, h.c})); else hypercv_pyramid_up(sm(R, {d.r, 1}), sm(R, {h.r, 2})); break; case 3: hypercv_pyramid_up(s, sm(R, other(R, h))); break; case 4: hypercv_pyramid_up(s, sm(R, h, other_type(R, 1))); }),
	J("simple_mat_transport into another size, type or channels", Dim2 d = d2(R); int t = R.pick(ALL_TYPES); simple_mat s = sm(R, d, t, 2); Dim2 v = {d.c, d.r}; simple_mat_transport(R.p(34) ? sm(R, other(R, v), t, 2) : R.p(50) ? sm(R, v, other_type(R, t), 2) : sm(R, v, t, R.p(50) ? 1 : 3), s);),
	// arithmetic
	J("simple_mat_addition of NULL or other channels", Dim2 d = d2(R); bool f = R.p(50); int t = f ? 4 : 1; void (*a)(simple_mat, simple_mat, simple_mat) = f ? simple_mat_addition_float : simple_mat_addition_uchar; simple_mat x = sm(R, d, t, 2);
		switch (R.u(5)) { case 0: a(NULL, x, x); break; case 1: a(x, NULL, x); break; case 2: a(x, x, NULL); break; case 3: a(x, sm(R, d, t, 1 + 2 * (int)R.u(2)), sm(R, d, t, 2)); break; case 4: a(x, sm(R, d, t, 2), sm(R, d, t, 1 + 2 * (int)R.u(2))); }),
	J("simple_mat_addition into a small mat", Dim2 d = {R.range(2, 9), R.range(2, 9)}; bool f = R.p(50); int t = f ? 4 : 1; void (*a)(simple_mat, simple_mat, simple_mat) = f ? simple_mat_addition_float : simple_mat_addition_uchar;
		a(sm(R, d, t), sm(R, {d.r + R.range(0, 3), d.c + R.range(0, 3)}, t), R.p(50) ? sm(R, {d.r - 1, d.c}, t) : sm(R, {d.r, d.c - 1}, t));),
	J("simple_mat_log of another type, size or channels", Dim2 d = d2(R); switch (R.u(4)) { case 3: simple_mat_log(sm(R, d, 4, 2), sm(R, d, 4)); break; case 0: simple_mat_log(sm(R, d, other_type(R, 4)), sm(R, d, 4)); break; case 1: simple_mat_log(sm(R, d, 4), sm(R, d, other_type(R, 4))); break; case 2: simple_mat_log(sm(R, d, 4), sm(R, other(R, d), 4)); }),
	J("swap_rows_float of a row outside or the same row", float a[20] = {0}; int b = R.p(50) ? -R.range(1, 9) : 4 + (int)R.u(9); switch (R.u(3)) { case 0: swap_rows_float(a, 4, 5, b, 1); break; case 1: swap_rows_float(a, 4, 5, 1, b); break; case 2: swap_rows_float(a, 4, 5, 2, 2); }),
	J("matrix_row_multi_scalar_float of a row outside", HAVE(matrix_row_multi_scalar_float); float a[20] = {0}; matrix_row_multi_scalar_float(a, 4, 5, R.p(50) ? -R.range(1, 9) : 4 + (int)R.u(9), 2);),
	J("shear_row of a row outside or the same row", HAVE(shear_row); float a[20] = {0}; int b = R.p(50) ? -R.range(1, 9) : 4 + (int)R.u(9); switch (R.u(3)) { case 0: shear_row(a, 4, 5, b, 1, 2); break; case 1: shear_row(a, 4, 5, 1, b, 2); break; case 2: shear_row(a, 4, 5, 2, 2, 2); }),
	// morphology, thresholds, colors
	J("erosion and dilation of NULL", simple_mat s = sm(R, d2(R)); simple_mat o = sm(R, {s->rows, s->cols}); S_2D k = structure(R); bool n = R.p(50);
		switch (R.u(4)) { case 0: hypercv_corrosion(n ? NULL : s, o, n ? k : NULL); break; case 1: hypercv_expend(n ? NULL : s, o, n ? k : NULL); break; case 2: hypercv_open(n ? NULL : s, o, n ? k : NULL, 1); break; case 3: hypercv_close(n ? NULL : s, o, n ? k : NULL, 1); }),
	J("threshold functions of NULL", simple_mat s = sm(R, d2(R)); Thr f = THR[R.u(5)]; if (R.p(50)) f(NULL, s, 9, 9); else f(s, NULL, 9, 9);),
	J("threshold functions into another size", simple_mat s = sm(R, d2(R)); THR[R.u(5)](s, o2(s, R), 9, 9);),
	J("threshold functions of another type or channels", Dim2 d = d2(R); bool t = R.p(50); int ty = t ? other_type(R, 1) : 1; int ch = t ? 1 : R.range(2, 4); THR[R.u(5)](sm(R, d, ty, ch), sm(R, d, ty, ch), 9, 9);),
	J("threshold functions into other channels", Dim2 d = d2(R); THR[R.u(5)](sm(R, d), sm(R, d, 1, R.range(2, 4)), 9, 9);),
	J("hypercv_threshold_otsu of NULL, another size, type or channels", simple_mat s = sm(R, d2(R)); Dim2 d = {s->rows, s->cols}; int t = other_type(R, 1); switch (R.u(5)) { case 0: hypercv_threshold_otsu(NULL, s); break; case 1: hypercv_threshold_otsu(s, NULL); break; case 2: hypercv_threshold_otsu(s, o2(s, R)); break;
		case 3: hypercv_threshold_otsu(sm(R, d, t), sm(R, d, t)); break; case 4: hypercv_threshold_otsu(sm(R, d, 1, 3), sm(R, d, 1, 3)); }),
	J("hypercv_threshold with NULL or an unknown type", simple_mat s = sm(R, d2(R)); simple_mat o = sm(R, {s->rows, s->cols}); static const int T[] = {-1, -7, 6, 9, 10, 15, 17, 32, 100, 2147483647}; switch (R.u(3)) { case 0: hypercv_threshold(NULL, o, 1, 1, THRESH_BINARY); break; case 1: hypercv_threshold(s, NULL, 1, 1, THRESH_BINARY); break; case 2: hypercv_threshold(s, o, 1, 1, R.pick(T)); }),
	J("color conversion of other channels", switch (R.u(3)) { case 0: sm_binary2rgb(sm(R, d2(R), 1, R.range(2, 4))); break; case 1: sm_gray2rgb(sm(R, d2(R), 1, R.range(2, 4))); break; case 2: sm_rgb2gray(sm(R, d2(R), 1, R.p(50) ? 1 : 4), 1); }),
	J("sm_bgr2rgb of NULL, another size, type or channels", Dim2 d = d2(R); simple_mat s = sm(R, d, 1, 3); int t = other_type(R, 1); int c = R.p(50) ? 1 : 4; switch (R.u(6)) { case 0: sm_bgr2rgb(NULL, s); break; case 1: sm_bgr2rgb(s, NULL); break; case 2: sm_bgr2rgb(s, o2(s, R)); break;
		case 3: sm_bgr2rgb(sm(R, d, t, 3), sm(R, d, t, 3)); break; case 4: sm_bgr2rgb(sm(R, d, 1, c), sm(R, d, 1, c)); break; case 5: sm_bgr2rgb(s, sm(R, d, 1, c)); }),
	J("hypercv_colortransform of NULL or an unknown method", extern_colortransform(R);),
	// statistics
	J("simple_mat_mean or variance of NULL or a color mat", Stat f = GRAY_STATS[R.u(2)]; if (R.p(30)) f(NULL); else f(sm(R, d2(R), R.pick(ALL_TYPES), R.range(2, 4)));),
	J("gray statistics, contrast or entropy of NULL or another type", Stat f = BYTE_STATS[R.u(3)]; if (R.p(30)) f(NULL); else f(sm(R, d2(R), other_type(R, 1)));),
	J("simple_mat_grayscale_statistics into NULL", simple_mat_grayscale_statistics(sm(R, d2(R)), NULL);),
	// spectra
	J("spectrum_SAM_match of NULL or another interleave", float sp[16]; for (int i = 0; i < 16; i++) sp[i] = 1; hyper_mat m = cube(R, 4, "bip"); switch (R.u(3)) { case 0: spectrum_SAM_match(NULL, sp, 1); break; case 1: spectrum_SAM_match(m, NULL, 1); break; case 2: spectrum_SAM_match(cube(R, 4, other_il(R, 2)), sp, 1); }),
	J("spectral_angle_mapper of NULL", float sp[4] = {1, 2, 3, 4}; if (R.p(50)) spectral_angle_mapper(NULL, sp, 4); else spectral_angle_mapper(sp, NULL, 4);),
	J("hyper_mat_cem or hyper_mat_pca of another data type", float sp[16] = {1}; hyper_mat m = cube(R, other_type(R, 4), "bsq"); if (R.p(50)) hyper_mat_cem(m, sp); else hyper_mat_pca(cube(R, other_type(R, 4), "bip"), m, 3);),
	// transforms
	J("hypercv_dft with NULL", Dim2 d = d2(R); Dft f = DFTS[R.u(3)]; simple_mat s = sm(R, d, f == hypercv_dft_ushort ? 12 : 1); simple_mat a = sm(R, d, 4); simple_mat b = sm(R, d, 4); switch (R.u(3)) { case 0: f(NULL, a, b); break; case 1: f(s, NULL, b); break; case 2: f(s, a, NULL); }),
	J("hypercv_dft into another size", Dim2 d = d2(R); Dft f = DFTS[R.u(3)]; simple_mat s = sm(R, d, f == hypercv_dft_ushort ? 12 : 1); simple_mat a = sm(R, d, 4); simple_mat b = sm(R, other(R, d), 4); if (R.p(50)) f(s, a, b); else f(s, b, a);),
	J("hypercv_dft into another type", Dim2 d = d2(R); Dft f = DFTS[R.u(3)]; simple_mat s = sm(R, d, f == hypercv_dft_ushort ? 12 : 1); simple_mat a = sm(R, d, 4); simple_mat b = sm(R, d, other_type(R, 4)); if (R.p(50)) f(s, a, b); else f(s, b, a);),
	J("hypercv_dft of a color mat", Dim2 d = d2(R); Dft f = DFTS[R.u(3)]; int c = R.range(2, 3); f(sm(R, d, f == hypercv_dft_ushort ? 12 : 1, c), sm(R, d, 4, c), sm(R, d, 4, c));),
	J("hypercv_dft_frespectrum of NULL or another size", simple_mat s = sm(R, d2(R)); switch (R.u(3)) { case 0: hypercv_dft_frespectrum(NULL, s); break; case 1: hypercv_dft_frespectrum(s, NULL); break; case 2: hypercv_dft_frespectrum(s, o2(s, R)); }),
	J("hypercv_idft into another size", Dim2 d = d2(R); bool u = R.p(50); simple_mat a = sm(R, d, 4); simple_mat b = sm(R, d, 4); simple_mat o = sm(R, other(R, d), u ? 12 : 1); if (u) hypercv_idft_ushort(a, b, o); else hypercv_idft_uchar(a, b, o);),
	J("hypercv_idft of other sizes or types", Dim2 d = d2(R); bool u = R.p(50); simple_mat a = sm(R, d, 4); simple_mat b = R.p(50) ? sm(R, other(R, d), 4) : sm(R, d, other_type(R, 4)); simple_mat o = sm(R, d, u ? 12 : 1); if (u) hypercv_idft_ushort(a, b, o); else hypercv_idft_uchar(a, b, o);),
	J("hypercv_idft into another type", Dim2 d = d2(R); bool u = R.p(50); simple_mat a = sm(R, d, 4); simple_mat b = sm(R, d, 4); if (u) hypercv_idft_ushort(a, b, sm(R, d, other_type(R, 12))); else hypercv_idft_uchar(a, b, sm(R, d, other_type(R, 1)));),
	J("hypercv_magnitude of other sizes or types", Dim2 d = d2(R); simple_mat a = sm(R, d, 4); simple_mat b = sm(R, d, 4); switch (R.u(3)) { case 0: hypercv_magnitude(a, sm(R, other(R, d), 4), b); break; case 1: hypercv_magnitude(a, b, sm(R, d, other_type(R, 4))); break; case 2: hypercv_magnitude(a, sm(R, d, other_type(R, 4)), b); }),
	J("HisEqualization of NULL or another size", simple_mat s = sm(R, d2(R)); switch (R.u(3)) { case 0: HisEqualization(NULL, s); break; case 1: HisEqualization(s, NULL); break; case 2: HisEqualization(s, o2(s, R)); }),
	J("hyper_mat_linear_tension of another interleave, size or type", Dim3 d = d3(R); Dim3 e = d; int* p[3] = {&e.S, &e.L, &e.B}; *p[R.u(3)] += 1; hyper_mat s = in_hm(R, d, 4, "bsq"); switch (R.u(3)) { case 0: hyper_mat_linear_tension(in_hm(R, d, 4, other_il(R, 0)), in_hm(R, d, 1, "bsq")); break; case 1: hyper_mat_linear_tension(s, in_hm(R, e, 1, "bsq")); break; case 2: hyper_mat_linear_tension(s, in_hm(R, d, other_type(R, 1), "bsq")); }),
	J("hypercv_normalize of NULL or another size", Norm f = NORMS[R.u(3)]; simple_mat s = sm(R, d2(R), f == hypercv_normalize_float ? 4 : 1); switch (R.u(3)) { case 0: f(NULL, s, 1, 0, 2); break; case 1: f(s, NULL, 1, 0, 2); break; case 2: f(s, o2(s, R), 1, 0, 2); }),
	J("hypercv_k_means with NULL or a wrong number of centers", simple_mat s = sm(R, {9, 9}); POINT* v = NULL; POINT z = {1, 2}; int n = R.range(1, 4); for (int i = 0; i < n; i++) vector_push_back(v, z);
		switch (R.u(3)) { case 0: hypercv_k_means(NULL, v, n, 0); break; case 1: hypercv_k_means(s, v, nonpos(R), 0); break; case 2: hypercv_k_means(s, v, n + R.range(1, 3), 0); }),
	J("moments and shape matching of NULL", double hu[7]; simple_mat s = sm(R, d2(R)); switch (R.u(3)) { case 0: calc_hu_moment(hu, NULL); break; case 1: hypercv_match_shapes(NULL, s); break; case 2: hypercv_match_shapes(s, NULL); }),
	J("set_wavelet_base of an unknown wavelet", HAVE(set_wavelet_base); int w; do w = R.range(-3, 40); while (w == HYPERCV_WAVE_DB3 || w == HYPERCV_WAVE_BIOR3_7); set_wavelet_base(w);),
	// drawing
	J("draw_POINT on NULL, another type or size", simple_mat s = sm(R, d2(R), 1, 3); Dim2 d = {s->rows, s->cols}; int t = other_type(R, 1); RGB_data c = {1, 2, 3}; POINT* v = NULL; POINT z = {1, 1}; vector_push_back(v, z);
		switch (R.u(5)) { case 0: draw_POINT(NULL, s, v, 1, c, 1); break; case 1: draw_POINT(s, NULL, v, 1, c, 1); break; case 2: draw_POINT(s, o2(s, R), v, 1, c, 1); break; case 3: draw_POINT(sm(R, d, t, 3), sm(R, d, t, 3), v, 1, c, 1); break; case 4: draw_POINT(s, sm(R, d, 1, 1), v, 1, c, 1); }),
	J("draw_line on NULL, another type or size", simple_mat s = sm(R, d2(R), 1, 3); Dim2 d = {s->rows, s->cols}; int t = other_type(R, 1); RGB_data c = {1, 2, 3}; POINT a = {0, 0}; POINT b = {1, 1};
		switch (R.u(5)) { case 0: draw_line(NULL, s, a, b, c, 1); break; case 1: draw_line(s, NULL, a, b, c, 1); break; case 2: draw_line(s, o2(s, R), a, b, c, 1); break; case 3: draw_line(sm(R, d, t, 3), sm(R, d, t, 3), a, b, c, 1); break; case 4: draw_line(s, sm(R, d, 1, 1), a, b, c, 1); }),
};
static const int NBAD = sizeof BAD / sizeof BAD[0];

SC(reject, 2600, F_FORK | F_FILE)
{
	const Bad& b = BAD[R.u(NBAD)];
	Rng inner(R.next());
	desc("%s", b.name);
	sig(&b - BAD);
	sig(inner.s);
	seen("%s", b.name);
	std::vector<char> out;
	int st = in_child([&] { b.fn(inner); }, out);
	req_rejected(st, out, b.name);
}
