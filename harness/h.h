// Harness core: scenario registry, deterministic generators, monitors.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <vector>
#include <algorithm>

extern "C" {
#include "c_include/hypercv_core.h"
#include "c_include/hypercv_process.h"
#include "algorithm/hypercv_algorithm.h"
#include "highgui/hypercv_gui.h"
// symbols that no header declares: cases that need a missing one say nothing
#define WEAK __attribute__((weak))
hyper_mat hyper_mat_float2uint(hyper_mat f_mat) WEAK;
float sp_average(float* x, int length) WEAK;
float sp_variance(float* x, int length) WEAK;
float sp_standard_deviation(float* x, int length) WEAK;
void matrix_row_multi_scalar_float(float* mat, int rows, int cols, int r, float scalar) WEAK;
void shear_row(float* mat, int rows, int cols, int r1, int r2, float scalar) WEAK;
wavelet_base* set_wavelet_base(int wave_type) WEAK;
void wavelet_base_free(wavelet_base* wb) WEAK;
float cal_edge_signal_energy(simple_mat mat) WEAK;
long int hypercv_factorial(int n) WEAK;
}

// ---- deterministic generator ------------------------------------------------
struct Rng {
	uint64_t s;
	int64_t n, mut;              // draw number mut is another one: a twin of the case without
	explicit Rng(uint64_t seed, int64_t mut = -1) : s(seed), n(0), mut(mut) {}
	uint64_t next() {
		uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
		z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
		if (n++ == mut) z = (z ^ (z >> 31)) * 0xD6E8FEB86659FD93ULL;
		z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
		return z ^ (z >> 31);
	}
	uint64_t u(uint64_t n) { return n ? next() % n : 0; }
	int range(int a, int b) { return a + (int)u((uint64_t)((int64_t)b - a + 1)); }
	bool p(int percent) { return (int)u(100) < percent; }
	double real() { return (double)(next() >> 11) * (1.0 / 9007199254740992.0); }
	double real(double a, double b) { return a + (b - a) * real(); }
	template <class T, size_t N> T pick(const T (&a)[N]) { return a[u(N)]; }
};

// ---- scenarios --------------------------------------------------------------
enum { F_FILE = 1, F_NOTHREAD = 2, F_NOMSAN = 4, F_FORK = 8, F_BIG = 16, F_NORERUN = 32, F_NOOM = 64 };
typedef void (*ScFn)(Rng& R);
struct Scenario {
	const char* name;
	ScFn fn;
	unsigned flags;
	int n;            // cases of the quick tier
	Scenario* next;
	Scenario(const char* name, ScFn fn, unsigned flags, int n);
};
#define SC(name, n, flags) \
	static void sc_##name(Rng& R); \
	static Scenario reg_##name(#name, sc_##name, flags, n); \
	static void sc_##name(Rng& R)

// ---- verdicts ---------------------------------------------------------------
// Reports a violation of the running case and leaves it.
[[noreturn]] void fail(const char* kind, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void skip();                    // the case says nothing (ill posed input)
void seen(const char* fmt, ...) __attribute__((format(printf, 1, 2)));   // counts an observed feature
void desc(const char* fmt, ...) __attribute__((format(printf, 1, 2)));   // writes the case out
void sig(uint64_t v);                        // a parameter that makes cases distinct
void compared(uint64_t n = 1);               // oracle comparisons
void digest(const void* p, size_t n);        // results of the case, for the repeatability monitor
#define NEED(f) do { if (!(f)) skip(); } while (0)
#define REQ(cond, ...) do { if (!(cond)) fail("value", __VA_ARGS__); } while (0)

// ---- memory -----------------------------------------------------------------
extern "C" void* __real_malloc(size_t n);
extern "C" void __real_free(void* p);
void* h_alloc(size_t n);                     // exact size, freed at the end of the case, no part of the leak balance
void* give(size_t n);                        // a block the library will free
template <class T> T* raw(size_t n) { return (T*)h_alloc(n * sizeof(T)); }
size_t live_blocks();                        // blocks the library holds (0 in builds without the registry)
void guard_hm(hyper_mat m);                  // fence the unused bytes of the block of the mat
void guard_sm(simple_mat m);
void poison_uninit(void* p, size_t n);       // contents become "never written" (MSan builds)
void need_init(const void* p, size_t n, const char* what);

// ---- watched inputs and owned results ----------------------------------------
void watch(const void* p, size_t n, const char* what);
void watch_hm(hyper_mat m, const char* what);
void watch_sm(simple_mat m, const char* what);
void unwatch(const void* p);                 // the scenario changes it on purpose
hyper_mat own(hyper_mat m);                  // deleted at the end of the case
simple_mat own(simple_mat m);
void disown(const void* p);

// ---- types ------------------------------------------------------------------
static const int ALL_TYPES[11] = {1, 2, 3, 4, 5, 6, 9, 12, 13, 14, 15};
static const int CXX_TYPES[9] = {1, 2, 3, 4, 5, 12, 13, 14, 15};
static const char* const ILS[3] = {"bsq", "bil", "bip"};   // same order as the C++ formats
size_t esize(int type);                      // independent of get_elemsize
// element index of (line i, sample j, band k)
static inline size_t at(const char* il, int S, int L, int B, int i, int j, int k)
{
	if (il[1] == 's') return ((size_t)k * L + i) * S + j;
	if (il[2] == 'l') return ((size_t)i * B + k) * S + j;
	return ((size_t)i * S + j) * B + k;
}
static inline bool same_il(const char* a, const char* b) { return memcmp(a, b, 3) == 0; }

// ---- generators -------------------------------------------------------------
struct Dim3 { int S, L, B; };
struct Dim2 { int r, c; };
Dim3 dim3(Rng& R, size_t limit = 60000);     // limit: elements
Dim2 dim2(Rng& R, size_t limit = 40000);
int dim1(Rng& R, int max);
void fill_bytes(Rng& R, void* p, size_t n);
void wave_shape(Rng& R, float* w, int n);
void fill_u8(Rng& R, unsigned char* p, size_t n, int* mode = NULL);   // image like, binary, constant, extremes
void fill_f32(Rng& R, float* p, size_t n, double lo, double hi);
// a third of the arrays get a few values that are special somewhere: zeros of both signs, next to nothing, twice the same
template <class T> void spice(Rng& R, T* p, size_t n)
{
	static const double e[] = {0, -0.0, 1e-7, -1e-7, 1e-12, -1e-12, 1, -1, 0.5};
	if (!n || !R.p(33)) return;
	for (int k = R.range(1, 4); k > 0; k--) {
		T v = R.p(25) ? p[R.u(n)] : (T)R.pick(e);
		p[R.u(n)] = v;
	}
}
void fill_type(Rng& R, void* p, size_t n, int type);                  // values of any type (finite floats)
hyper_mat in_hm(Rng& R, Dim3 d, int type, const char* il, bool watched = true); // random bytes, random wavelengths
simple_mat in_sm(Rng& R, Dim2 d, int type, int ch, bool watched = true);        // random values
simple_mat in_u8(Rng& R, Dim2 d, int ch = 1);
simple_mat in_f32(Rng& R, Dim2 d, int ch, double lo, double hi);
hyper_mat in_hm_f32(Rng& R, Dim3 d, const char* il, double lo, double hi);
simple_mat out_sm(Rng& R, Dim2 d, int type, int ch);                  // every byte garbage
simple_mat out_sm_keep(Rng& R, Dim2 d, int type, int ch);             // garbage the operation may keep
hyper_mat out_hm(Rng& R, Dim3 d, int type, const char* il);

static inline unsigned char* U8(simple_mat m) { return (unsigned char*)m->data; }
static inline float* F32(simple_mat m) { return (float*)m->data; }
static inline float* F32(hyper_mat m) { return (float*)m->data; }

// shape checks
void req_hm(hyper_mat m, int S, int L, int B, int type, const char* il, const char* what);
void req_sm(simple_mat m, int r, int c, int type, int ch, const char* what);
void req_bytes(const void* got, const void* want, size_t n, const char* what);

// runs f in a child: the exit status (128+sig when killed), its output
template <class F> int in_child(F f, std::vector<char>& output);
int child_begin();
int child_wait(int pid, std::vector<char>& output);
extern int child_fd[2];
template <class F> int in_child(F f, std::vector<char>& output)
{
	int pid = child_begin();
	if (pid == 0) { try { f(); } catch (int) { _Exit(97); } fflush(stdout); fflush(stderr); _Exit(0); }
	return child_wait(pid, output);
}
// the call has to refuse: exit status 1 after a message "ERROR: ..."
void req_rejected(int status, const std::vector<char>& out, const char* what);

const char* scratch(const char* name);       // path in the scratch directory of the worker
bool thorough();
bool long_axes();
bool concurrent();                           // scenarios run in several threads at once
