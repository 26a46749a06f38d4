#include "h.h"
#include <stdarg.h>
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <signal.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <dirent.h>
#include <utility>

#if defined(__SANITIZE_ADDRESS__)
#define HAVE_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define HAVE_ASAN 1
#endif
#endif
#ifdef HAVE_ASAN
#include <sanitizer/asan_interface.h>
#endif
#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#define HAVE_MSAN 1
#include <sanitizer/msan_interface.h>
#endif
#endif
#if defined(HAVE_VALGRIND)
#include <valgrind/memcheck.h>
#endif

// ---------------------------------------------------------------- registry ----
static Scenario* g_scen = NULL;
Scenario::Scenario(const char* name_, ScFn fn_, unsigned flags_, int n_)
	: name(name_), fn(fn_), flags(flags_), n(n_), next(g_scen) { g_scen = this; }

struct Watch { const char* p; size_t n; char* copy; const char* what; };
struct Reloc { void* mat; void* data; float* wave; bool hyper; };
struct Own { void* mat; bool hyper; };

struct Ctx {
	std::vector<Watch> watches;
	std::vector<Reloc> relocs;
	std::vector<Own> owned;
	std::vector<void*> allocs;
	uint64_t sig, ncmp, dig;
	char dsc[400];
	size_t dlen;
	char msg[600];
	char kind[16];
	int failed;    // 1 failed, 2 skipped
};
static thread_local Ctx* C = NULL;

static const char* g_scratch = "/nonexistent";
static bool g_thorough = false, g_concurrent = false, g_long = false;
static int g_shard = 0;
bool thorough() { return g_thorough; }
bool long_axes() { return g_long; }
bool concurrent() { return g_concurrent; }

const char* scratch(const char* name)
{
	static thread_local char buf[8][512];
	static thread_local int k = 0;
	k = (k + 1) % 8;
	snprintf(buf[k], sizeof buf[k], "%s/%s", g_scratch, name);
	return buf[k];
}

// ------------------------------------------------------------- observations ----
struct Feat { uint64_t h; char* name; uint64_t n; };
static const int NFEAT = 1 << 14;
static Feat* g_feat;
static int g_nfeat = 0;
static pthread_mutex_t g_mu = PTHREAD_MUTEX_INITIALIZER;

static uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 1469598103934665603ULL)
{
	const unsigned char* c = (const unsigned char*)p;
	size_t i = 0;
	for (; i + 8 <= n; i += 8) {
		uint64_t w;
		memcpy(&w, c + i, 8);
		h = (h ^ w) * 0x9E3779B97F4A7C15ULL;
		h ^= h >> 29;
	}
	for (; i < n; i++) h = (h ^ c[i]) * 1099511628211ULL;
	h ^= h >> 32;
	return h * 0x94D049BB133111EBULL;
}

void seen(const char* fmt, ...)
{
	if (g_concurrent) return;
	char b[128];
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(b, sizeof b, fmt, ap);
	va_end(ap);
	uint64_t h = hash_bytes(b, strlen(b));
	int i = h % NFEAT;
	while (g_feat[i].name && g_feat[i].h != h) i = (i + 1) % NFEAT;
	if (!g_feat[i].name) {
		if (g_nfeat > NFEAT / 2) return;
		g_nfeat++;
		size_t n = strlen(b) + 1;
		g_feat[i].name = (char*)__real_malloc(n);
		memcpy(g_feat[i].name, b, n);
		g_feat[i].h = h;
	}
	g_feat[i].n++;
}
void desc(const char* fmt, ...)
{
	va_list ap;
	va_start(ap, fmt);
	int n = vsnprintf(C->dsc + C->dlen, sizeof C->dsc - C->dlen, fmt, ap);
	va_end(ap);
	if (n > 0) C->dlen += n;
	if (C->dlen >= sizeof C->dsc) C->dlen = sizeof C->dsc - 1;
}
void sig(uint64_t v) { C->sig = (C->sig ^ v) * 0x9E3779B97F4A7C15ULL; C->sig ^= C->sig >> 31; }
void compared(uint64_t n) { C->ncmp += n; }
void digest(const void* p, size_t n) { C->dig = hash_bytes(p, n, C->dig); }

void fail(const char* kind, const char* fmt, ...)
{
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(C->msg, sizeof C->msg, fmt, ap);
	va_end(ap);
	snprintf(C->kind, sizeof C->kind, "%s", kind);
	C->failed = 1;
	throw 0;
}
void skip()
{
	C->failed = 2;
	throw 0;
}

// ------------------------------------------------------------------- memory ----
#ifdef REGISTRY
struct Block { void* p; size_t n; };
static Block* g_blk;
static size_t g_blk_cap = 0, g_blk_live = 0, g_blk_used = 0;
static Block* const TOMB = NULL;
static void* const DEAD = (void*)1;
static size_t g_alloc_cap = (size_t)-1;   // larger requests fail
static long g_alloc_n = 0, g_alloc_at = 0; // request number g_alloc_at fails,
static bool g_alloc_rest = false;          // and all later ones
static bool denied(size_t n)
{
	if (n > g_alloc_cap) return true;
	long k = __atomic_add_fetch(&g_alloc_n, 1, __ATOMIC_RELAXED);
	return g_alloc_at && (k == g_alloc_at || (g_alloc_rest && k > g_alloc_at));
}
size_t live_blocks() { return g_blk_live; }
static pthread_mutex_t g_bmu = PTHREAD_MUTEX_INITIALIZER;
static size_t bhash(void* p) { return ((uintptr_t)p >> 4) * 0x9E3779B97F4A7C15ULL >> 20; }
static void badd(void* p, size_t n)
{
	if (!p) return;
	pthread_mutex_lock(&g_bmu);
	if (g_blk_used * 2 >= g_blk_cap) {
		size_t cap = g_blk_cap ? g_blk_cap * 2 : 4096;
		if (g_blk_live * 4 < g_blk_cap) cap = g_blk_cap;
		Block* old = g_blk;
		size_t oldcap = g_blk_cap;
		g_blk = (Block*)__real_malloc(cap * sizeof(Block));
		memset(g_blk, 0, cap * sizeof(Block));
		g_blk_cap = cap;
		g_blk_used = 0;
		for (size_t i = 0; i < oldcap; i++)
			if (old[i].p && old[i].p != DEAD) {
				size_t k = bhash(old[i].p) % cap;
				while (g_blk[k].p) k = (k + 1) % cap;
				g_blk[k] = old[i];
				g_blk_used++;
			}
		if (old) __real_free(old);
	}
	size_t k = bhash(p) % g_blk_cap;
	while (g_blk[k].p && g_blk[k].p != DEAD) k = (k + 1) % g_blk_cap;
	if (!g_blk[k].p) g_blk_used++;
	g_blk[k].p = p;
	g_blk[k].n = n;
	g_blk_live++;
	pthread_mutex_unlock(&g_bmu);
}
static size_t bfind(void* p, bool del)
{
	size_t n = 0;
	pthread_mutex_lock(&g_bmu);
	if (g_blk_cap) {
		size_t k = bhash(p) % g_blk_cap;
		while (g_blk[k].p) {
			if (g_blk[k].p == p) {
				n = g_blk[k].n;
				if (n == 0) n = 1;
				if (del) { g_blk[k].p = DEAD; g_blk_live--; }
				break;
			}
			k = (k + 1) % g_blk_cap;
		}
	}
	pthread_mutex_unlock(&g_bmu);
	return n;
}
extern "C" {
void* __real_calloc(size_t a, size_t b);
void* __real_realloc(void* p, size_t n);
void* __wrap_malloc(size_t n) { if (denied(n)) return NULL; void* p = __real_malloc(n); badd(p, n); return p; }
void* __wrap_calloc(size_t a, size_t b) { if (denied(a && b > (size_t)-1 / a ? (size_t)-1 : a * b)) return NULL; void* p = __real_calloc(a, b); badd(p, a * b); return p; }
void* __wrap_realloc(void* p, size_t n)
{
	if (denied(n)) return NULL;
	if (p) bfind(p, true);
	void* q = __real_realloc(p, n);
	badd(q, n);
	return q;
}
void __wrap_free(void* p) { if (p) bfind(p, true); __real_free(p); }
}
void* give(size_t n) { void* p = __real_malloc(n); badd(p, n); return p; }
void alloc_cap(size_t n) { g_alloc_cap = n; }
static size_t block_size(void* p) { return bfind(p, false); }
#else
size_t live_blocks() { return 0; }
void alloc_cap(size_t) {}
void* give(size_t n) { return malloc(n); }
extern "C" void* __real_malloc(size_t n) { return malloc(n); }
extern "C" void __real_free(void* p) { free(p); }
static size_t block_size(void*) { return 0; }
#endif

void* h_alloc(size_t n)
{
	void* p = __real_malloc(n ? n : 1);
	if (!p) { fprintf(stderr, "harness out of memory\n"); _exit(97); }
	C->allocs.push_back(p);
	return p;
}

#ifdef HAVE_ASAN
static void fence(char* blk, size_t n, const char* const (*used)[2], int nused)
{
	// poison what lies between the used ranges (sorted here by start)
	const char* u[4][2];
	int m = 0;
	for (int i = 0; i < nused; i++)
		if (used[i][0] >= blk && used[i][1] <= blk + n) { u[m][0] = used[i][0]; u[m][1] = used[i][1]; m++; }
	for (int i = 0; i < m; i++)
		for (int j = i + 1; j < m; j++)
			if (u[j][0] < u[i][0]) {
				const char* a = u[i][0]; const char* b = u[i][1];
				u[i][0] = u[j][0]; u[i][1] = u[j][1]; u[j][0] = a; u[j][1] = b;
			}
	const char* pos = blk;
	for (int i = 0; i <= m; i++) {
		const char* to = i < m ? u[i][0] : blk + n;
		if (to > pos) __asan_poison_memory_region(pos, to - pos);
		if (i < m && u[i][1] > pos) pos = u[i][1];
	}
}
#endif
void guard_hm(hyper_mat m)
{
#ifdef HAVE_ASAN
	if (!m) return;
	size_t n = block_size(m);
	size_t e = esize(m->data_type);
	if (n < sizeof(HyperMat) || e == 0) return;
	const char* d = (const char*)m->data;
	const char* w = (const char*)m->wavelength;
	const char* used[3][2] = {{(char*)m, (char*)m + sizeof(HyperMat)},
		{d, d ? d + (size_t)m->samples * m->lines * m->bands * e : d},
		{w, w ? w + m->bands * sizeof(float) : w}};
	fence((char*)m, n, used, 3);
#else
	(void)m;
#endif
}
void guard_sm(simple_mat m)
{
#ifdef HAVE_ASAN
	if (!m) return;
	size_t n = block_size(m);
	size_t e = esize(m->data_type);
	if (n < sizeof(SIMPLE_MAT) || e == 0) return;
	const char* d = (const char*)m->data;
	const char* used[2][2] = {{(char*)m, (char*)m + sizeof(SIMPLE_MAT)},
		{d, d ? d + (size_t)m->rows * m->cols * m->channels * e : d}};
	fence((char*)m, n, used, 2);
#else
	(void)m;
#endif
}
// mats made inside of the library are fenced as well
#ifdef REGISTRY
extern "C" {
hyper_mat __real_create_hyper_mat(const int, const int, const int, const int, const char*);
hyper_mat __real_create_hyper_mat_with_data(const int, const int, const int, const int, const char*, void*, float*);
simple_mat __real_create_simple_mat(int, int, int, int);
simple_mat __real_create_simple_mat_with_data(int, int, int, int, void*);
simple_mat __real_simple_mat_copy(simple_mat);
hyper_mat __real_hyper_mat_copy(hyper_mat);
hyper_mat __wrap_create_hyper_mat(const int s, const int l, const int b, const int t, const char* il)
{ hyper_mat m = __real_create_hyper_mat(s, l, b, t, il); guard_hm(m); return m; }
hyper_mat __wrap_create_hyper_mat_with_data(const int s, const int l, const int b, const int t, const char* il, void* d, float* w)
{ hyper_mat m = __real_create_hyper_mat_with_data(s, l, b, t, il, d, w); guard_hm(m); return m; }
simple_mat __wrap_create_simple_mat(int r, int c, int t, int ch)
{ simple_mat m = __real_create_simple_mat(r, c, t, ch); guard_sm(m); return m; }
simple_mat __wrap_create_simple_mat_with_data(int r, int c, int t, int ch, void* d)
{ simple_mat m = __real_create_simple_mat_with_data(r, c, t, ch, d); guard_sm(m); return m; }
simple_mat __wrap_simple_mat_copy(simple_mat s) { simple_mat m = __real_simple_mat_copy(s); guard_sm(m); return m; }
hyper_mat __wrap_hyper_mat_copy(hyper_mat s) { hyper_mat m = __real_hyper_mat_copy(s); guard_hm(m); return m; }
}
#endif

void poison_uninit(void* p, size_t n)
{
#ifdef HAVE_MSAN
	__msan_poison(p, n);
#elif defined(HAVE_VALGRIND)
	(void)VALGRIND_MAKE_MEM_UNDEFINED(p, n);
#else
	(void)p; (void)n;
#endif
}
void need_init(const void* p, size_t n, const char* what)
{
#ifdef HAVE_MSAN
	intptr_t off = __msan_test_shadow(p, n);
	if (off >= 0) {
		__msan_unpoison(p, n);
		fail("uninit", "%s: byte %ld of %zu was never written", what, (long)off, n);
	}
#elif defined(HAVE_VALGRIND)
	if (RUNNING_ON_VALGRIND && VALGRIND_CHECK_MEM_IS_DEFINED(p, n) != 0)
		fail("uninit", "%s: byte %ld of %zu was never written", what, (long)VALGRIND_CHECK_MEM_IS_DEFINED(p, n) - (long)p, n);
#else
	(void)p; (void)n; (void)what;
#endif
}

// ---------------------------------------------------------- watched and owned ----
void watch(const void* p, size_t n, const char* what)
{
	if (!p || !n) return;
	char* c = (char*)__real_malloc(n);
	memcpy(c, p, n);
	Watch w = {(const char*)p, n, c, what};
	C->watches.push_back(w);
}
void watch_hm(hyper_mat m, const char* what)
{
	watch(m, offsetof(HyperMat, interleave) + 3, what);                            // not the padding
	watch(&m->data, sizeof m->data, what);
	watch(&m->wavelength, sizeof m->wavelength, what);
	watch(m->data, (size_t)m->samples * m->lines * m->bands * esize(m->data_type), what);
	watch(m->wavelength, m->bands * sizeof(float), what);
}
void watch_sm(simple_mat m, const char* what)
{
	watch(m, offsetof(SIMPLE_MAT, elem_size) + sizeof m->elem_size, what);      // not the padding
	watch(&m->data, sizeof m->data, what);
	watch(m->data, (size_t)m->rows * m->cols * m->channels * esize(m->data_type), what);
}
void unwatch(const void* p)
{
	for (size_t i = 0; i < C->watches.size(); i++)
		if (C->watches[i].p == p) { __real_free(C->watches[i].copy); C->watches.erase(C->watches.begin() + i); return; }
}
hyper_mat own(hyper_mat m)
{
	if (m) { guard_hm(m); Own o = {m, true}; C->owned.push_back(o); }
	return m;
}
simple_mat own(simple_mat m)
{
	if (m) { guard_sm(m); Own o = {m, false}; C->owned.push_back(o); }
	return m;
}
void disown(const void* p)
{
	for (size_t i = 0; i < C->owned.size(); i++)
		if (C->owned[i].mat == p) { C->owned.erase(C->owned.begin() + i); return; }
}
static void check_watches()
{
	for (size_t i = 0; i < C->watches.size(); i++) {
		Watch& w = C->watches[i];
		if (memcmp(w.p, w.copy, w.n) != 0) {
			size_t k = 0;
			while (w.p[k] == w.copy[k]) k++;
			fail("modified", "the call changed its input %s at byte %zu of %zu", w.what, k, w.n);
		}
	}
}
static void cleanup()
{
	for (size_t i = 0; i < C->watches.size(); i++) __real_free(C->watches[i].copy);
	C->watches.clear();
	for (size_t i = C->relocs.size(); i-- > 0;) {
		Reloc& r = C->relocs[i];
		if (r.hyper) { ((hyper_mat)r.mat)->data = r.data; ((hyper_mat)r.mat)->wavelength = r.wave; }
		else ((simple_mat)r.mat)->data = r.data;
	}
	C->relocs.clear();
	for (size_t i = C->owned.size(); i-- > 0;)
		if (C->owned[i].hyper) delete_hyper_mat((hyper_mat)C->owned[i].mat);
		else delete_simple_mat((simple_mat)C->owned[i].mat);
	C->owned.clear();
	for (size_t i = C->allocs.size(); i-- > 0;) __real_free(C->allocs[i]);
	C->allocs.clear();
}

// --------------------------------------------------------------- generators ----
size_t esize(int type)
{
	switch (type) {
	case 1: return 1;
	case 2: case 12: return 2;
	case 3: case 4: case 13: return 4;
	case 5: case 6: case 14: case 15: return 8;
	case 9: return 16;
	}
	return 0;
}
int dim1(Rng& R, int max)
{
	int v;
	switch (R.u(10)) {
	case 0: v = 1; break;
	case 1: case 2: case 3: v = R.range(1, 6); break;
	case 4: case 5: v = R.range(2, 20); break;
	case 6: { static const int e[] = {2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513}; v = R.pick(e); break; }
	case 7: v = R.range(20, 80); break;
	case 8: v = R.range(60, 300); break;
	default: v = R.range(1, max); break;
	}
	return v > max ? R.range(1, max) : v;
}
// an axis longer than what a float counts, or a byte times it fits into an int
static int very_long(Rng& R) { return R.p(50) ? R.range(8421505, 9500000) : R.range(16777217, 18000000); }
Dim2 dim2(Rng& R, size_t limit)
{
	Dim2 d;
	if (g_long && limit >= 2500) {
		d.r = very_long(R); d.c = 1;
		if (R.p(50)) std::swap(d.r, d.c);
		return d;
	}
	int max = limit > 70000 ? 70000 : (int)limit;
	if (limit >= 2500 && R.u(200) == 0) {        // longer than 16 bits
		int big = R.range(32700, 70000), small = R.range(1, 2);
		if (R.p(50)) { d.r = big; d.c = small; } else { d.r = small; d.c = big; }
		return d;
	}
	if (R.u(40) == 0) {             // one very long axis
		int big = R.range(max / 4 + 1, max), small = R.range(1, (int)(limit / big) > 3 ? 3 : (int)(limit / big));
		if (R.p(50)) { d.r = big; d.c = small; } else { d.r = small; d.c = big; }
		return d;
	}
	if (R.p(50)) {                  // small, all combinations of parities
		d.r = R.range(1, 12); d.c = R.range(1, 12);
		if ((size_t)d.r * d.c > limit) { d.r = R.range(1, 3); d.c = R.range(1, 3); }
		return d;
	}
	d.r = dim1(R, max);
	d.c = dim1(R, (int)(limit / d.r) > 0 ? (int)(limit / d.r) : 1);
	if (R.p(50)) { int t = d.r; d.r = d.c; d.c = t; }
	return d;
}
Dim3 dim3(Rng& R, size_t limit)
{
	int v[3];
	if (g_long && limit >= 2500) {
		v[0] = very_long(R); v[1] = v[2] = 1;
	} else if (limit >= 2500 && R.u(200) == 0) {        // longer than 16 bits
		v[0] = R.range(32700, 70000); v[1] = R.range(1, 2); v[2] = 1;
	} else if (R.u(30) == 0) {
		v[0] = R.range(limit > 70000 ? 20000 : limit / 4 + 1, limit > 70000 ? 70000 : limit);
		v[1] = R.range(1, 2); v[2] = 1;
		if ((size_t)v[0] * v[1] > limit) v[1] = 1;
	} else if (R.p(45)) {
		for (int i = 0; i < 3; i++) v[i] = R.range(1, 7);
	} else {
		size_t left = limit;
		for (int i = 0; i < 3; i++) {
			int m = left > 4000 ? 4000 : (int)left;
			v[i] = dim1(R, m > 0 ? m : 1);
			left /= v[i];
			if (left == 0) left = 1;
		}
	}
	for (int i = 2; i > 0; i--) { int j = (int)R.u(i + 1); int t = v[i]; v[i] = v[j]; v[j] = t; }
	Dim3 d = {v[0], v[1], v[2]};
	return d;
}
void fill_bytes(Rng& R, void* p, size_t n)
{
	unsigned char* c = (unsigned char*)p;
	size_t i = 0;
	for (; i + 8 <= n; i += 8) { uint64_t w = R.next(); memcpy(c + i, &w, 8); }
	if (i < n) { uint64_t w = R.next(); memcpy(c + i, &w, n - i); }
}
void fill_u8(Rng& R, unsigned char* p, size_t n, int* mode)
{
	int m = (int)R.u(9);
	if (mode) *mode = m;
	switch (m) {
	case 0: case 1: case 2: fill_bytes(R, p, n); break;
	case 3: { int v = R.p(40) ? (R.p(50) ? 0 : 255) : R.range(0, 255); memset(p, v, n); break; }
	case 4: { int d = R.range(2, 98), v = R.p(50) ? 1 : 255; for (size_t i = 0; i < n; i++) p[i] = R.p(d) ? v : 0; break; }
	case 5: { int a = R.range(0, 255), b = R.range(a, 255); for (size_t i = 0; i < n; i++) p[i] = R.range(a, b); break; }
	case 6: { int a = R.range(0, 255), s = R.range(1, 9); for (size_t i = 0; i < n; i++) p[i] = (unsigned char)(a + i * s); break; }
	case 7: { for (size_t i = 0; i < n; i++) { static const unsigned char e[] = {0, 1, 127, 128, 254, 255}; p[i] = R.pick(e); } break; }
	default: { int a = R.range(0, 255), b = R.range(0, 255), d = R.range(5, 95); for (size_t i = 0; i < n; i++) p[i] = R.p(d) ? a : b; break; }
	}
}
void fill_f32(Rng& R, float* p, size_t n, double lo, double hi)
{
	switch (R.u(8)) {
	case 5: {                       // values that are special somewhere
		static const float e[] = {0.f, -0.f, 1e-7f, -1e-7f, 1e-12f, -1e-12f, 0.5f, -0.5f, 0.49999997f, 1.f, -1.f, 0.99999994f, 1.0000001f, 255.f, 255.5f, 256.f, 1e5f, -1e5f};
		for (size_t i = 0; i < n; i++) {
			float v = R.p(30) ? (float)(R.p(50) ? lo : hi) : R.pick(e);
			p[i] = v >= lo && v <= hi ? v : (float)R.real(lo, hi);
		}
		break; }
	case 6: { double t = pow(10, -R.range(1, 8)); for (size_t i = 0; i < n; i++) p[i] = (float)(R.real(lo, hi) * t); break; }   // small against the range
	case 0: { float v = (float)R.real(lo, hi); for (size_t i = 0; i < n; i++) p[i] = v; break; }
	case 1: for (size_t i = 0; i < n; i++) p[i] = floorf((float)R.real(lo, hi)) < (float)lo ? (float)lo : floorf((float)R.real(lo, hi)); break;
	default: for (size_t i = 0; i < n; i++) p[i] = (float)R.real(lo, hi);
	}
	for (size_t i = 0; i < n; i++) if (p[i] < lo) p[i] = (float)lo;
}
void fill_type(Rng& R, void* p, size_t n, int type)
{
	if (type == 1) { fill_u8(R, (unsigned char*)p, n); return; }
	if (type == 4 || type == 6) {
		size_t m = type == 6 ? 2 * n : n;
		double s = R.pick((const double[]){1.0, 100.0, 1e6, 1e-3});
		fill_f32(R, (float*)p, m, -s, s);
		return;
	}
	if (type == 5 || type == 9) {
		size_t m = type == 9 ? 2 * n : n;
		double s = R.pick((const double[]){1.0, 100.0, 1e9, 1e-3});
		for (size_t i = 0; i < m; i++) ((double*)p)[i] = R.real(-s, s);
		spice(R, (double*)p, m);
		return;
	}
	fill_bytes(R, p, n * esize(type));
}
static void reloc(hyper_mat m)
{
	Reloc r = {m, m->data, m->wavelength, true};
	C->relocs.push_back(r);
	size_t n = (size_t)m->samples * m->lines * m->bands * esize(m->data_type);
	m->data = h_alloc(n);
	m->wavelength = (float*)h_alloc(m->bands * sizeof(float));
}
static void reloc(simple_mat m)
{
	Reloc r = {m, m->data, NULL, false};
	C->relocs.push_back(r);
	m->data = h_alloc((size_t)m->rows * m->cols * m->channels * esize(m->data_type));
}
// what lists of wavelengths contain beside ordinary values: gaps, order, repetition
void wave_shape(Rng& R, float* w, int n)
{
	switch (R.u(16)) {
	case 0: w[0] = 0; break;
	case 1: w[n - 1] = 0; break;
	case 2: for (int k = 0; k < n; k++) if (R.p(40)) w[k] = 0; break;
	case 3: memset(w, 0, n * sizeof(float)); break;
	case 4: for (int k = 1; k < n; k++) w[k] = w[0]; break;
	case 5: for (int k = 0; k < n; k++) w[k] = -w[k]; break;
	case 6: for (int k = 0; k < n; k++) w[k] = 0; w[R.u(n)] = 1; break;
	case 7: std::sort(w, w + n); break;
	case 8: std::sort(w, w + n); std::reverse(w, w + n); break;
	}
}
static hyper_mat new_hm(Rng& R, Dim3 d, int type, const char* il)
{
	char ilbuf[3] = {il[0], il[1], il[2]};
	hyper_mat m = create_hyper_mat(d.S, d.L, d.B, type, ilbuf);
	if (!m) fail("value", "create_hyper_mat(%d,%d,%d,%d,%.3s) returned NULL", d.S, d.L, d.B, type, il);
	own(m);
	reloc(m);
	int wide = (int)R.u(6);
	for (int k = 0; k < d.B; k++)
		m->wavelength[k] = wide == 0 ? (float)(R.real(-1, 1) * pow(10, R.range(-7, 30))) : wide == 1 ? (float)R.range(0, 20000000) : (float)R.range(1, 4000) / (1 << R.u(4));
	wave_shape(R, m->wavelength, d.B);
	return m;
}
hyper_mat in_hm(Rng& R, Dim3 d, int type, const char* il, bool watched)
{
	hyper_mat m = new_hm(R, d, type, il);
	fill_bytes(R, m->data, (size_t)d.S * d.L * d.B * esize(type));
	if (watched) watch_hm(m, "hyper mat");
	return m;
}
hyper_mat in_hm_f32(Rng& R, Dim3 d, const char* il, double lo, double hi)
{
	hyper_mat m = new_hm(R, d, 4, il);
	fill_f32(R, F32(m), (size_t)d.S * d.L * d.B, lo, hi);
	watch_hm(m, "hyper mat");
	return m;
}
hyper_mat out_hm(Rng& R, Dim3 d, int type, const char* il)
{
	hyper_mat m = new_hm(R, d, type, il);
	size_t n = (size_t)d.S * d.L * d.B * esize(type);
	fill_bytes(R, m->data, n);
	poison_uninit(m->data, n);
	return m;
}
static simple_mat new_sm(Dim2 d, int type, int ch)
{
	simple_mat m = create_simple_mat(d.r, d.c, type, ch);
	if (!m) fail("value", "create_simple_mat(%d,%d,%d,%d) returned NULL", d.r, d.c, type, ch);
	own(m);
	reloc(m);
	return m;
}
simple_mat in_sm(Rng& R, Dim2 d, int type, int ch, bool watched)
{
	simple_mat m = new_sm(d, type, ch);
	fill_type(R, m->data, (size_t)d.r * d.c * ch, type);
	if (watched) watch_sm(m, "simple mat");
	return m;
}
simple_mat in_u8(Rng& R, Dim2 d, int ch) { return in_sm(R, d, 1, ch); }
simple_mat in_f32(Rng& R, Dim2 d, int ch, double lo, double hi)
{
	simple_mat m = new_sm(d, 4, ch);
	fill_f32(R, F32(m), (size_t)d.r * d.c * ch, lo, hi);
	watch_sm(m, "simple mat");
	return m;
}
simple_mat out_sm_keep(Rng& R, Dim2 d, int type, int ch)
{
	simple_mat m = new_sm(d, type, ch);
	fill_bytes(R, m->data, (size_t)d.r * d.c * ch * esize(type));
	return m;
}
simple_mat out_sm(Rng& R, Dim2 d, int type, int ch)
{
	simple_mat m = out_sm_keep(R, d, type, ch);
	poison_uninit(m->data, (size_t)d.r * d.c * ch * esize(type));
	return m;
}

void req_hm(hyper_mat m, int S, int L, int B, int type, const char* il, const char* what)
{
	REQ(m != NULL, "%s: returned NULL", what);
	REQ(m->samples == S && m->lines == L && m->bands == B && m->data_type == type,
		"%s: result is %dx%dx%d type %d, not %dx%dx%d type %d", what, m->samples, m->lines, m->bands, m->data_type, S, L, B, type);
	REQ(same_il(m->interleave, il), "%s: result is %.3s, not %.3s", what, m->interleave, il);
	REQ(m->data != NULL, "%s: result has no data", what);
	size_t n = (size_t)S * L * B * esize(type);
	need_init(m->data, n, what);
	digest(m->data, n);
	if (m->wavelength) { need_init(m->wavelength, B * sizeof(float), what); digest(m->wavelength, B * sizeof(float)); }
}
void req_sm(simple_mat m, int r, int c, int type, int ch, const char* what)
{
	REQ(m != NULL, "%s: returned NULL", what);
	REQ(m->rows == r && m->cols == c && m->data_type == type && m->channels == ch && m->elem_size == (int)esize(type),
		"%s: result is %dx%d type %d channels %d elem_size %d, not %dx%d type %d channels %d", what,
		m->rows, m->cols, m->data_type, m->channels, m->elem_size, r, c, type, ch);
	REQ(m->data != NULL, "%s: result has no data", what);
	size_t n = (size_t)r * c * ch * esize(type);
	need_init(m->data, n, what);
	digest(m->data, n);
}
void req_bytes(const void* got, const void* want, size_t n, const char* what)
{
	need_init(got, n, what);
	compared(n);
	if (memcmp(got, want, n) != 0) {
		size_t k = 0;
		while (((const char*)got)[k] == ((const char*)want)[k]) k++;
		fail("value", "%s: byte %zu of %zu is %d, not %d", what, k, n, ((const unsigned char*)got)[k], ((const unsigned char*)want)[k]);
	}
}

// ------------------------------------------------------------------ children ----
int child_fd[2];
int child_begin()
{
	fflush(stdout);
	fflush(stderr);
	if (pipe(child_fd) != 0) { perror("pipe"); _exit(97); }
	int pid = fork();
	if (pid < 0) { perror("fork"); _exit(97); }
	if (pid == 0) {
		dup2(child_fd[1], 1);
		dup2(child_fd[1], 2);
		close(child_fd[0]);
		close(child_fd[1]);
		struct itimerval t = {{0, 0}, {20, 0}};
		setitimer(ITIMER_PROF, &t, NULL);
		signal(SIGPROF, SIG_DFL);
		alarm(300);
	}
	return pid;
}
int child_wait(int pid, std::vector<char>& out)
{
	close(child_fd[1]);
	char b[4096];
	ssize_t n;
	out.clear();
	while ((n = read(child_fd[0], b, sizeof b)) > 0 || (n < 0 && errno == EINTR))
		if (n > 0 && out.size() < 20000) out.insert(out.end(), b, b + n);
	close(child_fd[0]);
	out.push_back(0);
	int st = 0;
	while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
	return WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
}
void req_rejected(int status, const std::vector<char>& out, const char* what)
{
	compared();
	if (status == 99 || status > 128) {
		const char* rep = strstr(out.data(), "ERROR: AddressSanitizer");
		if (!rep) rep = strstr(out.data(), "runtime error");
		fail("reject", "%s: expected exit status 1 with an ERROR: message, got status %d %.200s", what, status, rep ? rep : "");
	}
	if (status != 1) fail("reject", "%s: not refused (exit status %d)", what, status);
	if (!strstr(out.data(), "ERROR: ")) fail("reject", "%s: exit status 1 without an ERROR: message", what);
}

// ---------------------------------------------------------------------- main ----
struct Cur { int active; int index; uint64_t seed; char name[64]; int64_t mut; };
static Cur* g_cur;
static int g_out = 1;
static std::vector<uint64_t> g_sigs;

static void out_str(const char* s) { size_t n = strlen(s); while (n) { ssize_t k = write(g_out, s, n); if (k <= 0) return; s += k; n -= k; } }
static void json_str(char* dst, size_t cap, const char* s)
{
	size_t k = 0;
	for (; *s && k + 8 < cap; s++) {
		unsigned char c = *s;
		if (c == '"' || c == '\\') { dst[k++] = '\\'; dst[k++] = c; }
		else if (c < 32 || c > 126) k += snprintf(dst + k, cap - k, "\\u%04x", c);
		else dst[k++] = c;
	}
	dst[k] = 0;
}
struct CaseId { uint64_t seed; int64_t mut; };
static const char* id_text(CaseId c, char* b);
static void report(const char* name, CaseId id, const char* kind, const char* msg, const char* dsc)
{
	char a[1500], b[1000], line[3000], t[60];
	json_str(a, sizeof a, msg);
	json_str(b, sizeof b, dsc);
	snprintf(line, sizeof line, "{\"fail\":1,\"scenario\":\"%s\",\"seed\":\"%s\",\"kind\":\"%s\",\"msg\":\"%s\",\"case\":\"%s\"}\n",
		name, id_text(id, t), kind, a, b);
	out_str(line);
}
static void on_hang(int)
{
	out_str("{\"hang\":1}\n");
	_exit(98);
}
static void on_alarm(int)      // wall clock watchdog: says nothing about the code
{
	out_str("{\"stuck\":1}\n");
	_exit(96);
}
static int g_cpu = 30;
static int g_maxfail = 40;
static int open_fds()
{
	int n = 0;
	for (int fd = 0; fd < 64; fd++) if (fcntl(fd, F_GETFD) != -1) n++;
	return n;
}

static int run_once(Scenario* s, CaseId id, Ctx* ctx);
#ifdef REGISTRY
// one allocation of the case fails (and, in one case of three, all later ones):
// the case completes with the right results or the call refuses
static int oom_case(Scenario* s, CaseId seed, Ctx* ctx)
{
	long before = g_alloc_n;
	int f = run_once(s, seed, ctx);
	long n = g_alloc_n - before;
	if (f || n <= 0) return f ? f : 2;
	uint64_t sg = ctx->sig;
	Rng R(seed.seed ^ 0x5151);
	for (int rep = 0; rep < (n > 4 ? 2 : 1); rep++) {
		long k = R.p(40) ? 1 + (long)R.u(n < 12 ? n : 12) : 1 + (long)R.u(n);
		bool rest = R.p(33);
		std::vector<char> out;
		int pid = child_begin();
		if (pid == 0) {
			g_alloc_n = 0;
			g_alloc_at = k;
			g_alloc_rest = rest;
			int r = run_once(s, seed, ctx);
			g_alloc_at = 0;
			if (r == 1) { printf("OOMFAIL %s: %s\n", ctx->kind, ctx->msg); fflush(stdout); _Exit(95); }
			_Exit(0);
		}
		int st = child_wait(pid, out);
		run_once(s, seed, ctx);       // describes the case
		ctx->sig = sg;
		sig(k * 2 + rest);
		compared();
		const char* m = strstr(out.data(), "OOMFAIL");
		if (st == 95 && m && strstr(m, "returned NULL")) { seen("reported by the return value"); continue; }
		if (st == 0) { seen("completed without the allocation"); continue; }
		if (st == 1 && strstr(out.data(), "ERROR: ")) { seen("refused in %s", s->name); continue; }
		const char* rep2 = strstr(out.data(), "ERROR: AddressSanitizer");
		if (!rep2) rep2 = strstr(out.data(), "runtime error");
		if (!rep2) rep2 = m;
		try {
			if (st == 1) fail("oom", "allocation %ld of %ld fails%s: exit status 1 without an ERROR: message", k, n, rest ? ", and all later ones" : "");
			fail("oom", "allocation %ld of %ld fails%s: neither refused nor completed (status %d) %.200s", k, n, rest ? ", and all later ones" : "", st, rep2 ? rep2 : "");
		} catch (int) { return 1; }
	}
	return 0;
}
#endif
static int run_once(Scenario* s, CaseId id, Ctx* ctx)
{
	C = ctx;
	ctx->sig = hash_bytes(s->name, strlen(s->name));
	ctx->ncmp = 0;
	ctx->dig = 7;
	ctx->dlen = 0;
	ctx->dsc[0] = 0;
	ctx->failed = 0;
	ctx->msg[0] = 0;
	Rng R(id.seed, id.mut);
	try {
		s->fn(R);
		check_watches();
	} catch (int) {
	}
	cleanup();
	return ctx->failed;
}
static uint64_t case_seed(uint64_t seed, const char* name, int idx)
{
	Rng r(seed * 0x2545F4914F6CDD1DULL + hash_bytes(name, strlen(name)) + (uint64_t)idx * 0x9E3779B97F4A7C15ULL);
	return r.next();
}
// every third case of a worker is a twin of the one before it, which differs in one draw or not
// at all: what a call leaves behind shows in the next call that is almost the same
static CaseId case_id(uint64_t seed, const Scenario* s, int idx, int nshards)
{
	const char* name = s->name;
	CaseId c = {case_seed(seed, name, idx), -1};
	if (idx / nshards % 3 != 1 || s->flags & F_BIG || g_long) return c;
	Rng r(c.seed);
	c.seed = case_seed(seed, name, idx - nshards);
	if (!r.p(15)) c.mut = r.range(0, r.p(70) ? 9 : r.p(60) ? 30 : 300);
	return c;
}
static const char* id_text(CaseId c, char* b)
{
	if (c.mut < 0) sprintf(b, "%llu", (unsigned long long)c.seed);
	else sprintf(b, "%llu.%lld", (unsigned long long)c.seed, (long long)c.mut);
	return b;
}

struct ThreadArg { std::vector<Scenario*>* list; int n; uint64_t seed; int t, nt; std::vector<uint64_t>* digs; int offset; };
static void* thread_main(void* p)
{
	ThreadArg* a = (ThreadArg*)p;
	Ctx ctx;
	size_t total = a->digs->size();
	for (size_t q = 0; q < total; q++) {
		size_t k = (q + (size_t)a->offset * total / a->nt) % total;
		Scenario* s = (*a->list)[k % a->list->size()];
		CaseId seed = {case_seed(a->seed, s->name, (int)(k / a->list->size())), -1};
		int f = run_once(s, seed, &ctx);
		if (f == 1) {
			pthread_mutex_lock(&g_mu);
			report(s->name, seed, ctx.kind, ctx.msg, ctx.dsc);
			pthread_mutex_unlock(&g_mu);
		}
		(*a->digs)[k] = f == 0 ? ctx.dig : 1;
	}
	C = NULL;
	return NULL;
}

int main(int argc, char** argv)
{
	const char* scen = NULL;
	const char* curpath = NULL;
	const char* outpath = NULL;
	const char* one = NULL;
	const char* mode = "normal";
	uint64_t seed = 1;
	CaseId oneseed = {0, -1};
	char onetext[60] = "0";
	int shard = 0, nshards = 1, start = 0, threads = 0, cap = 0;
	double mult = 1.0;
	bool list = false;
	for (int i = 1; i < argc; i++) {
#define ARG(x) (strcmp(argv[i], x) == 0 && i + 1 < argc)
		if (ARG("--scen")) scen = argv[++i];
		else if (ARG("--cur")) curpath = argv[++i];
		else if (ARG("--out")) outpath = argv[++i];
		else if (ARG("--seed")) seed = strtoull(argv[++i], NULL, 10);
		else if (ARG("--shard")) shard = atoi(argv[++i]);
		else if (ARG("--nshards")) nshards = atoi(argv[++i]);
		else if (ARG("--start")) start = atoi(argv[++i]);
		else if (ARG("--mult")) mult = atof(argv[++i]);
		else if (ARG("--cap")) cap = atoi(argv[++i]);
		else if (ARG("--scratch")) g_scratch = argv[++i];
		else if (ARG("--mode")) mode = argv[++i];
		else if (ARG("--threads")) threads = atoi(argv[++i]);
		else if (ARG("--cpu")) g_cpu = atoi(argv[++i]);
		else if (ARG("--one")) one = argv[++i];
		else if (ARG("--caseseed")) {
			char* e;
			oneseed.seed = strtoull(argv[++i], &e, 10);
			if (*e == '.') oneseed.mut = strtoll(e + 1, NULL, 10);
			id_text(oneseed, onetext);
		}
		else if (strcmp(argv[i], "--thorough") == 0) g_thorough = true;
		else if (strcmp(argv[i], "--long") == 0) g_long = true;
		else if (strcmp(argv[i], "--maxfail") == 0) g_maxfail = atoi(argv[++i]);
		else if (strcmp(argv[i], "--list") == 0) list = true;
		else { fprintf(stderr, "bad argument %s\n", argv[i]); return 97; }
	}
	g_shard = shard;
	setvbuf(stdout, NULL, _IONBF, 0);
	if (list) {
		for (Scenario* s = g_scen; s; s = s->next) printf("%s %d %u\n", s->name, s->n, s->flags);
		return 0;
	}
	g_feat = (Feat*)__real_malloc(NFEAT * sizeof(Feat));
	memset(g_feat, 0, NFEAT * sizeof(Feat));
	if (outpath && (g_out = open(outpath, O_WRONLY | O_CREAT | O_APPEND, 0644)) < 0) { perror(outpath); return 97; }
	static Cur dummy;
	g_cur = &dummy;
	if (curpath) {
		int fd = open(curpath, O_RDWR | O_CREAT, 0644);
		if (fd < 0 || ftruncate(fd, sizeof(Cur)) != 0) { perror(curpath); return 97; }
		g_cur = (Cur*)mmap(NULL, sizeof(Cur), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
		if (g_cur == MAP_FAILED) { perror("mmap"); return 97; }
		close(fd);
	}
	signal(SIGPROF, on_hang);
	signal(SIGALRM, on_alarm);
	signal(SIGPIPE, SIG_IGN);

	// the scenarios of this run, in a stable order
	std::vector<Scenario*> sel;
	for (Scenario* s = g_scen; s; s = s->next) {
		if (one && strcmp(s->name, one) == 0) { sel.push_back(s); continue; }
		if (!scen) continue;
		const char* p = scen;
		size_t n = strlen(s->name);
		while (p) {
			if (strncmp(p, s->name, n) == 0 && (p[n] == ',' || p[n] == 0)) { sel.push_back(s); break; }
			p = strchr(p, ',');
			if (p) p++;
		}
	}
	for (size_t i = 0; i < sel.size(); i++)
		for (size_t j = i + 1; j < sel.size(); j++)
			if (strcmp(sel[j]->name, sel[i]->name) < 0) { Scenario* t = sel[i]; sel[i] = sel[j]; sel[j] = t; }
	if (sel.empty()) { fprintf(stderr, "no scenario selected\n"); return 97; }

	Ctx ctx;
	if (one) {
		struct itimerval t = {{0, 0}, {g_cpu, 0}};
		setitimer(ITIMER_PROF, &t, NULL);
#ifdef REGISTRY
		if (strcmp(mode, "oom") == 0) {
			int f = oom_case(sel[0], oneseed, &ctx);
			printf("%s seed %s: %s %s\n  case: %s\n", one, onetext, f == 0 ? "held" : f == 2 ? "skipped" : ctx.kind, ctx.msg, ctx.dsc);
			return f == 1 ? 1 : 0;
		}
#endif
		// a twin follows its case
		if (oneseed.mut >= 0) run_once(sel[0], CaseId{oneseed.seed, -1}, &ctx);
		int f = 0;
		long grew = 0;
		int fgrew = 0;
		for (int k = 0; k < (strcmp(mode, "leak") == 0 ? 4 : 1) && f == 0; k++) {
			size_t before = live_blocks();
			int fds = open_fds();
			f = run_once(sel[0], oneseed, &ctx);
			grew = (long)(live_blocks() - before);
			fgrew = open_fds() - fds;
		}
		printf("%s seed %s: %s %s\n  case: %s\n  digest %llx leaked blocks %ld descriptors %d\n", one, onetext,
			f == 0 ? "held" : f == 2 ? "skipped" : ctx.kind, ctx.msg, ctx.dsc, (unsigned long long)ctx.dig, grew, fgrew);
		if (f == 0 && strcmp(mode, "leak") == 0 && (grew > 0 || fgrew > 0)) return 1;
		return f == 1 ? 1 : 0;
	}

	if (threads > 0) {
		// every thread runs every case at its own time; the results must be those of a single thread
		std::vector<Scenario*> ts;
		for (size_t i = 0; i < sel.size(); i++) if (!(sel[i]->flags & (F_NOTHREAD | F_FILE | F_FORK | F_BIG))) ts.push_back(sel[i]);
		int per = (int)mult < 1 ? 1 : (int)mult;
		std::vector<std::vector<uint64_t> > digs(threads + 1, std::vector<uint64_t>(ts.size() * per, 0));
		g_concurrent = true;
		ThreadArg solo = {&ts, per, seed, 0, 1, &digs[threads], 0};
		thread_main(&solo);
		std::vector<pthread_t> th(threads);
		std::vector<ThreadArg> ta(threads);
		for (int t = 0; t < threads; t++) {
			ThreadArg a = {&ts, per, seed, t, threads, &digs[t], (t * 5) % threads};
			ta[t] = a;
			pthread_create(&th[t], NULL, thread_main, &ta[t]);
		}
		for (int t = 0; t < threads; t++) pthread_join(th[t], NULL);
		for (int t = 0; t < threads; t++)
			for (size_t k = 0; k < digs[t].size(); k++)
				if (digs[t][k] != digs[threads][k] && !(ts[k % ts.size()]->flags & F_NORERUN)) {
					Scenario* s = ts[k % ts.size()];
					report(s->name, CaseId{case_seed(seed, s->name, (int)(k / ts.size())), -1}, "race",
						"the result of a concurrent call differs from the result of the same call alone", "");
				}
		char line[400];
		snprintf(line, sizeof line, "{\"done\":1,\"cases\":%zu,\"skipped\":0,\"compared\":%zu,\"distinct\":%zu,\"scenarios\":{},\"features\":{\"concurrent calls\":%zu,\"threads\":%d,\"operations\":%zu}}\n",
			ts.size() * per * (threads + 1), ts.size() * per * threads, ts.size() * per, ts.size() * per * threads, threads, ts.size());
		out_str(line);
		return 0;
	}

	bool leakmode = strcmp(mode, "leak") == 0;
	bool oommode = strcmp(mode, "oom") == 0;
	(void)oommode;
	bool reverse = strcmp(mode, "reverse") == 0;
	bool digmode = reverse || strcmp(mode, "digest") == 0;
	std::vector<std::pair<Scenario*, int> > cases;
	for (size_t i = 0; i < sel.size(); i++) {
		if (oommode && (sel[i]->flags & (F_FORK | F_BIG | F_NOOM))) continue;
		int n = (int)ceil(sel[i]->n * mult);
		if (cap && n > cap) n = cap;
		for (int k = sel[i]->flags & F_BIG ? (int)((shard + nshards - i % nshards) % nshards) : shard; k < n; k += nshards) cases.push_back(std::make_pair(sel[i], k));
	}
	if (reverse)
		for (size_t i = 0, j = cases.size(); i + 1 < j; i++) { j--; std::pair<Scenario*, int> t = cases[i]; cases[i] = cases[j]; cases[j] = t; }
	uint64_t ran = 0, skipped = 0, ncmp = 0;
	std::vector<uint64_t> per(sel.size(), 0);
	int reported = 0;
	std::vector<char> samples;
	int nsamples = 0;
	Scenario* lastsample = NULL;
	for (size_t i = start; i < cases.size(); i++) {
		Scenario* s = cases[i].first;
		CaseId cs = case_id(seed, s, cases[i].second, nshards);
		char ct[60];
		id_text(cs, ct);
		g_cur->index = (int)i;
		g_cur->seed = cs.seed;
		g_cur->mut = cs.mut;
		snprintf(g_cur->name, sizeof g_cur->name, "%s", s->name);
		g_cur->active = 1;
		struct itimerval t = {{0, 0}, {g_cpu, 0}};
		setitimer(ITIMER_PROF, &t, NULL);
		alarm(g_cpu * 20);
		size_t before = live_blocks();
		int fds = leakmode ? open_fds() : 0;
#ifdef REGISTRY
		int f = oommode ? oom_case(s, cs, &ctx) : run_once(s, cs, &ctx);
#else
		int f = run_once(s, cs, &ctx);
#endif
		ran++;
		if (f == 2) skipped++;
		if (f == 1) {
			report(s->name, cs, ctx.kind, ctx.msg, ctx.dsc);
			if (++reported >= g_maxfail) { out_str("{\"toomany\":1}\n"); break; }
		}
		if (leakmode && f == 0) {
			size_t grew = live_blocks() - before;
			int fgrew = open_fds() - fds;
			for (int k = 0; k < 3 && ((long)grew > 0 || fgrew > 0); k++) {   // a one time cache is no leak
				before = live_blocks();
				fds = open_fds();
				run_once(s, cs, &ctx);
				long g = (long)(live_blocks() - before);
				grew = g > 0 && (long)grew > 0 ? (size_t)g : 0;
				if (open_fds() - fds <= 0) fgrew = 0;
			}
			if ((long)grew > 0 || fgrew > 0) {
				char m[200];
				snprintf(m, sizeof m, "every run of this case leaks %zu blocks and %d file descriptors", grew, fgrew);
				report(s->name, cs, "leak", m, ctx.dsc);
				if (++reported >= g_maxfail) { out_str("{\"toomany\":1}\n"); break; }
			}
			compared(1);
		}
		if (digmode && f == 0 && !(s->flags & F_NORERUN)) {
			char b[200];
			snprintf(b, sizeof b, "{\"dig\":\"%llx\",\"s\":\"%s\",\"k\":%d,\"seed\":\"%s\"}\n", (unsigned long long)ctx.dig, s->name, cases[i].second, ct);
			out_str(b);
		}
		ncmp += ctx.ncmp;
		if (f == 0 && ctx.ncmp > 0) g_sigs.push_back(ctx.sig);
		for (size_t k = 0; k < sel.size(); k++) if (sel[k] == s) per[k]++;
		if (shard == 0 && nsamples < 60 && f == 0 && s != lastsample && ctx.dlen) {
			char d[900], line[1100];
			json_str(d, sizeof d, ctx.dsc);
			int n = snprintf(line, sizeof line, "%s{\"scenario\":\"%s\",\"seed\":\"%s\",\"case\":\"%s\",\"comparisons\":%llu}", nsamples ? "," : "", s->name,
				ct, d, (unsigned long long)ctx.ncmp);
			samples.insert(samples.end(), line, line + n);
			nsamples++;
			lastsample = s;
		}
		g_cur->active = 0;
	}
	// distinct cases
	std::vector<uint64_t>& v = g_sigs;
	size_t distinct = 0;
	if (!v.empty()) {
		struct Q { static int c(const void* a, const void* b) { uint64_t x = *(uint64_t*)a, y = *(uint64_t*)b; return x < y ? -1 : x > y; } };
		qsort(&v[0], v.size(), sizeof v[0], Q::c);
		for (size_t i = 0; i < v.size(); i++) if (i == 0 || v[i] != v[i - 1]) distinct++;
	}
	char line[600];
	snprintf(line, sizeof line, "{\"done\":1,\"cases\":%llu,\"skipped\":%llu,\"compared\":%llu,\"distinct\":%zu,\"scenarios\":{",
		(unsigned long long)ran, (unsigned long long)skipped, (unsigned long long)ncmp, distinct);
	out_str(line);
	for (size_t k = 0; k < sel.size(); k++) {
		snprintf(line, sizeof line, "%s\"%s\":%llu", k ? "," : "", sel[k]->name, (unsigned long long)per[k]);
		out_str(line);
	}
	out_str("},\"features\":{");
	bool first = true;
	for (int i = 0; i < NFEAT; i++)
		if (g_feat[i].name) {
			char b[300];
			json_str(b, sizeof b, g_feat[i].name);
			snprintf(line, sizeof line, "%s\"%s\":%llu", first ? "" : ",", b, (unsigned long long)g_feat[i].n);
			out_str(line);
			first = false;
		}
	out_str("},\"samples\":[");
	samples.push_back(0);
	out_str(&samples[0]);
	out_str("]}\n");
	out_str("");
	// distinct signatures, merged by the runner
	if (outpath && distinct) {
		char path[1000];
		snprintf(path, sizeof path, "%s.sig", outpath);
		FILE* fp = fopen(path, "ab");
		if (fp) {
			for (size_t i = 0; i < v.size(); i++) if (i == 0 || v[i] != v[i - 1]) fwrite(&v[i], 8, 1, fp);
			fclose(fp);
		}
	}
	return 0;
}
