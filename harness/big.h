// Contents of data beyond 2^31 bytes: each byte follows from its place.
#pragma once
#include "h.h"
#include <string>
static inline uint64_t big_word(uint64_t key, uint64_t w)
{
	uint64_t z = key + w * 0x9E3779B97F4A7C15ULL;
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
	return z ^ (z >> 29);
}
static inline unsigned char big_byte(uint64_t key, size_t p) { return (unsigned char)(big_word(key, p >> 3) >> (p & 7) * 8); }
static inline void big_fill(uint64_t key, void* d, size_t n)
{
	unsigned char* p = (unsigned char*)d;
	for (size_t w = 0; w < n / 8; w++) { uint64_t z = big_word(key, w); memcpy(p + w * 8, &z, 8); }
	for (size_t q = n & ~(size_t)7; q < n; q++) p[q] = big_byte(key, q);
}
// a shape of more than 2^31 bytes, or elements
static inline Dim3 big_dim(Rng& R, size_t e, size_t least = 0x80000000, size_t spare = 60000000)
{
	Dim3 d;
	size_t want = (least + R.u(spare)) / e + 1;
	int which = (int)R.u(4), a = R.range(200, 1500), b = which == 3 ? 1 : R.range(200, 1500);
	int c = (int)(want / ((size_t)a * b)) + 1;
	if (which == 0) d = Dim3{a, b, c};
	else if (which == 1) d = Dim3{a, c, b};
	else if (which == 2) d = Dim3{c, a, b};
	else { int q = (int)sqrt((double)want) + 1; d = R.p(50) ? Dim3{q, q, 1} : Dim3{q, 3, q / 3 + 1}; }
	return d;
}
// places worth a look: ends, the powers of two, and random ones
static inline size_t big_place(Rng& R, size_t k, size_t n)
{
	static const size_t EDGE[] = {0, 0x40000000, 0x80000000, 0x100000000, 0x20000000, 0x10000000, 0x200000000, 0x8000000, 0x4000000};
	size_t p = k < 900 ? EDGE[k % 9] + (k / 9) - 50 : k < 1000 ? n - 1 - (k - 900) : R.u(n);
	return p < n ? p : R.u(n);
}
static const int BIG_LIST[] = {1, 1, 5, 5, 5, 4, 12, 15};
// got: cut of the cube (key, d, il) that starts at (i0, j0, k0)
static inline void req_cut(Rng& R, const void* got, Dim3 g, const char* gl, uint64_t key, Dim3 d, const char* il, int i0, int j0, int k0, int type, const char* what)
{
	size_t e = esize(type), n = (size_t)g.S * g.L * g.B, N = n < 400000 ? n : 400000;
	for (size_t q = 0; q < N; q++) {
		size_t p = n == N ? q : big_place(R, q, q & 1 ? n : n * e) / (q & 1 ? 1 : e);
		int i, j, k;
		if (gl[1] == 's') { j = p % g.S; i = p / g.S % g.L; k = p / g.S / g.L; }
		else if (gl[2] == 'l') { j = p % g.S; k = p / g.S % g.B; i = p / g.S / g.B; }
		else { k = p % g.B; j = p / g.B % g.S; i = p / g.B / g.S; }
		size_t s = at(il, d.S, d.L, d.B, i + i0, j + j0, k + k0);
		for (size_t t = 0; t < e; t++) {
			int have = ((const unsigned char*)got)[p * e + t], want = big_byte(key, s * e + t);
			if (have != want) fail("value", "%s: byte %zu of line %d sample %d band %d is %d, not %d", what, t, i, j, k, have, want);
		}
	}
	compared(N);
}
