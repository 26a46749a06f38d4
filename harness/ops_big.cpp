// Cubes and images of more than 2 GiB: created, filled, copied.
#include "big.h"
#include <algorithm>

static void mark(Rng& R, unsigned char* p, size_t n, std::vector<size_t>& pos, std::vector<unsigned char>& val)
{
	static const size_t EDGE[] = {0, 1, 0x7ffffffe, 0x7fffffff, 0x80000000, 0x80000001};
	for (int k = 0; k < 60000; k++) {
		size_t at = k < 6 ? EDGE[k] : k < 12 ? n - 1 - (size_t)(k - 6) : k % 3 == 0 ? 0x80000000 + R.u(n - 0x80000000) : R.u(n);
		if (at >= n) continue;
		p[at] = (unsigned char)R.range(1, 255);
		pos.push_back(at);
	}
	for (size_t k = 0; k < pos.size(); k++) val.push_back(p[pos[k]]);
}
static void req_marks(const unsigned char* p, const std::vector<size_t>& pos, const std::vector<unsigned char>& val, const char* what)
{
	for (size_t k = 0; k < pos.size(); k++)
		if (p[pos[k]] != val[k]) fail("value", "%s: byte %zu is %d, not %d", what, pos[k], p[pos[k]], val[k]);
	compared(pos.size());
}
static void req_zero(Rng& R, const unsigned char* p, size_t n, const char* what)
{
	for (int k = 0; k < 60000; k++) {
		size_t at = k < 64 ? n - 1 - k : R.u(n);
		if (p[at]) fail("value", "%s: byte %zu is %d, not 0", what, at, p[at]);
	}
	compared(60000);
}

SC(big_cube, 2, F_BIG | F_NOTHREAD | F_NOMSAN | F_NORERUN)
{
	static int turn = 0;
	int type = turn++ % 2 ? R.p(50) ? 5 : 15 : R.p(50) ? 1 : 12;
	size_t e = esize(type), n = 0;
	int S = R.range(300, 900), L = R.range(300, 900);
	int B = (int)(((size_t)0x80000000 + R.u(100000000)) / ((size_t)S * L * e)) + 1;
	n = (size_t)S * L * B * e;
	const char* il = ILS[R.u(3)];
	desc("cube samples=%d lines=%d bands=%d type=%d of %zu bytes", S, L, B, type, n);
	seen("%s", n / e > 0x7fffffff ? "more than 2^31 elements" : "more than 2^31 bytes");
	sig(n); sig(type);
	hyper_mat m = create_hyper_mat(S, L, B, type, il);
	REQ(m != NULL, "create_hyper_mat returned NULL");
	own(m);
	req_hm(m, S, L, B, type, il, "create_hyper_mat");
	req_zero(R, (unsigned char*)m->data, n, "created cube");
	for (int k = 0; k < B; k++) { REQ(m->wavelength[k] == 0, "wavelength %d of a created cube is %g", k, m->wavelength[k]); m->wavelength[k] = (float)k + 0.5f; }
	std::vector<size_t> pos;
	std::vector<unsigned char> val;
	mark(R, (unsigned char*)m->data, n, pos, val);
	hyper_mat c = hyper_mat_copy(m);
	REQ(c != NULL && c != m && c->data != m->data, "hyper_mat_copy returned no copy");
	own(c);
	req_hm(c, S, L, B, type, il, "hyper_mat_copy");
	req_marks((unsigned char*)c->data, pos, val, "hyper_mat_copy");
	REQ(memcmp(c->data, m->data, n) == 0, "hyper_mat_copy differs");
	for (int k = 0; k < B; k++) REQ(c->wavelength[k] == (float)k + 0.5f, "hyper_mat_copy: wavelength %d", k);
	memset(c->data, 0, n);
	hyper_mat_copy_to(m, c);
	req_marks((unsigned char*)c->data, pos, val, "hyper_mat_copy_to");
	REQ(memcmp(c->data, m->data, n) == 0, "hyper_mat_copy_to differs");
	disown(m);
	hyper_mat d = create_hyper_mat_with_data(S, L, B, type, il, c->data, c->wavelength);
	delete_hyper_mat(m);
	REQ(d != NULL, "create_hyper_mat_with_data returned NULL");
	own(d);
	req_hm(d, S, L, B, type, il, "create_hyper_mat_with_data");
	req_marks((unsigned char*)d->data, pos, val, "create_hyper_mat_with_data");
	for (int k = 0; k < B; k++) REQ(d->wavelength[k] == (float)k + 0.5f, "create_hyper_mat_with_data: wavelength %d", k);
	compared(n / 4096 + 3 * B);
}

SC(big_image, 2, F_BIG | F_NOTHREAD | F_NOMSAN | F_NORERUN)
{
	static int turn = 0;
	int type = turn++ % 2 ? R.p(50) ? 5 : 15 : R.p(50) ? 1 : 12, ch = R.range(1, 4);
	size_t e = esize(type), n;
	int cols = R.range(20000, 60000), rows = (int)(((size_t)0x80000000 + R.u(100000000)) / ((size_t)cols * ch * e)) + 1;
	n = (size_t)rows * cols * ch * e;
	desc("image rows=%d cols=%d channels=%d type=%d of %zu bytes", rows, cols, ch, type, n);
	seen("%s", n / e > 0x7fffffff ? "more than 2^31 elements" : "more than 2^31 bytes");
	sig(n); sig(type);
	simple_mat m = create_simple_mat(rows, cols, type, ch);
	REQ(m != NULL, "create_simple_mat returned NULL");
	own(m);
	req_sm(m, rows, cols, type, ch, "create_simple_mat");
	req_zero(R, (unsigned char*)m->data, n, "created image");
	std::vector<size_t> pos;
	std::vector<unsigned char> val;
	mark(R, (unsigned char*)m->data, n, pos, val);
	simple_mat c = simple_mat_copy(m);
	REQ(c != NULL && c != m && c->data != m->data, "simple_mat_copy returned no copy");
	own(c);
	req_sm(c, rows, cols, type, ch, "simple_mat_copy");
	req_marks((unsigned char*)c->data, pos, val, "simple_mat_copy");
	REQ(memcmp(c->data, m->data, n) == 0, "simple_mat_copy differs");
	compared(n / 4096);
}

// ---- operations on cubes beyond 2^31 bytes ----
static hyper_mat big_hm(Rng& R, Dim3 d, int type, const char* il, uint64_t key)
{
	char ib[3] = {il[0], il[1], il[2]};
	hyper_mat m = create_hyper_mat(d.S, d.L, d.B, type, ib);
	REQ(m != NULL, "create_hyper_mat returned NULL");
	own(m);
	big_fill(key, m->data, (size_t)d.S * d.L * d.B * esize(type));
	for (int k = 0; k < d.B; k++) m->wavelength[k] = (float)(k % 1000) + 0.25f;
	return m;
}
static const int BIG_TYPES[] = {1, 1, 5, 5, 9, 9, 4, 12, 6, 15};
static void big_conv(Rng& R, hyper_mat (*f)(hyper_mat), void (*g)(hyper_mat), const char* from, const char* to, const char* name)
{
	int type = R.pick(BIG_TYPES);
	Dim3 d = big_dim(R, esize(type), type == 9 && R.p(50) ? 0x100000000 : 0x80000000);
	uint64_t key = R.next();
	size_t n = (size_t)d.S * d.L * d.B;
	desc("%s of samples=%d lines=%d bands=%d type=%d, %zu bytes", name, d.S, d.L, d.B, type, n * esize(type));
	seen("%s", name); seen("%s", n > 0x7fffffff ? "more than 2^31 elements" : n * esize(type) > 0xffffffff ? "more than 2^32 bytes" : "more than 2^31 bytes");
	sig(n); sig(type); sig(name[0] + name[4] * 256 + name[9 < strlen(name) ? 9 : 0]);
	hyper_mat m = big_hm(R, d, type, from, key), o = m;
	if (f) { o = f(m); REQ(o != NULL && o != m, "%s returned no new mat", name); own(o); }
	else g(m);
	req_hm(o, d.S, d.L, d.B, type, to, name);
	req_cut(R, o->data, d, to, key, d, from, 0, 0, 0, type, name);
	for (int k = 0; k < d.B; k++) REQ(o->wavelength[k] == (float)(k % 1000) + 0.25f, "%s: wavelength %d", name, k);
	if (f) req_cut(R, m->data, d, from, key, d, from, 0, 0, 0, type, "source");
}
SC(big_bsq2bil, 1, F_BIG | F_NOTHREAD | F_NOMSAN | F_NORERUN) { big_conv(R, bsq2bil, NULL, "bsq", "bil", "bsq2bil"); }
SC(big_bsq2bip, 1, F_BIG | F_NOTHREAD | F_NOMSAN | F_NORERUN) { big_conv(R, bsq2bip, NULL, "bsq", "bip", "bsq2bip"); }
SC(big_bil2bsq, 1, F_BIG | F_NOTHREAD | F_NOMSAN | F_NORERUN) { big_conv(R, bil2bsq, NULL, "bil", "bsq", "bil2bsq"); }
SC(big_bil2bip, 1, F_BIG | F_NOTHREAD | F_NOMSAN | F_NORERUN) { big_conv(R, bil2bip, NULL, "bil", "bip", "bil2bip"); }
SC(big_bip2bsq, 1, F_BIG | F_NOTHREAD | F_NOMSAN | F_NORERUN) { big_conv(R, bip2bsq, NULL, "bip", "bsq", "bip2bsq"); }
SC(big_bip2bil, 1, F_BIG | F_NOTHREAD | F_NOMSAN | F_NORERUN) { big_conv(R, bip2bil, NULL, "bip", "bil", "bip2bil"); }
SC(big_inplace, 1, F_BIG | F_NOTHREAD | F_NOMSAN | F_NORERUN)
{
	int a = (int)R.u(3), b = (a + 1 + (int)R.u(2)) % 3;
	static void (*const G[3])(hyper_mat) = {convert2bsq, convert2bil, convert2bip};
	big_conv(R, NULL, G[b], ILS[a], ILS[b], b == 0 ? "convert2bsq" : b == 1 ? "convert2bil" : "convert2bip");
}
SC(big_range, 3, F_BIG | F_NOTHREAD | F_NOMSAN | F_NORERUN)
{
	int type = R.pick(BIG_TYPES);
	Dim3 d = big_dim(R, esize(type), R.p(30) ? 0x100000000 : 0x80000000);
	const char* il = ILS[R.u(3)];
	uint64_t key = R.next();
	bool large = (size_t)d.S * d.L * d.B * esize(type) < 0xf0000000 && R.p(30);              // the cut itself is beyond 2^31 bytes
	Dim3 a, b;
	a.L = large || R.p(20) ? 0 : (int)R.u(d.L); b.L = large ? d.L : R.range(a.L + 1, d.L);
	a.S = large || R.p(20) ? 0 : (int)R.u(d.S); b.S = large ? d.S : R.range(a.S + 1, d.S);
	a.B = large || R.p(20) ? 0 : (int)R.u(d.B); b.B = large ? d.B : R.range(a.B + 1, d.B);
	if (!large) {
		if (R.p(70)) { b = Dim3{d.S, d.L, d.B}; a.L = std::max(a.L, d.L - 700); a.S = std::max(a.S, d.S - 700); a.B = std::max(a.B, d.B - 300); }
		while ((size_t)(b.L - a.L) * (b.S - a.S) * (b.B - a.B) > 60000000) {
			int* lo = b.L - a.L > b.S - a.S && b.L - a.L > b.B - a.B ? &a.L : b.S - a.S > b.B - a.B ? &a.S : &a.B;
			int hi = lo == &a.L ? b.L : lo == &a.S ? b.S : b.B;
			*lo += (hi - *lo) / 2;
		}
	} else if (R.p(50)) a.B = std::min(3, d.B - 1);
	Dim3 g = {b.S - a.S, b.L - a.L, b.B - a.B};
	desc("range of samples=%d lines=%d bands=%d %s type=%d: from %d,%d,%d to %d,%d,%d", d.S, d.L, d.B, il, type, a.L, a.S, a.B, b.L, b.S, b.B);
	seen("range %s%s", il, large ? " beyond 2^31 bytes" : "");
	sig(a.L); sig(a.S); sig(a.B); sig(d.S); sig(d.L);
	hyper_mat m = big_hm(R, d, type, il, key);
	hyper_mat o = hyper_mat_get_range(m, a.L, a.S, a.B, b.L, b.S, b.B);
	REQ(o != NULL && o != m, "hyper_mat_get_range returned no new mat");
	own(o);
	req_hm(o, g.S, g.L, g.B, type, il, "hyper_mat_get_range");
	req_cut(R, o->data, g, il, key, d, il, a.L, a.S, a.B, type, "hyper_mat_get_range");
	for (int k = 0; k < g.B; k++) REQ(o->wavelength[k] == (float)((k + a.B) % 1000) + 0.25f, "hyper_mat_get_range: wavelength %d", k);
}
SC(big_bands, 2, F_BIG | F_NOTHREAD | F_NOMSAN | F_NORERUN)
{
	int type = R.pick(BIG_TYPES);
	size_t e = esize(type);
	Dim3 d = big_dim(R, e, R.p(30) ? 0x100000000 : 0x80000000);
	uint64_t key = R.next(), key2 = R.next();
	size_t plane = (size_t)d.S * d.L;
	hyper_mat m = big_hm(R, d, type, "bsq", key);
	desc("bands of samples=%d lines=%d bands=%d type=%d", d.S, d.L, d.B, type);
	seen("bands"); sig(d.S); sig(d.B); sig(type);
	simple_mat s = create_simple_mat(d.L, d.S, type, 1);
	REQ(s != NULL, "create_simple_mat returned NULL");
	own(s);
	for (int t = 0; t < 4; t++) {
		int b = t == 0 ? d.B : R.range(1, d.B);
		hyper_mat_2_simple_mat(m, s, b);
		req_sm(s, d.L, d.S, type, 1, "hyper_mat_2_simple_mat");
		req_cut(R, s->data, Dim3{d.S, d.L, 1}, "bsq", key, d, "bsq", 0, 0, b - 1, type, "hyper_mat_2_simple_mat");
	}
	int b = R.p(50) ? d.B : R.range(1, d.B);
	big_fill(key2, s->data, plane * e);
	simple_mat_2_hyper_mat(m, s, b);
	req_cut(R, (char*)m->data + (b - 1) * plane * e, Dim3{d.S, d.L, 1}, "bsq", key2, Dim3{d.S, d.L, 1}, "bsq", 0, 0, 0, type, "simple_mat_2_hyper_mat");
	if (b > 1) req_cut(R, m->data, Dim3{d.S, d.L, b - 1}, "bsq", key, d, "bsq", 0, 0, 0, type, "bands before");
	if (b < d.B) req_cut(R, (char*)m->data + b * plane * e, Dim3{d.S, d.L, d.B - b}, "bsq", key, d, "bsq", 0, 0, b, type, "bands after");
	// a part at an offset
	Dim3 q = {R.range(1, 300), R.range(1, 300), R.range(1, 20)};
	size_t pn = (size_t)q.S * q.L * q.B, all = plane * d.B, top = std::min(all - pn, (size_t)0x7fffffff);
	int off = (int)(R.p(40) ? top : R.u(top + 1));
	big_fill(key, m->data, all * e);
	hyper_mat part = big_hm(R, q, type, "bsq", key2);
	hyper_mat_splicing(m, part, off);
	req_cut(R, (char*)m->data + off * e, q, "bsq", key2, q, "bsq", 0, 0, 0, type, "hyper_mat_splicing");
	for (size_t k = 0; k < 100000; k++) {
		size_t p = big_place(R, k, all * e);
		if (p / e >= (size_t)off && p / e < off + pn) continue;
		if (((unsigned char*)m->data)[p] != big_byte(key, p)) fail("value", "hyper_mat_splicing changed byte %zu outside of the part", p);
	}
	compared(100000);
}
SC(big_transpose, 2, F_BIG | F_NOTHREAD | F_NOMSAN | F_NORERUN)
{
	int type = R.pick(BIG_TYPES);
	Dim3 d = big_dim(R, esize(type));
	uint64_t key = R.next();
	size_t e = esize(type), n = (size_t)d.S * d.L * d.B;
	bool hyper = R.p(50);
	sig(hyper); sig(d.S); sig(d.L);
	if (hyper) {
		hyper_mat m = big_hm(R, d, type, "bsq", key), o = create_hyper_mat(d.L, d.S, d.B, type, "bsq");
		REQ(o != NULL, "create_hyper_mat returned NULL");
		own(o);
		desc("hyper_mat_transport samples=%d lines=%d bands=%d type=%d", d.S, d.L, d.B, type);
		seen("hyper_mat_transport");
		hyper_mat_transport(o, m);
		for (size_t k = 0; k < 300000; k++) {
			size_t p = big_place(R, k, n * e), q = p / e, t = p % e;
			size_t j = q % d.L, i = q / d.L % d.S, b = q / d.L / d.S, s = (b * d.L + j) * d.S + i;
			REQ(((unsigned char*)o->data)[p] == big_byte(key, s * e + t), "hyper_mat_transport: byte %zu", p);
		}
	} else {
		int ch = R.range(1, 4), rows = (int)(n / ch / 30000) + 1, cols = 30000;
		if (R.p(50)) std::swap(rows, cols);
		simple_mat m = create_simple_mat(rows, cols, type, ch), o = create_simple_mat(cols, rows, type, ch);
		REQ(m != NULL && o != NULL, "create_simple_mat returned NULL");
		own(m); own(o);
		desc("simple_mat_transport rows=%d cols=%d channels=%d type=%d", rows, cols, ch, type);
		seen("simple_mat_transport");
		size_t N = (size_t)rows * cols * ch * e, pe = ch * e;
		big_fill(key, m->data, N);
		simple_mat_transport(o, m);
		for (size_t k = 0; k < 300000; k++) {
			size_t p = big_place(R, k, N), q = p / pe, t = p % pe, r = q / rows, c = q % rows;
			REQ(((unsigned char*)o->data)[p] == big_byte(key, (c * cols + r) * pe + t), "simple_mat_transport: byte %zu", p);
		}
	}
	compared(300000);
}
SC(big_reshape, 1, F_BIG | F_NOTHREAD | F_NOMSAN | F_NORERUN)
{
	int type = R.pick(BIG_TYPES);
	Dim3 d = big_dim(R, esize(type));
	uint64_t key = R.next();
	size_t n = (size_t)d.S * d.L * d.B * esize(type);
	bool flat = (size_t)d.S * d.L < 0x7fffffff && R.p(50);
	int rows = flat ? d.B : d.B * d.L, cols = flat ? d.S * d.L : d.S;
	NEED((size_t)d.B * d.L < 0x7fffffff);
	desc("reshape samples=%d lines=%d bands=%d type=%d to %dx%d", d.S, d.L, d.B, type, rows, cols);
	seen("reshape"); sig(d.S); sig(d.L); sig(rows);
	hyper_mat m = big_hm(R, d, type, "bsq", key);
	simple_mat s = reshape_hypermat_2_simplemat(m, rows, cols);
	REQ(s != NULL, "reshape returned NULL");
	own(s);
	req_sm(s, rows, cols, type, 1, "reshape_hypermat_2_simplemat");
	REQ(memcmp(s->data, m->data, n) == 0, "reshape_hypermat_2_simplemat changed the data");
	compared(n / 4096);
}
SC(big_types, 1, F_BIG | F_NOTHREAD | F_NOMSAN | F_NORERUN)
{
	// fewer than 2^31 elements, more than 2^31 bytes on one side
	int kind = (int)R.u(6);
	Dim3 d = big_dim(R, 4);
	size_t n = (size_t)d.S * d.L * d.B;
	uint64_t key = R.next();
	const char* il = ILS[R.u(3)];
	int from = kind < 2 ? 1 : kind == 2 ? 12 : 4;
	desc("type conversion %d of samples=%d lines=%d bands=%d", kind, d.S, d.L, d.B);
	seen("type conversion %d", kind); sig(n); sig(kind);
	hyper_mat m = big_hm(R, d, from, il, key);
	if (from == 4) for (size_t q = 0; q < n; q++) F32(m)[q] = (float)(int)(big_word(key, q) >> 8 & 0xff);
	hyper_mat o = kind == 0 ? hyper_mat_uchar2float(m) : kind == 1 ? hyper_mat_uchar2int(m) : kind == 2 ? hyper_mat_ushort2float(m) : kind == 3 ? hyper_mat_float2uchar(m) : kind == 4 ? hyper_mat_float2ushort(m) : hyper_mat_float2int(m);
	REQ(o != NULL, "the conversion returned NULL");
	own(o);
	static const int TO[] = {4, 3, 4, 1, 12, 3};
	req_hm(o, d.S, d.L, d.B, TO[kind], il, "type conversion");
	for (size_t k = 0; k < 400000; k++) {
		size_t p = big_place(R, k, n);
		double want = from == 1 ? ((unsigned char*)m->data)[p] : from == 12 ? ((unsigned short*)m->data)[p] : F32(m)[p];
		double g = TO[kind] == 4 ? F32(o)[p] : TO[kind] == 3 ? ((int*)o->data)[p] : TO[kind] == 1 ? ((unsigned char*)o->data)[p] : ((unsigned short*)o->data)[p];
		if (g != want) fail("value", "type conversion %d: element %zu is %g, not %g", kind, p, g, want);
	}
	compared(400000);
}

// ---- files beyond 2^31 bytes: sparse for the readers, a pipe for the writer ----
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>
#include <sys/wait.h>
SC(big_read, 2, F_BIG | F_NOTHREAD | F_NOMSAN | F_NORERUN)
{
	int type = R.pick(BIG_TYPES), how = (int)R.u(3), ch = R.range(1, 3);
	size_t e = esize(type);
	Dim3 d = big_dim(R, e, R.p(20) ? 0x100000000 : 0x80000000);
	int cols = R.range(10000, 60000), rows = (int)((0x80000000 + R.u(60000000)) / e / ch / cols) + 1;
	size_t n = how == 2 ? (size_t)rows * cols * ch * e : (size_t)d.S * d.L * d.B * e;
	const char* il = ILS[R.u(3)];
	uint64_t key = R.next();
	desc("%s of %zu bytes type=%d", how == 0 ? "hmread_with_size" : how == 1 ? "hmread_with_hdr" : "smread", n, type);
	seen("%s", how == 0 ? "hmread_with_size" : how == 1 ? "hmread_with_hdr" : "smread");
	sig(n); sig(how); sig(type);
	std::string p = scratch("big.img"), h = scratch("big.hdr");
	int fd = open(p.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
	NEED(fd >= 0);
	if (ftruncate(fd, n + (R.p(50) ? R.u(5000) : 0)) != 0) { close(fd); unlink(p.c_str()); skip(); }
	// islands of data in a file of holes
	std::vector<std::pair<size_t, size_t> > isle;
	for (int k = 0; k < 40; k++) {
		size_t a = k == 0 ? 0 : big_place(R, k < 20 ? R.u(900) : 2000, n), m = 1 + R.u(5000);
		if (k == 1) a = n - 1;
		a &= ~(size_t)7;
		if (a + m > n) m = n - a;
		std::vector<unsigned char> b(m);
		for (size_t q = 0; q < m; q++) b[q] = big_byte(key, a + q);
		if (pwrite(fd, b.data(), m, a) != (ssize_t)m) { close(fd); unlink(p.c_str()); skip(); }
		isle.push_back(std::make_pair(a, a + m));
	}
	close(fd);
	unsigned char* got;
	if (how == 2) {
		simple_mat m = smread(p.c_str(), rows, cols, type, ch);
		unlink(p.c_str());
		REQ(m != NULL, "smread returned NULL");
		own(m);
		req_sm(m, rows, cols, type, ch, "smread");
		got = U8(m);
	} else {
		if (how == 1) {
			FILE* f = fopen(h.c_str(), "w");
			NEED(f);
			fprintf(f, "ENVI\nsamples = %d\nlines = %d\nbands = %d\nheader offset = 0\ndata type = %d\ninterleave = %s\nbyte order = 0\n", d.S, d.L, d.B, type, il);
			fclose(f);
		}
		hyper_mat m = how == 0 ? hmread_with_size(p.c_str(), d.S, d.L, d.B, type, il) : hmread_with_hdr(p.c_str(), h.c_str());
		unlink(p.c_str()); unlink(h.c_str());
		REQ(m != NULL, "hmread returned NULL");
		own(m);
		req_hm(m, d.S, d.L, d.B, type, il, "hmread");
		got = (unsigned char*)m->data;
	}
	for (size_t k = 0; k < isle.size(); k++)
		for (size_t q = isle[k].first; q < isle[k].second; q++)
			if (got[q] != big_byte(key, q)) fail("value", "byte %zu of the file is read as %d, not %d", q, got[q], big_byte(key, q));
	for (size_t k = 0; k < 300000; k++) {
		size_t q = big_place(R, k, n);
		bool in = false;
		for (size_t i = 0; i < isle.size(); i++) in |= q >= isle[i].first && q < isle[i].second;
		if (!in && got[q]) fail("value", "byte %zu of the file is read as %d, not 0", q, got[q]);
	}
	compared(300000);
}
SC(big_save, 1, F_BIG | F_NOTHREAD | F_NOMSAN | F_NORERUN)
{
	int type = R.pick(BIG_TYPES);
	size_t e = esize(type);
	Dim3 d = big_dim(R, e, R.p(20) ? 0x100000000 : 0x80000000);
	size_t n = (size_t)d.S * d.L * d.B * e;
	uint64_t key = R.next();
	desc("hmsave of %zu bytes type=%d", n, type);
	seen("hmsave"); sig(n); sig(type);
	hyper_mat m = big_hm(R, d, type, ILS[R.u(3)], key);
	std::string p = scratch("pipe"), h = p + ".hdr";
	unlink(p.c_str());
	NEED(mkfifo(p.c_str(), 0600) == 0);
	int pid = fork();
	NEED(pid >= 0);
	if (pid == 0) {
		// reads the stream back: 0 when it is the data, 1 when too short, 2 when too long, 3 when it differs
		int fd = open(p.c_str(), O_RDONLY);
		static unsigned char b[1 << 16];
		size_t at = 0, in = 0;
		for (;;) {
			ssize_t r = read(fd, b + in, sizeof b - in);
			if (r < 0) _exit(4);
			in += r;
			if (r > 0 && in < sizeof b) continue;
			for (size_t q = 0; q < in; q += 8) {
				uint64_t z = big_word(key, (at + q) / 8);
				if (memcmp(b + q, &z, in - q < 8 ? in - q : 8) != 0) _exit(3);
			}
			at += in;
			if (at > n) _exit(2);
			in = 0;
			if (r == 0) break;
		}
		_exit(at == n ? 0 : 1);
	}
	hmsave(p.c_str(), m);
	int st = 0;
	waitpid(pid, &st, 0);
	unlink(p.c_str()); unlink(h.c_str());
	int x = WIFEXITED(st) ? WEXITSTATUS(st) : 4;
	NEED(x != 4);
	REQ(x == 0, "hmsave wrote a stream that %s", x == 1 ? "is too short" : x == 2 ? "is too long" : "differs from the data");
	compared(n / 8);
}
