// The C++ class HyMat: lifecycle, layouts, ranges, files. Linked with GDAL into a worker of its own.
#include <iostream>
#include <fstream>
#include <string>
#include <sstream>
#include "files.h"
#include "big.h"
#include <fcntl.h>
#include <unistd.h>
#include <algorithm>
#include "cxx_include/hypercv_core.hpp"
using namespace hypercv;

static const int FMT[3] = {HYPERCV_BSQ, HYPERCV_BIL, HYPERCV_BIP};      // same order as ILS
static int fi(int format) { return format == HYPERCV_BSQ ? 0 : format == HYPERCV_BIL ? 1 : 2; }
static size_t clim(Rng& R) { return R.p(6) ? (R.u(100) == 0 ? 1200000 : 60000) : 3000; }

// releases the cube at the end of the case
struct Own {
	HyMat m;
	Own() {}
	explicit Own(const HyMat& x) : m(x) {}
	~Own() { if (m.data || m.wavelength) m.release(); }
	Own(const Own&) = delete;
	Own& operator=(const Own&) = delete;
};
static void req_cx(HyMat& m, Dim3 d, int type, int f, const char* what)
{
	REQ(m.samples == d.S && m.lines == d.L && m.bands == d.B, "%s: size is %d %d %d, not %d %d %d", what, m.samples, m.lines, m.bands, d.S, d.L, d.B);
	REQ(m.dataType == type, "%s: data type is %d, not %d", what, m.dataType, type);
	REQ(m.format == FMT[f] && same_il(m.interleave, ILS[f]), "%s: format is %d %.3s, not %s", what, m.format, m.interleave, ILS[f]);
	REQ((size_t)m.elemSize == esize(type), "%s: elemSize is %d", what, m.elemSize);
	REQ((size_t)m.dataSize == (size_t)d.S * d.L * d.B * esize(type), "%s: dataSize is %ld", what, m.dataSize);
	REQ(m.data != NULL && m.wavelength != NULL, "%s: no data or no wavelengths", what);
	REQ(m.empty() == 0, "%s: empty() is %d", what, m.empty());
	compared(8);
}
static void req_empty(HyMat& m, const char* what)
{
	REQ(m.empty() == 1, "%s: empty() is %d", what, m.empty());
	REQ(m.data == NULL && m.dataSize == 0, "%s: an empty mat with data", what);
	compared(2);
}
// what: cells of the cube, element by element; model in the layout "from"
static void req_cells(HyMat& m, const unsigned char* want, int from, const float* wave, const char* what)
{
	int to = fi(m.format);
	size_t e = esize(m.dataType);
	need_init(m.data, m.dataSize, what);
	for (int i = 0; i < m.lines; i++)
		for (int j = 0; j < m.samples; j++)
			for (int k = 0; k < m.bands; k++) {
				size_t x = at(ILS[from], m.samples, m.lines, m.bands, i, j, k), y = at(ILS[to], m.samples, m.lines, m.bands, i, j, k);
				if (memcmp(want + x * e, (char*)m.data + y * e, e) != 0)
					fail("value", "%s: line %d sample %d band %d of %dx%dx%d type %d differs", what, i, j, k, m.samples, m.lines, m.bands, m.dataType);
			}
	compared((uint64_t)m.samples * m.lines * m.bands);
	need_init(m.wavelength, m.bands * sizeof(float), what);
	for (int k = 0; k < m.bands; k++) REQ(memcmp(&m.wavelength[k], &wave[k], 4) == 0, "%s: wavelength %d is %g, not %g", what, k, m.wavelength[k], wave[k]);
	compared(m.bands);
}
static void fill_wave(Rng& R, float* w, int B) { for (int k = 0; k < B; k++) w[k] = R.range(1, 1 << 20) / 64.0f; wave_shape(R, w, B); }
// a filled cube; watched
static void in_cx(Rng& R, Own& o, Dim3 d, int type, int f, bool watched = true)
{
	o.m.create(d.S, d.L, d.B, type, FMT[f]);
	REQ(o.m.data != NULL && o.m.wavelength != NULL, "create gave no data");
	fill_bytes(R, o.m.data, (size_t)d.S * d.L * d.B * esize(type));
	fill_wave(R, o.m.wavelength, d.B);
	if (watched) {
		watch(o.m.data, (size_t)d.S * d.L * d.B * esize(type), "cube");
		watch(o.m.wavelength, d.B * sizeof(float), "wavelengths");
	}
}
// the case ends inside of the lifetime of its watched cubes
static void settle(Own& o) { unwatch(o.m.data); unwatch(o.m.wavelength); }
static unsigned char* snap(const void* p, size_t n) { unsigned char* q = raw<unsigned char>(n ? n : 1); memcpy(q, p, n); return q; }

typedef HyMat (*Fn)(HyMat&);
struct Conv { const char* name; Fn fn; int from, to; };
namespace hypercv { HyMat bil2bsq(HyMat&); HyMat bil2bip(HyMat&); HyMat bsq2bil(HyMat&); HyMat bsq2bip(HyMat&); HyMat bip2bsq(HyMat&); HyMat bip2bil(HyMat&); }
static const Conv CONV[6] = {{"bil2bsq", hypercv::bil2bsq, 1, 0}, {"bil2bip", hypercv::bil2bip, 1, 2}, {"bsq2bil", hypercv::bsq2bil, 0, 1},
	{"bsq2bip", hypercv::bsq2bip, 0, 2}, {"bip2bsq", hypercv::bip2bsq, 2, 0}, {"bip2bil", hypercv::bip2bil, 2, 1}};

static void req_same(HyMat& m, const HyMat& before, const unsigned char* data, const float* wave, const char* what)
{
	if (m.data != before.data || m.wavelength != before.wavelength || m.samples != before.samples || m.lines != before.lines || m.bands != before.bands ||
		m.dataType != before.dataType || m.format != before.format || m.dataSize != before.dataSize || m.elemSize != before.elemSize || memcmp(m.interleave, before.interleave, 3) != 0)
		fail("modified", "%s changed its input", what);
	if (memcmp(m.data, data, m.dataSize) != 0 || memcmp(m.wavelength, wave, m.bands * sizeof(float)) != 0) fail("modified", "%s changed the contents of its input", what);
}

SC(cx_convert, 600, 0)
{
	Dim3 d = dim3(R, clim(R));
	int type = R.pick(CXX_TYPES);
	const Conv& c = CONV[R.u(6)];
	int from = c.from != 1 && R.p(12) ? c.to : c.from;
	desc("C++ %s of a %s cube samples=%d lines=%d bands=%d type=%d", c.name, ILS[from], d.S, d.L, d.B, type);
	sig(d.S); sig(d.L); sig(d.B); sig(type * 100 + from * 10 + (&c - CONV));
	seen("%s/%s", c.name, ILS[from]);
	Own o;
	in_cx(R, o, d, type, from, false);
	HyMat before = o.m;
	unsigned char* data = snap(o.m.data, o.m.dataSize);
	float* wave = (float*)snap(o.m.wavelength, d.B * sizeof(float));
	Own r(c.fn(o.m));
	req_same(o.m, before, data, wave, c.name);
	req_cx(r.m, d, type, c.to, c.name);
	REQ(r.m.data != o.m.data && r.m.wavelength != o.m.wavelength, "%s shares the data of its input", c.name);
	req_cells(r.m, data, from, wave, c.name);
	digest(r.m.data, r.m.dataSize);
}

SC(cx_chain, 500, 0)
{
	Dim3 d = dim3(R, clim(R));
	int type = R.pick(CXX_TYPES), from = (int)R.u(3), n = R.range(1, 7);
	Own o;
	in_cx(R, o, d, type, from, false);
	unsigned char* data = snap(o.m.data, o.m.dataSize);
	float* wave = (float*)snap(o.m.wavelength, d.B * sizeof(float));
	desc("C++ chain %s", ILS[from]);
	sig(d.S); sig(d.L); sig(d.B); sig(type * 100 + from * 10 + n);
	int cur = from;
	for (int s = 0; s < n; s++) {
		if (R.p(60)) {
			int to = (int)R.u(3);
			desc(">%s", ILS[to]);
			seen("convertTo %s/%s", ILS[cur], ILS[to]);
			o.m.convertTo(FMT[to]);
			cur = to;
		} else {
			const Conv* c;
			do c = &CONV[R.u(6)]; while (c->from != cur);
			desc(" %s", c->name);
			HyMat r = c->fn(o.m);
			o.m.release();
			o.m = r;
			cur = c->to;
			seen("%s in a chain", c->name);
		}
		req_cx(o.m, d, type, cur, "chain");
		req_cells(o.m, data, from, wave, "chain");
	}
	desc(" samples=%d lines=%d bands=%d type=%d", d.S, d.L, d.B, type);
	digest(o.m.data, o.m.dataSize);
}

SC(cx_range, 700, 0)
{
	Dim3 d = dim3(R, clim(R));
	int type = R.pick(CXX_TYPES), f = (int)R.u(3);
	int n[3] = {d.L, d.S, d.B}, a[3], b[3];
	for (int k = 0; k < 3; k++) {
		if (R.p(20)) { a[k] = 0; b[k] = n[k]; }
		else { a[k] = R.range(0, n[k] - 1); b[k] = R.range(a[k] + 1, n[k]); }
	}
	desc("C++ range rows %d..%d cols %d..%d bands %d..%d of a %s cube samples=%d lines=%d bands=%d type=%d", a[0], b[0], a[1], b[1], a[2], b[2], ILS[f], d.S, d.L, d.B, type);
	sig(d.S); sig(d.L); sig(d.B); sig(a[0] * 10000LL + a[1] * 100LL + a[2]); sig(type * 10 + f);
	seen("range %s", ILS[f]);
	Own o;
	in_cx(R, o, d, type, f, false);
	HyMat before = o.m;
	unsigned char* data = snap(o.m.data, o.m.dataSize);
	float* wave = (float*)snap(o.m.wavelength, d.B * sizeof(float));
	Own r(o.m.range(a[0], a[1], a[2], b[0], b[1], b[2]));
	req_same(o.m, before, data, wave, "range");
	Dim3 e = {b[1] - a[1], b[0] - a[0], b[2] - a[2]};
	req_cx(r.m, e, type, f, "range");
	REQ(r.m.data != o.m.data, "range shares the data of its input");
	size_t es = esize(type);
	need_init(r.m.data, r.m.dataSize, "range");
	for (int i = 0; i < e.L; i++)
		for (int j = 0; j < e.S; j++)
			for (int k = 0; k < e.B; k++)
				if (memcmp((char*)r.m.data + at(ILS[f], e.S, e.L, e.B, i, j, k) * es, data + at(ILS[f], d.S, d.L, d.B, a[0] + i, a[1] + j, a[2] + k) * es, es) != 0)
					fail("value", "range: line %d sample %d band %d differs", i, j, k);
	compared((uint64_t)e.S * e.L * e.B);
	for (int k = 0; k < e.B; k++) REQ(r.m.wavelength[k] == wave[a[2] + k], "range: wavelength %d is %g, not %g", k, r.m.wavelength[k], wave[a[2] + k]);
	compared(e.B);
	digest(r.m.data, r.m.dataSize);
}

static void req_zeros(HyMat& m, bool data, bool wave, const char* what)
{
	if (data) for (long k = 0; k < m.dataSize; k++) REQ(((char*)m.data)[k] == 0, "%s: byte %ld is not zero", what, k);
	if (wave) for (int k = 0; k < m.bands; k++) REQ(m.wavelength[k] == 0, "%s: wavelength %d is not zero", what, k);
	compared(1 + m.bands);
}
SC(cx_create, 500, 0)
{
	Dim3 d = dim3(R, clim(R));
	int type = R.pick(CXX_TYPES), f = (int)R.u(3), how = (int)R.u(7);
	size_t n = (size_t)d.S * d.L * d.B * esize(type);
	desc("C++ create, form %d, samples=%d lines=%d bands=%d type=%d %s", how, d.S, d.L, d.B, type, ILS[f]);
	sig(d.S); sig(d.L); sig(d.B); sig(type * 100 + f * 10 + how);
	static const char* FORM[7] = {"constructor", "constructor with data", "constructor with data and wavelengths", "create", "create bsq", "create with data", "create from the members"};
	seen("%s", FORM[how]);
	{
		HyMat none;
		req_empty(none, "HyMat()");
		REQ(none.samples == 0 && none.lines == 0 && none.bands == 0 && none.wavelength == NULL, "HyMat() has a size");
		HyMat c = none.copy();
		req_empty(c, "copy of an empty HyMat");
	}
	void* data = NULL;
	float* wave = NULL;
	unsigned char* want = NULL;
	float* wantw = NULL;
	if (how == 1 || how == 2 || how == 5) { data = give(n); fill_bytes(R, data, n); want = snap(data, n); }
	if (how == 2 || (how == 5 && R.p(50))) { wave = (float*)give(d.B * sizeof(float)); fill_wave(R, wave, d.B); wantw = (float*)snap(wave, d.B * sizeof(float)); }
	Own o;
	switch (how) {
	case 0: o.m = HyMat(d.S, d.L, d.B, type, FMT[f]); break;
	case 1: o.m = HyMat(d.S, d.L, d.B, type, FMT[f], data); break;
	case 2: o.m = HyMat(d.S, d.L, d.B, type, FMT[f], data, wave); break;
	case 3: o.m.create(d.S, d.L, d.B, type, FMT[f]); break;
	case 4: f = 0; o.m.create(d.S, d.L, d.B, type); break;
	case 5: if (wave) o.m.create(d.S, d.L, d.B, type, FMT[f], data, wave); else o.m.create(d.S, d.L, d.B, type, FMT[f], data); break;
	case 6: o.m.samples = d.S; o.m.lines = d.L; o.m.bands = d.B; o.m.dataType = type; o.m.format = FMT[f]; o.m.create(); break;
	}
	req_cx(o.m, d, type, f, FORM[how]);
	if (data) { REQ(o.m.data == data, "%s: the given data is not used", FORM[how]); req_bytes(o.m.data, want, n, FORM[how]); }
	if (wave) { REQ(o.m.wavelength == wave, "%s: the given wavelengths are not used", FORM[how]); req_bytes(o.m.wavelength, wantw, d.B * sizeof(float), FORM[how]); }
	req_zeros(o.m, !data, !wave, FORM[how]);
	digest(o.m.data, o.m.dataSize);
	// a copy is its own
	fill_bytes(R, o.m.data, n);
	fill_wave(R, o.m.wavelength, d.B);
	unsigned char* v = snap(o.m.data, n);
	float* w = (float*)snap(o.m.wavelength, d.B * sizeof(float));
	HyMat before = o.m;
	Own c(o.m.copy());
	req_same(o.m, before, v, w, "copy");
	req_cx(c.m, d, type, f, "copy");
	REQ(c.m.data != o.m.data && c.m.wavelength != o.m.wavelength, "copy shares its data");
	req_cells(c.m, v, f, w, "copy");
	memset(c.m.data, 0x5a, n);
	for (int k = 0; k < d.B; k++) c.m.wavelength[k] = -1;
	req_same(o.m, before, v, w, "writing to a copy");
	c.m.release();
	req_empty(c.m, "release");
	REQ(c.m.wavelength == NULL && c.m.samples == 0 && c.m.lines == 0 && c.m.bands == 0, "release keeps a size or the wavelengths");
	req_same(o.m, before, v, w, "releasing a copy");
}

// model of one cube
struct Model { bool live; Dim3 d; int type, f; std::vector<unsigned char> cells; std::vector<float> wave; };
SC(cx_history, 600, 0)
{
	Own o[3];
	Model md[3];
	for (int k = 0; k < 3; k++) md[k].live = false;
	int steps = R.range(3, 14);
	desc("C++ history");
	for (int s = 0; s < steps; s++) {
		int a = (int)R.u(3), b = (int)R.u(3), op = (int)R.u(10);
		HyMat& m = o[a].m;
		Model& q = md[a];
		switch (op) {
		case 0: case 1: case 2: {              // create, again
			Dim3 d = dim3(R, 800);
			int t = R.pick(CXX_TYPES), f = (int)R.u(3);
			size_t n = (size_t)d.S * d.L * d.B * esize(t);
			if (op == 2) {
				void* data = give(n);
				fill_bytes(R, data, n);
				q.cells.assign((unsigned char*)data, (unsigned char*)data + n);
				q.wave.assign(d.B, 0);
				if (R.p(50)) { float* w = (float*)give(d.B * sizeof(float)); fill_wave(R, w, d.B); q.wave.assign(w, w + d.B); m.create(d.S, d.L, d.B, t, FMT[f], data, w); }
				else m.create(d.S, d.L, d.B, t, FMT[f], data);
			} else {
				m.create(d.S, d.L, d.B, t, FMT[f]);
				q.cells.assign(n, 0);
				q.wave.assign(d.B, 0);
			}
			if (q.live) seen("created again");
			q.live = true; q.d = d; q.type = t; q.f = f;
			desc(" %c.create(%d,%d,%d,%d,%s%s)", 'a' + a, d.S, d.L, d.B, t, ILS[f], op == 2 ? ",data" : "");
			break;
		}
		case 3:                                 // copy into another
			if (a == b) break;
			if (o[b].m.data) o[b].m.release();
			o[b].m = m.copy();
			md[b] = q;
			desc(" %c=%c.copy()", 'a' + b, 'a' + a);
			seen("copy of %s", q.live ? "a cube" : "an empty cube");
			break;
		case 4: {                               // CopyData
			if (!q.live) break;
			std::vector<unsigned char> v(q.cells.size());
			for (size_t k = 0; k < v.size(); k++) v[k] = (unsigned char)R.u(256);
			int h = (int)R.u(3);
			if (h == 0) m.CopyData(v.data());
			else if (h == 1) { size_t n = 1 + R.u(v.size()); m.CopyData(v.data(), (long)n); v.resize(n); }
			else { m.CopyData(NULL); v.clear(); }
			memcpy(q.cells.data(), v.data(), v.size());
			desc(" %c.CopyData(%zu)", 'a' + a, v.size());
			seen("CopyData form %d", h);
			break;
		}
		case 5: {
			if (!q.live) break;
			std::vector<float> w(q.d.B);
			fill_wave(R, w.data(), q.d.B);
			int h = (int)R.u(3);
			if (h == 0) m.CopyWaveLength(w.data());
			else if (h == 1) { size_t n = 1 + R.u(w.size()); m.CopyWaveLength(w.data(), (long)n); w.resize(n); }
			else { m.CopyWaveLength(NULL); w.clear(); }
			for (size_t k = 0; k < w.size(); k++) q.wave[k] = w[k];
			desc(" %c.CopyWaveLength(%zu)", 'a' + a, w.size());
			seen("CopyWaveLength form %d", h);
			break;
		}
		case 6:
			m.release();
			desc(" %c.release()", 'a' + a);
			seen("release of %s", q.live ? "a cube" : "an empty cube");
			q.live = false;
			break;
		case 7: case 8: {
			if (!q.live) break;
			int to = (int)R.u(3);
			m.convertTo(FMT[to]);
			std::vector<unsigned char> v(q.cells.size());
			size_t e = esize(q.type);
			for (int i = 0; i < q.d.L; i++) for (int j = 0; j < q.d.S; j++) for (int k = 0; k < q.d.B; k++)
				memcpy(&v[at(ILS[to], q.d.S, q.d.L, q.d.B, i, j, k) * e], &q.cells[at(ILS[q.f], q.d.S, q.d.L, q.d.B, i, j, k) * e], e);
			q.cells = v;
			q.f = to;
			desc(" %c.convertTo(%s)", 'a' + a, ILS[to]);
			seen("convertTo");
			break;
		}
		case 9: {                               // range into itself or another
			if (!q.live) break;
			int x[3] = {q.d.L, q.d.S, q.d.B}, lo[3], hi[3];
			for (int k = 0; k < 3; k++) { lo[k] = R.range(0, x[k] - 1); hi[k] = R.range(lo[k] + 1, x[k]); }
			HyMat r = m.range(lo[0], lo[1], lo[2], hi[0], hi[1], hi[2]);
			Model p;
			p.live = true; p.type = q.type; p.f = q.f;
			p.d = Dim3{hi[1] - lo[1], hi[0] - lo[0], hi[2] - lo[2]};
			size_t e = esize(q.type);
			p.cells.resize((size_t)p.d.S * p.d.L * p.d.B * e);
			for (int i = 0; i < p.d.L; i++) for (int j = 0; j < p.d.S; j++) for (int k = 0; k < p.d.B; k++)
				memcpy(&p.cells[at(ILS[p.f], p.d.S, p.d.L, p.d.B, i, j, k) * e], &q.cells[at(ILS[q.f], q.d.S, q.d.L, q.d.B, lo[0] + i, lo[1] + j, lo[2] + k) * e], e);
			for (int k = 0; k < p.d.B; k++) p.wave.push_back(q.wave[lo[2] + k]);
			if (o[b].m.data) o[b].m.release();
			o[b].m = r;
			md[b] = p;
			desc(" %c=%c.range", 'a' + b, 'a' + a);
			seen("range");
			break;
		}
		}
		sig(op * 10 + a);
		for (int k = 0; k < 3; k++) {
			if (!md[k].live) { req_empty(o[k].m, "history"); continue; }
			req_cx(o[k].m, md[k].d, md[k].type, md[k].f, "history");
			req_bytes(o[k].m.data, md[k].cells.data(), md[k].cells.size(), "history");
			req_bytes(o[k].m.wavelength, md[k].wave.data(), md[k].wave.size() * sizeof(float), "history");
		}
	}
	for (int k = 0; k < 3; k++) if (md[k].live) digest(o[k].m.data, o[k].m.dataSize);
}

// -------------------------------------------------------------------------- files ----
static Str hdr_of(const char* path)
{
	Str p(path);
	size_t s = p.rfind('/') + 1, d = p.rfind('.');
	return (d != Str::npos && d > s ? p.substr(0, d) : p) + ".hdr";
}
static void clean(const char* path)
{
	unlink(path);
	unlink(hdr_of(path).c_str());
	unlink((Str(path) + ".hdr").c_str());
	unlink((Str(path) + ".aux.xml").c_str());
}
SC(cx_save_open, 260, F_FILE | F_NOMSAN)
{
	static const char* NAMES[6] = {"cube.img", "cube", "a.b.c", "cxx.d.ir/cube", "cxx.d.ir/cube.raw", "with space.dat"};
	char dir[600], path[600];
	snprintf(dir, sizeof dir, "%s", scratch("cxx.d.ir"));
	mkdir(dir, 0755);
	snprintf(path, sizeof path, "%s", scratch(R.pick(NAMES)));
	clean(path);
	Str hdr = hdr_of(path);
	int n = R.range(1, 3);
	for (int s = 0; s < n; s++) {
		Dim3 d = file_dim(R);
		if (d.B > 1200) std::swap(d.B, d.S);      // GDAL's time for a file grows with the square of its bands
		if (d.B > 1200) std::swap(d.B, d.L);
		int type = R.pick(CXX_TYPES), f = (int)R.u(3);
		Own o;
		in_cx(R, o, d, type, f, false);
		if (R.p(50)) random_wave(R, o.m.wavelength, d.B);
		desc("C++ save %d samples=%d lines=%d bands=%d type=%d %s;", s, d.S, d.L, d.B, type, ILS[f]);
		sig(d.S); sig(d.L); sig(d.B); sig(type * 10 + f);
		seen("%s type %d", ILS[f], type);
		if (s) seen("save over an older file");
		size_t bytes = o.m.dataSize;
		unsigned char* data = snap(o.m.data, bytes);
		float* wave = (float*)snap(o.m.wavelength, d.B * sizeof(float));
		HyMat before = o.m;
		o.m.save(path);
		req_same(o.m, before, data, wave, "save");
		req_file(path, data, bytes, "save");
		std::map<Str, Str> h;
		REQ(parse_hdr(hdr.c_str(), h), "save: no ENVI header at %s", hdr.c_str());
		REQ(h["samples"] == fmt("%d", d.S) && h["lines"] == fmt("%d", d.L) && h["bands"] == fmt("%d", d.B) && h["data type"] == fmt("%d", type) && h["interleave"] == ILS[f],
			"save: header says %s %s %s %s %s", h["samples"].c_str(), h["lines"].c_str(), h["bands"].c_str(), h["data type"].c_str(), h["interleave"].c_str());
		compared(5);
		{
			Own r;
			int how = (int)R.u(5);
			if (R.p(40)) { in_cx(R, r, dim3(R, 300), R.pick(CXX_TYPES), (int)R.u(3), false); seen("open into a used cube"); }
			if (how > 1 && r.m.data) r.m.release();
			const char* what = "";
			switch (how) {
			case 0: what = "open with header"; r.m.open(path, hdr.c_str()); break;
			case 1: what = "open with size"; r.m.open(path, d.S, d.L, d.B, type, FMT[f]); break;
			case 2: what = "hmread with header"; r.m = hmread(path, hdr.c_str()); break;
			case 3: what = "hmread with size"; r.m = hmread(path, d.S, d.L, d.B, type, FMT[f]); break;
			case 4: what = "C hmread_with_hdr"; break;
			}
			seen("%s", what);
			if (how == 4) {
				hyper_mat c = own(hmread_with_hdr(path, hdr.c_str()));
				REQ(c != NULL, "the C reader returned NULL");
				req_hm(c, d.S, d.L, d.B, type, ILS[f], "C reader of a C++ file");
				req_bytes(c->data, data, bytes, "C reader of a C++ file");
				req_wave(c->wavelength, wave, d.B, "C reader of a C++ file");
			} else {
				req_cx(r.m, d, type, f, what);
				req_bytes(r.m.data, data, bytes, what);
				req_wave(r.m.wavelength, how == 1 || how == 3 ? NULL : wave, d.B, what);
			}
		}
		if (R.p(30)) {                        // a cube of the C interface
			char cp[700], ch[720];
			snprintf(cp, sizeof cp, "%s", scratch("c.img"));
			snprintf(ch, sizeof ch, "%s.hdr", cp);
			hyper_mat c = own(create_hyper_mat_with_data(d.S, d.L, d.B, type, ILS[f], data, wave));
			hmsave(cp, c);
			Own r;
			r.m.open(cp, ch);
			seen("C++ open of a C file");
			req_cx(r.m, d, type, f, "C++ open of a C file");
			req_bytes(r.m.data, data, bytes, "C++ open of a C file");
			req_wave(r.m.wavelength, wave, d.B, "C++ open of a C file");
			unlink(cp);
			unlink(ch);
		}
	}
	std::vector<unsigned char> v;
	get_file(hdr.c_str(), v);
	digest(v.data(), v.size());
	clean(path);
	rmdir(dir);
}

SC(cx_hdr_forms, 600, F_FILE)
{
	Dim3 d = R.p(3) ? Dim3{R.range(1, 2), R.range(1, 2), R.range(900, 1500)} : file_dim(R);
	int type = R.pick(CXX_TYPES), f = (int)R.u(3);
	float* wave = raw<float>(d.B);
	char il[4];
	snprintf(il, sizeof il, "%s", ILS[f]);
	if (R.p(40)) { for (int k = 0; k < 3; k++) if (R.p(70)) il[k] = (char)(il[k] - 32); seen("upper case interleave"); }
	Str t = hdr_text(R, d, type, il, wave);
	if (R.p(20)) {                            // values separated by blanks
		size_t a = t.find("wavelength"), b;
		while (a != Str::npos && t.compare(a, 16, "wavelength units") == 0) a = t.find("wavelength", a + 4);
		if (a != Str::npos && (b = t.find('{', a)) != Str::npos && t.substr(a, b - a).find('\n') == Str::npos) {
			for (size_t k = b; k < t.size() && t[k] != '}'; k++) if (t[k] == ',') t[k] = ' ';
			seen("wavelengths separated by blanks");
		}
	}
	size_t n = (size_t)d.S * d.L * d.B * esize(type), more = R.p(15) ? R.u(50) : 0;
	unsigned char* data = raw<unsigned char>(n + more);
	fill_bytes(R, data, n + more);
	char img[600], hdr[600];
	snprintf(img, sizeof img, "%s", scratch("cf.img"));
	snprintf(hdr, sizeof hdr, "%s", scratch(R.p(50) ? "cf.hdr" : "other"));
	put_file(img, data, n + more);
	put_file(hdr, t);
	sig(d.S); sig(d.L); sig(d.B); sig(type); sig(t.size());
	Str flat = t.substr(0, 350);
	for (size_t k = 0; k < flat.size(); k++) if (flat[k] == '\n') flat[k] = '|';
	desc("C++ header %s", flat.c_str());
	Own o;
	if (R.p(50)) o.m.open(img, hdr); else o.m = hmread(img, hdr);
	req_cx(o.m, d, type, f, "open");
	req_bytes(o.m.data, data, n, "open");
	req_wave(o.m.wavelength, wave, d.B, "open");
	digest(o.m.wavelength, d.B * sizeof(float));
	if (R.p(25)) {                            // missing files, NULL: an empty cube
		char no[600];
		snprintf(no, sizeof no, "%s", scratch("not here"));
		int how = (int)R.u(6);
		switch (how) {
		case 0: o.m.open(no, hdr); break;
		case 1: o.m.open(img, no); break;
		case 2: o.m.open(no, d.S, d.L, d.B, type, FMT[f]); break;
		case 3: o.m.release(); o.m = hmread(no, no); break;
		case 4: o.m.release(); o.m = hmread(NULL, hdr); break;
		case 5: o.m.release(); o.m.open(img, (const char*)NULL); break;
		}
		seen("missing file %d", how);
		req_empty(o.m, "open of a missing file");
	}
	unlink(img);
	unlink(hdr);
}

SC(cx_bad_hdr, 350, F_FILE | F_FORK | F_NOMSAN)
{
	Dim3 d = {R.range(1, 6), R.range(1, 6), R.range(1, 8)};
	int type = R.pick(CXX_TYPES);
	float wave[8];
	Str t = hdr_text(R, d, type, ILS[R.u(3)], wave);
	int how = (int)R.u(10);
	if (how == 0) { t.assign(R.u(3000), 0); for (size_t k = 0; k < t.size(); k++) t[k] = (char)R.u(256); }
	else if (how == 1) t = "";
	else mutate(R, t);
	size_t n = (size_t)d.S * d.L * d.B * esize(type);
	if (R.p(20)) n = R.u(n + 1);
	std::vector<unsigned char> data(n + 1, 7);
	char img[600], hdr[600];
	snprintf(img, sizeof img, "%s", scratch("cbad.img"));
	snprintf(hdr, sizeof hdr, "%s", scratch("cbad.hdr"));
	put_file(img, data.data(), n);
	put_file(hdr, t);
	Str flat = t.substr(0, 350);
	for (size_t k = 0; k < flat.size(); k++) if (flat[k] == '\n') flat[k] = '|';
	desc("C++ malformed header (%zu bytes) %s", t.size(), flat.c_str());
	sig(t.size()); sig(std::hash<Str>()(t));
	std::vector<char> out;
	int st = in_child([&] {
		alloc_cap(64 << 20);
		HyMat m;
		m.open(img, hdr);
		bool ok = m.empty() == 0 && m.samples > 0 && m.lines > 0 && m.bands > 0 && esize(m.dataType) > 0 && (m.format == FMT[0] || m.format == FMT[1] || m.format == FMT[2]) && m.wavelength;
		if (ok) {
			touch(m.wavelength, m.bands * sizeof(float));
			touch(m.data, m.dataSize);
			ok = (size_t)m.dataSize == (size_t)m.samples * m.lines * m.bands * esize(m.dataType) && (size_t)m.dataSize <= n;
			for (long i = 0; ok && i < m.dataSize; i++) ok = ((unsigned char*)m.data)[i] == 7;
		}
		if (!ok) { printf("incomplete cube\n"); fflush(stdout); _exit(3); }
		m.release();
	}, out);
	req_sound(st, out, "C++ malformed header");
	unlink(img);
	unlink(hdr);
}

SC(cx_io_faults, 160, F_FILE | F_FORK | F_NOMSAN)
{
	GDALAllRegister();
	char path[600], hdr[700];
	snprintf(path, sizeof path, "%s", scratch("cfault.img"));
	snprintf(hdr, sizeof hdr, "%s", scratch("cfault.hdr"));
	unlink(path); rmdir(path); unlink(hdr); rmdir(hdr);
	int how = (int)R.u(7), st;
	Dim3 d = R.p(30) ? Dim3{R.range(20, 50), R.range(20, 50), R.range(4, 9)} : Dim3{R.range(1, 9), R.range(1, 9), R.range(1, 9)};
	int type = R.pick(CXX_TYPES), f = (int)R.u(3);
	size_t bytes = (size_t)d.S * d.L * d.B * esize(type), lim = R.u(bytes);
	const char* what = "";
	std::vector<char> out;
	Own o;
	in_cx(R, o, d, type, f, false);
	random_wave(R, o.m.wavelength, d.B);
	if (how == 0) { what = "save to a full device"; if (symlink("/dev/full", path)) _exit(97); }
	if (how == 1) { what = "save with a directory in place of the header"; mkdir(hdr, 0755); }
	if (how == 2) { what = "save into a missing directory"; snprintf(path, sizeof path, "%s", scratch("missing/dir/cube")); }
	if (how == 3) { what = "save over a directory"; mkdir(path, 0755); }
	if (how == 4) what = "save beyond the file size limit";
	if (how == 5) what = "open with header of a short image";
	if (how == 6) what = "open with size of a short image";
	if (how >= 5) { std::vector<unsigned char> v(bytes, 1); put_file(path, v.data(), R.p(40) ? bytes - 1 : lim); }
	if (how == 5) { float* w = raw<float>(d.B); put_file(hdr, hdr_text(R, d, type, ILS[f], w)); }
	desc("C++ %s, cube %dx%dx%d type %d", what, d.S, d.L, d.B, type);
	seen("%s", what);
	sig(how); sig(d.S); sig(d.L); sig(d.B); sig(type);
	st = in_child([&] {
		if (how == 4) file_limit(lim);
		HyMat m;
		if (how < 5) o.m.save(path);
		else if (how == 5) m.open(path, hdr);
		else m.open(path, d.S, d.L, d.B, type, FMT[f]);
	}, out);
	req_rejected(st, out, what);
	unlink(path); rmdir(path); unlink(hdr); rmdir(hdr);
}

// -------------------------------------------------------------------- refused calls ----
struct Bad { const char* name; void (*fn)(Rng& R); };
static int n9(Rng& R) { return R.range(1, 9); }
static Dim3 d3(Rng& R) { return Dim3{n9(R), n9(R), n9(R)}; }
static int nonpos(Rng& R) { static const int B[] = {0, -1, -2, -1000, -2147483647 - 1}; return R.pick(B); }
static int bad_type(Rng& R) { static const int B[] = {0, -1, 6, 7, 8, 9, 10, 11, 16, 100, 2147483647}; return R.pick(B); }
static int bad_format(Rng& R) { int f; do f = R.pick((const int[]){-1, 3, 4, 7, 100, -2147483647}); while (f == FMT[0] || f == FMT[1] || f == FMT[2]); return f; }
static HyMat cx(Rng& R, Dim3 d, int type, int f) { (void)R; return HyMat(d.S, d.L, d.B, type, FMT[f]); }
#define J(name, ...) {name, [](Rng& R) { (void)R; __VA_ARGS__ }}
static const Bad BAD[] = {
	J("HyMat with a size that is not positive", int s[3] = {n9(R), n9(R), n9(R)}; s[R.u(3)] = nonpos(R); if (R.p(50)) HyMat(s[0], s[1], s[2], 1, FMT[0]); else { HyMat m; m.create(s[0], s[1], s[2], R.pick(CXX_TYPES), FMT[R.u(3)]); }),
	J("HyMat of an unknown data type", if (R.p(50)) HyMat(n9(R), n9(R), n9(R), bad_type(R), FMT[0]); else { HyMat m; m.create(n9(R), n9(R), n9(R), bad_type(R), FMT[R.u(3)]); }),
	J("HyMat of an unknown format", if (R.p(50)) HyMat(n9(R), n9(R), n9(R), 1, bad_format(R)); else { HyMat m; m.create(n9(R), n9(R), n9(R), 1, bad_format(R)); }),
	J("HyMat whose size overflows", HyMat(2000000000, R.range(1900000000, 2000000000), R.range(500, 2000000000), R.pick(CXX_TYPES), FMT[R.u(3)]);),
	J("HyMat beyond the memory", alloc_cap(1 << 26); HyMat(R.range(20000, 2000000000), R.range(4000, 70000), R.range(2, 9), R.pick(CXX_TYPES), FMT[R.u(3)]);),
	J("create of an empty HyMat from its members", HyMat m; m.create();),
	J("open with a bad size, data type or format", HyMat m; int s[3] = {n9(R), n9(R), n9(R)}; switch (R.u(3)) { case 0: s[R.u(3)] = nonpos(R); m.open("/proc/self/cmdline", s[0], s[1], s[2], 1, FMT[0]); break; case 1: m.open("/proc/self/cmdline", 1, 1, 1, bad_type(R), FMT[0]); break; case 2: m.open("/proc/self/cmdline", 1, 1, 1, 1, bad_format(R)); }),
	J("convertTo an unknown format", HyMat m = cx(R, d3(R), R.pick(CXX_TYPES), (int)R.u(3)); m.convertTo(bad_format(R));),
	J("convertTo of an empty HyMat", HyMat m; if (R.p(50)) { m = cx(R, d3(R), 1, 0); m.release(); } m.convertTo(FMT[R.range(1, 2)]);),
	J("range that is empty or reversed", Dim3 d = d3(R); HyMat m = cx(R, d, R.pick(CXX_TYPES), (int)R.u(3)); int a[3] = {0, 0, 0}; int b[3] = {d.L, d.S, d.B}; int k = (int)R.u(3); if (R.p(50)) a[k] = b[k]; else { int n = b[k]; a[k] = n; b[k] = R.range(0, n); } m.range(a[0], a[1], a[2], b[0], b[1], b[2]);),
	J("range before the image", Dim3 d = d3(R); HyMat m = cx(R, d, R.pick(CXX_TYPES), (int)R.u(3)); int a[3] = {0, 0, 0}; a[R.u(3)] = -R.range(1, 100); m.range(a[0], a[1], a[2], d.L, d.S, d.B);),
	J("range beyond the image", Dim3 d = d3(R); HyMat m = cx(R, d, R.pick(CXX_TYPES), (int)R.u(3)); int b[3] = {d.L, d.S, d.B}; b[R.u(3)] += R.p(50) ? 1 : R.range(1, 1000); m.range(0, 0, 0, b[0], b[1], b[2]);),
	J("range of an empty HyMat", HyMat m; if (R.p(50)) { m = cx(R, d3(R), 1, 0); m.release(); } m.range(0, 0, 0, 1, 1, 1);),
	J("C++ conversion of another format", const Conv& c = CONV[R.u(6)]; HyMat m = cx(R, d3(R), R.pick(CXX_TYPES), 3 - c.from - c.to); c.fn(m);),
	J("C++ conversion from bil of the target format", const Conv& c = CONV[R.u(2)]; HyMat m = cx(R, d3(R), R.pick(CXX_TYPES), c.to); c.fn(m);),
	J("C++ conversion of an empty HyMat", const Conv& c = CONV[R.u(6)]; HyMat m; m.format = FMT[c.from]; c.fn(m);),
};
static const int NBAD = sizeof BAD / sizeof BAD[0];
SC(cx_reject, 300, F_FORK | F_FILE)
{
	const Bad& b = BAD[R.u(NBAD)];
	Rng inner(R.next());
	desc("%s", b.name);
	sig(&b - BAD);
	sig(inner.s);
	seen("%s", b.name);
	std::vector<char> out;
	int st = in_child([&] { b.fn(inner); }, out);
	req_rejected(st, out, b.name);
}

// saving an empty cube, or to no path, does nothing
SC(cx_trivia, 60, F_FILE | F_NOMSAN)
{
	const char* path = scratch("never.img");
	unlink(path);
	HyMat e;
	int how = (int)R.u(3);
	desc("C++ save without effect, form %d", how);
	sig(how);
	seen("form %d", how);
	if (how == 0) e.save(path);
	else if (how == 1) { Own o; in_cx(R, o, d3(R), R.pick(CXX_TYPES), (int)R.u(3), false); o.m.save(NULL); }
	else { e = cx(R, d3(R), R.pick(CXX_TYPES), (int)R.u(3)); e.release(); e.save(path); }
	REQ(access(path, F_OK) != 0, "a file was written");
	compared();
}

SC(big_hymat, 1, F_BIG | F_NOTHREAD | F_NOMSAN | F_NORERUN)
{
	int type = R.p(50) ? 1 : R.p(50) ? 5 : 12, f = (int)R.u(3);
	size_t e = esize(type);
	int S = R.range(300, 900), L = R.range(300, 900), B = (int)(((size_t)0x80000000 + R.u(100000000)) / ((size_t)S * L * e)) + 1;
	size_t n = (size_t)S * L * B * e;
	desc("HyMat samples=%d lines=%d bands=%d type=%d of %zu bytes", S, L, B, type, n);
	seen("%s", n / e > 0x7fffffff ? "more than 2^31 elements" : "more than 2^31 bytes");
	sig(n);
	Own o;
	o.m.create(S, L, B, type, FMT[f]);
	req_cx(o.m, Dim3{S, L, B}, type, f, "create");
	std::vector<std::pair<size_t, unsigned char> > mk;
	for (int k = 0; k < 60000; k++) {
		size_t p = k < 64 ? n - 1 - k : k % 2 ? R.u(n) : 0x7fffff00 + R.u(n - 0x7fffff00);
		if (((unsigned char*)o.m.data)[p] == 0) { ((unsigned char*)o.m.data)[p] = (unsigned char)R.range(1, 255); mk.push_back(std::make_pair(p, ((unsigned char*)o.m.data)[p])); }
	}
	Own c(o.m.copy());
	req_cx(c.m, Dim3{S, L, B}, type, f, "copy");
	REQ(c.m.data != o.m.data && memcmp(c.m.data, o.m.data, n) == 0, "copy differs");
	memset(c.m.data, 0, n);
	c.m.CopyData(o.m.data);
	for (size_t k = 0; k < mk.size(); k++) REQ(((unsigned char*)c.m.data)[mk[k].first] == mk[k].second, "CopyData: byte %zu differs", mk[k].first);
	compared(mk.size() + n / 4096);
	o.m.release();
	req_empty(o.m, "release");
}

static void big_cx(Rng& R, Own& o, Dim3 d, int type, int f, uint64_t key)
{
	o.m.create(d.S, d.L, d.B, type, FMT[f]);
	REQ(o.m.data != NULL && o.m.wavelength != NULL, "create gave no data");
	big_fill(key, o.m.data, (size_t)d.S * d.L * d.B * esize(type));
	for (int k = 0; k < d.B; k++) o.m.wavelength[k] = (float)(k % 1000) + 0.25f;
}
static void req_wave(HyMat& m, int from, const char* what)
{
	for (int k = 0; k < m.bands; k++) REQ(m.wavelength[k] == (float)((k + from) % 1000) + 0.25f, "%s: wavelength %d is %g", what, k, m.wavelength[k]);
}
SC(big_cx_convert, 3, F_BIG | F_NOTHREAD | F_NOMSAN | F_NORERUN)
{
	int type = R.pick(BIG_LIST), which = (int)R.u(6);
	bool self = R.p(40);
	const Conv& c = CONV[which];
	Dim3 d = big_dim(R, esize(type), type == 5 && R.p(30) ? 0x100000000 : 0x80000000);
	uint64_t key = R.next();
	size_t n = (size_t)d.S * d.L * d.B;
	desc("C++ %s%s of samples=%d lines=%d bands=%d type=%d", c.name, self ? " with convertTo" : "", d.S, d.L, d.B, type);
	seen("%s%s", c.name, self ? " with convertTo" : ""); seen("%s", n > 0x7fffffff ? "more than 2^31 elements" : n * esize(type) > 0xffffffff ? "more than 2^32 bytes" : "more than 2^31 bytes");
	sig(n); sig(which * 2 + self);
	Own o;
	big_cx(R, o, d, type, c.from, key);
	if (self) {
		o.m.convertTo(FMT[c.to]);
		req_cx(o.m, d, type, c.to, "convertTo");
		req_cut(R, o.m.data, d, ILS[c.to], key, d, ILS[c.from], 0, 0, 0, type, "convertTo");
		req_wave(o.m, 0, "convertTo");
	} else {
		Own r(c.fn(o.m));
		req_cx(r.m, d, type, c.to, c.name);
		req_cut(R, r.m.data, d, ILS[c.to], key, d, ILS[c.from], 0, 0, 0, type, c.name);
		req_wave(r.m, 0, c.name);
	}
}
SC(big_cx_range, 2, F_BIG | F_NOTHREAD | F_NOMSAN | F_NORERUN)
{
	int type = R.pick(BIG_LIST), f = (int)R.u(3);
	Dim3 d = big_dim(R, esize(type), R.p(30) ? 0x100000000 : 0x80000000);
	uint64_t key = R.next();
	bool large = (size_t)d.S * d.L * d.B * esize(type) < 0xf0000000 && R.p(25);
	Dim3 b = {d.S, d.L, d.B}, a = {large ? 0 : std::max(0, d.S - R.range(1, 500)), large ? 0 : std::max(0, d.L - R.range(1, 500)), large ? 0 : std::max(0, d.B - R.range(1, 200))};
	if (!large && R.p(30)) { a = Dim3{d.S / 2, d.L / 2, d.B / 2}; b = Dim3{std::min(d.S, a.S + 300), std::min(d.L, a.L + 300), std::min(d.B, a.B + 100)}; }
	Dim3 g = {b.S - a.S, b.L - a.L, b.B - a.B};
	desc("C++ range of samples=%d lines=%d bands=%d %s type=%d from %d,%d,%d", d.S, d.L, d.B, ILS[f], type, a.L, a.S, a.B);
	seen("C++ range %s%s", ILS[f], large ? " beyond 2^31 bytes" : ""); sig(a.S); sig(a.L); sig(a.B);
	Own o;
	big_cx(R, o, d, type, f, key);
	Own r(o.m.range(a.L, a.S, a.B, b.L, b.S, b.B));
	req_cx(r.m, g, type, f, "range");
	req_cut(R, r.m.data, g, ILS[f], key, d, ILS[f], a.L, a.S, a.B, type, "range");
	req_wave(r.m, a.B, "range");
}
SC(big_cx_open, 1, F_BIG | F_NOTHREAD | F_NOMSAN | F_NORERUN)
{
	int type = R.pick(BIG_LIST), f = (int)R.u(3);
	size_t e = esize(type);
	Dim3 d = big_dim(R, e, R.p(20) ? 0x100000000 : 0x80000000);
	size_t n = (size_t)d.S * d.L * d.B * e;
	uint64_t key = R.next();
	desc("C++ open of %zu bytes type=%d", n, type);
	seen("C++ open"); sig(n);
	std::string p = scratch("bigx.img");
	int fd = open(p.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
	NEED(fd >= 0);
	if (ftruncate(fd, n) != 0) { close(fd); unlink(p.c_str()); skip(); }
	std::vector<size_t> pos;
	for (int k = 0; k < 300; k++) {
		size_t q = k < 100 ? n - 1 - k : big_place(R, R.p(50) ? R.u(900) : 2000, n);
		unsigned char v = big_byte(key, q) | 1;
		if (pwrite(fd, &v, 1, q) != 1) { close(fd); unlink(p.c_str()); skip(); }
		pos.push_back(q);
	}
	close(fd);
	Own o;
	if (R.p(50)) o.m.open(p.c_str(), d.S, d.L, d.B, type, FMT[f]);
	else o.m = hmread(p.c_str(), d.S, d.L, d.B, type, FMT[f]);
	unlink(p.c_str());
	req_cx(o.m, d, type, f, "open");
	for (size_t k = 0; k < pos.size(); k++) REQ(((unsigned char*)o.m.data)[pos[k]] == (big_byte(key, pos[k]) | 1), "open: byte %zu of the file", pos[k]);
	std::sort(pos.begin(), pos.end());
	for (size_t k = 0; k < 300000; k++) {
		size_t q = big_place(R, k, n);
		if (!std::binary_search(pos.begin(), pos.end(), q)) REQ(((unsigned char*)o.m.data)[q] == 0, "open: byte %zu of the file is read as %d, not 0", q, ((unsigned char*)o.m.data)[q]);
	}
	compared(300000);
}
