// Hyper spectral cubes, simple mats: layout, lifecycle, copies, bands, parts.
#include "h.h"

typedef hyper_mat (*ConvFn)(hyper_mat);
struct Conv { const char* name; ConvFn fn; int from, to; };
static const Conv CONV[6] = {
	{"bil2bsq", bil2bsq, 1, 0}, {"bil2bip", bil2bip, 1, 2}, {"bsq2bil", bsq2bil, 0, 1},
	{"bsq2bip", bsq2bip, 0, 2}, {"bip2bsq", bip2bsq, 2, 0}, {"bip2bil", bip2bil, 2, 1}};
typedef void (*InplFn)(hyper_mat);
static const InplFn INPL[3] = {convert2bsq, convert2bil, convert2bip};

static size_t lim(Rng& R) { int k = (int)R.u(40); return k == 0 ? (R.u(50) == 0 ? 1200000 : 280000) : k < 6 ? 60000 : 4000; }

static void req_cube(hyper_mat m, const void* data, const char* from_il, const char* il, Dim3 d, int type, const float* wave, const char* what)
{
	req_hm(m, d.S, d.L, d.B, type, il, what);
	size_t e = esize(type);
	const char* a = (const char*)data;
	const char* b = (const char*)m->data;
	for (int i = 0; i < d.L; i++)
		for (int j = 0; j < d.S; j++)
			for (int k = 0; k < d.B; k++) {
				size_t x = at(from_il, d.S, d.L, d.B, i, j, k), y = at(il, d.S, d.L, d.B, i, j, k);
				if (memcmp(a + x * e, b + y * e, e) != 0)
					fail("value", "%s: line %d sample %d band %d of %dx%dx%d type %d differs", what, i, j, k, d.S, d.L, d.B, type);
			}
	compared((uint64_t)d.S * d.L * d.B);
	REQ(m->wavelength != NULL, "%s: result has no wavelengths", what);
	if (memcmp(m->wavelength, wave, d.B * sizeof(float)) != 0) fail("value", "%s: wavelengths differ", what);
	compared(d.B);
}

SC(il_convert, 700, 0)
{
	Dim3 d = dim3(R, lim(R));
	int type = R.pick(ALL_TYPES);
	const Conv& c = CONV[R.u(6)];
	int from = R.p(88) ? c.from : c.to;         // a cube in the target layout is copied
	desc("%s of a %s cube samples=%d lines=%d bands=%d type=%d", c.name, ILS[from], d.S, d.L, d.B, type);
	sig(d.S); sig(d.L); sig(d.B); sig(type * 100 + from * 10 + (&c - CONV));
	seen("%s/%s", c.name, ILS[from]);
	hyper_mat m = in_hm(R, d, type, ILS[from]);
	hyper_mat r = own(c.fn(m));
	REQ(r != m && (from == c.to ? 1 : 1), "%s returned its input", c.name);
	req_cube(r, m->data, ILS[from], ILS[c.to], d, type, m->wavelength, c.name);
}

SC(il_inplace, 500, 0)
{
	Dim3 d = dim3(R, lim(R));
	int type = R.pick(ALL_TYPES), from = (int)R.u(3), n = R.range(1, 6), cur = from;
	hyper_mat m = in_hm(R, d, type, ILS[from], false);
	size_t bytes = (size_t)d.S * d.L * d.B * esize(type);
	char* orig = raw<char>(bytes);
	memcpy(orig, m->data, bytes);
	float* wave = raw<float>(d.B);
	memcpy(wave, m->wavelength, d.B * sizeof(float));
	desc("in place chain %s", ILS[from]);
	for (int s = 0; s < n; s++) {
		int to = (int)R.u(3);
		desc(">%s", ILS[to]);
		INPL[to](m);
		seen("convert2%s/%s", ILS[to], ILS[cur]);
		cur = to;
		req_cube(m, orig, ILS[from], ILS[to], d, type, wave, "in place conversion");
	}
	desc(" samples=%d lines=%d bands=%d type=%d", d.S, d.L, d.B, type);
	sig(d.S); sig(d.L); sig(d.B); sig(type * 1000 + from * 100 + n);
}

SC(il_roundtrip, 300, 0)
{
	Dim3 d = dim3(R, lim(R));
	int type = R.pick(ALL_TYPES), from = (int)R.u(3), n = R.range(2, 6), cur = from;
	hyper_mat m = in_hm(R, d, type, ILS[from]);
	hyper_mat x = m;
	desc("chain %s", ILS[from]);
	for (int s = 0; s < n; s++) {
		const Conv* c;
		do c = &CONV[R.u(6)]; while (c->from != cur);
		if (s == n - 1 && cur != from) for (int k = 0; k < 6; k++) if (CONV[k].from == cur && CONV[k].to == from) c = &CONV[k];
		x = own(c->fn(x));
		cur = c->to;
		desc(">%s", ILS[cur]);
		req_cube(x, m->data, ILS[from], ILS[cur], d, type, m->wavelength, "conversion chain");
	}
	if (cur == from) { req_bytes(x->data, m->data, (size_t)d.S * d.L * d.B * esize(type), "round trip"); seen("round trips of %d steps", n); }
	desc(" samples=%d lines=%d bands=%d type=%d", d.S, d.L, d.B, type);
	sig(d.S); sig(d.L); sig(d.B); sig(type * 1000 + from * 100 + n);
}

SC(hm_range, 700, 0)
{
	Dim3 d = dim3(R, lim(R));
	int type = R.pick(ALL_TYPES), il = (int)R.u(3);
	hyper_mat m = in_hm(R, d, type, ILS[il]);
	int a[3], b[3], n[3] = {d.L, d.S, d.B};
	for (int q = 0; q < 3; q++) {
		int mode = (int)R.u(5);
		if (mode == 0) { a[q] = 0; b[q] = n[q]; }
		else if (mode == 1) { a[q] = R.range(0, n[q] - 1); b[q] = a[q] + 1; }
		else if (mode == 2) { b[q] = n[q]; a[q] = R.range(0, n[q] - 1); }
		else { a[q] = R.range(0, n[q] - 1); b[q] = R.range(a[q] + 1, n[q]); }
		if (q == 0 && a[q] == 0 && b[q] == n[q]) seen("all lines");
	}
	desc("range rows %d..%d cols %d..%d bands %d..%d of %s samples=%d lines=%d bands=%d type=%d", a[0], b[0], a[1], b[1], a[2], b[2], ILS[il], d.S, d.L, d.B, type);
	for (int q = 0; q < 3; q++) { sig(a[q]); sig(b[q]); sig(n[q]); }
	sig(type * 10 + il);
	seen("%s", ILS[il]);
	seen("element size %zu", esize(type));
	hyper_mat r = own(hyper_mat_get_range(m, a[0], a[1], a[2], b[0], b[1], b[2]));
	int L = b[0] - a[0], S = b[1] - a[1], B = b[2] - a[2];
	req_hm(r, S, L, B, type, ILS[il], "range");
	size_t e = esize(type);
	for (int i = 0; i < L; i++)
		for (int j = 0; j < S; j++)
			for (int k = 0; k < B; k++)
				if (memcmp((char*)m->data + at(ILS[il], d.S, d.L, d.B, i + a[0], j + a[1], k + a[2]) * e,
						(char*)r->data + at(ILS[il], S, L, B, i, j, k) * e, e) != 0)
					fail("value", "range: line %d sample %d band %d differs", i, j, k);
	compared((uint64_t)L * S * B);
	REQ(r->wavelength != NULL, "range: no wavelengths");
	for (int k = 0; k < B; k++) REQ(r->wavelength[k] == m->wavelength[k + a[2]], "range: wavelength of band %d is %g, not %g", k, r->wavelength[k], m->wavelength[k + a[2]]);
	compared(B);
}

// ---- lifecycle ----------------------------------------------------------------
SC(hm_create, 500, 0)
{
	Dim3 d = dim3(R, lim(R));
	int type = R.pick(ALL_TYPES), il = (int)R.u(3);
	bool wd = R.p(50), ww = R.p(50), plain = R.p(30);
	if (plain) wd = ww = false;
	size_t bytes = (size_t)d.S * d.L * d.B * esize(type);
	char* data = NULL;
	float* wave = NULL;
	if (wd) { data = raw<char>(bytes); fill_bytes(R, data, bytes); watch(data, bytes, "data"); }
	if (ww) { wave = raw<float>(d.B); for (int k = 0; k < d.B; k++) wave[k] = (float)R.range(1, 9999) / 8; wave_shape(R, wave, d.B); watch(wave, d.B * sizeof(float), "wavelengths"); }
	char ilb[3] = {ILS[il][0], ILS[il][1], ILS[il][2]};
	desc("create samples=%d lines=%d bands=%d type=%d %s data=%d wavelengths=%d", d.S, d.L, d.B, type, ILS[il], wd, ww);
	sig(d.S); sig(d.L); sig(d.B); sig(type * 100 + il * 10 + wd * 2 + ww);
	seen("data %d wavelengths %d", wd, ww);
	seen("type %d", type);
	hyper_mat m = own(plain ? create_hyper_mat(d.S, d.L, d.B, type, ilb) : create_hyper_mat_with_data(d.S, d.L, d.B, type, ilb, data, wave));
	req_hm(m, d.S, d.L, d.B, type, ILS[il], "create");
	REQ(m->wavelength != NULL, "create: no wavelengths");
	REQ(hyper_mat_empty(m) == 0, "a created cube is empty");
	REQ(m->data != data && (void*)m->wavelength != (void*)wave, "create: the cube shares the memory of its caller");
	if (wd) req_bytes(m->data, data, bytes, "data of a created cube");
	else { const char* p = (const char*)m->data; for (size_t i = 0; i < bytes; i++) if (p[i]) fail("value", "a created cube is not zero at byte %zu of %zu", i, bytes); compared(bytes); }
	if (ww) req_bytes(m->wavelength, wave, d.B * sizeof(float), "wavelengths of a created cube");
	else { for (int k = 0; k < d.B; k++) REQ(m->wavelength[k] == 0, "wavelength %d of a created cube is not zero", k); compared(d.B); }
	// every element is writable and holds what was written
	uint64_t s = R.next();
	Rng w(s);
	fill_bytes(w, m->data, bytes);
	for (int k = 0; k < d.B; k++) m->wavelength[k] = (float)(k + 1);
	char* chk = raw<char>(bytes);
	Rng w2(s);
	fill_bytes(w2, chk, bytes);
	req_bytes(m->data, chk, bytes, "rewritten data");
	for (int k = 0; k < d.B; k++) REQ(m->wavelength[k] == (float)(k + 1), "rewritten wavelength %d", k);
	REQ(m->samples == d.S && m->lines == d.L && m->bands == d.B && m->data_type == type && same_il(m->interleave, ILS[il]), "writing the data changed the cube");
}

SC(hm_copy, 400, 0)
{
	Dim3 d = dim3(R, lim(R));
	int type = R.pick(ALL_TYPES), il = (int)R.u(3), how = (int)R.u(3);
	hyper_mat m = in_hm(R, d, type, ILS[il]);
	size_t bytes = (size_t)d.S * d.L * d.B * esize(type);
	desc("copy %d samples=%d lines=%d bands=%d type=%d %s", how, d.S, d.L, d.B, type, ILS[il]);
	sig(d.S); sig(d.L); sig(d.B); sig(type * 100 + il * 10 + how);
	seen("copy %s", how == 0 ? "copy" : how == 1 ? "copy_to" : "copy_wavelength");
	hyper_mat r;
	if (how == 0) {
		r = own(hyper_mat_copy(m));
		REQ(r != m, "hyper_mat_copy returned its input");
	} else if (how == 1) {
		r = out_hm(R, d, type, ILS[R.u(3)]);
		hyper_mat_copy_to(m, r);
	} else {
		int t2 = R.pick(ALL_TYPES);
		Dim3 d2 = {R.range(1, 5), R.range(1, 5), d.B};
		r = in_hm(R, d2, t2, ILS[R.u(3)]);
		unwatch(r->wavelength);
		hyper_mat_copy_wavelength(m, r);
		req_bytes(r->wavelength, m->wavelength, d.B * sizeof(float), "copied wavelengths");
		return;
	}
	req_hm(r, d.S, d.L, d.B, type, ILS[il], "copy");
	req_bytes(r->data, m->data, bytes, "copy");
	req_bytes(r->wavelength, m->wavelength, d.B * sizeof(float), "copied wavelengths");
	// independent of the source, which the watch keeps an eye on
	REQ(r->data != m->data && r->wavelength != m->wavelength, "the copy shares the memory of its source");
	memset(r->data, 0xA5, bytes);
	memset(r->wavelength, 0x5A, d.B * sizeof(float));
}

// A random history over a few live cubes against a model: every cube always holds what the
// history wrote into it, whatever happens to the others.
struct ModelH { hyper_mat m; Dim3 d; int type, il; char* data; float* wave; };
static void model_new(ModelH& s, hyper_mat m, Dim3 d, int type, int il, const void* data, const float* wave)
{
	size_t n = (size_t)d.S * d.L * d.B * esize(type);
	s.m = m; s.d = d; s.type = type; s.il = il;
	s.data = raw<char>(n);
	s.wave = raw<float>(d.B);
	if (data) memcpy(s.data, data, n); else memset(s.data, 0, n);
	if (wave) memcpy(s.wave, wave, d.B * sizeof(float)); else memset(s.wave, 0, d.B * sizeof(float));
}
static void model_relayout(ModelH& s, int to)
{
	size_t e = esize(s.type), n = (size_t)s.d.S * s.d.L * s.d.B * e;
	char* q = raw<char>(n);
	for (int i = 0; i < s.d.L; i++)
		for (int j = 0; j < s.d.S; j++)
			for (int k = 0; k < s.d.B; k++)
				memcpy(q + at(ILS[to], s.d.S, s.d.L, s.d.B, i, j, k) * e, s.data + at(ILS[s.il], s.d.S, s.d.L, s.d.B, i, j, k) * e, e);
	s.data = q;
	s.il = to;
}
SC(hm_history, 250, 0)
{
	ModelH a[5];
	int n = 0, steps = R.range(5, 30);
	desc("history of %d steps:", steps);
	for (int s = 0; s < steps; s++) {
		int op = n == 0 ? 0 : (int)R.u(9);
		int x = n ? (int)R.u(n) : 0;
		if (n == 5 && (op == 0 || op == 1 || op == 2 || op == 3)) op = 4;
		const char* name = "";
		switch (op) {
		case 0: {
			Dim3 d = dim3(R, 600);
			int type = R.pick(ALL_TYPES), il = (int)R.u(3);
			model_new(a[n], own(create_hyper_mat(d.S, d.L, d.B, type, ILS[il])), d, type, il, NULL, NULL);
			n++; name = "create"; break; }
		case 1: {
			hyper_mat c = own(hyper_mat_copy(a[x].m));
			REQ(c != NULL, "hyper_mat_copy returned NULL");
			model_new(a[n], c, a[x].d, a[x].type, a[x].il, a[x].data, a[x].wave);
			n++; name = "copy"; break; }
		case 2: {
			const Conv* c;
			do c = &CONV[R.u(6)]; while (c->from != a[x].il);
			hyper_mat q = own(c->fn(a[x].m));
			REQ(q != NULL, "%s returned NULL", c->name);
			model_new(a[n], q, a[x].d, a[x].type, a[x].il, a[x].data, a[x].wave);
			model_relayout(a[n], c->to);
			n++; name = c->name; break; }
		case 3: {
			ModelH& o = a[x];
			int p[3], q[3], m[3] = {o.d.L, o.d.S, o.d.B};
			for (int t = 0; t < 3; t++) { p[t] = R.range(0, m[t] - 1); q[t] = R.range(p[t] + 1, m[t]); }
			hyper_mat g = own(hyper_mat_get_range(o.m, p[0], p[1], p[2], q[0], q[1], q[2]));
			REQ(g != NULL, "range returned NULL");
			Dim3 d = {q[1] - p[1], q[0] - p[0], q[2] - p[2]};
			size_t e = esize(o.type);
			model_new(a[n], g, d, o.type, o.il, NULL, o.wave + p[2]);
			for (int i = 0; i < d.L; i++) for (int j = 0; j < d.S; j++) for (int k = 0; k < d.B; k++)
				memcpy(a[n].data + at(ILS[o.il], d.S, d.L, d.B, i, j, k) * e, o.data + at(ILS[o.il], o.d.S, o.d.L, o.d.B, i + p[0], j + p[1], k + p[2]) * e, e);
			n++; name = "range"; break; }
		case 4: {
			disown(a[x].m);
			delete_hyper_mat(a[x].m);
			a[x] = a[n - 1];
			n--; name = "delete"; break; }
		case 5: {
			int to = (int)R.u(3);
			INPL[to](a[x].m);
			model_relayout(a[x], to);
			name = "convert"; break; }
		case 6: {
			size_t bytes = (size_t)a[x].d.S * a[x].d.L * a[x].d.B * esize(a[x].type), p = R.u(bytes), q = p + 1 + R.u(bytes - p);
			fill_bytes(R, a[x].data + p, q - p);
			memcpy((char*)a[x].m->data + p, a[x].data + p, q - p);
			int b = (int)R.u(a[x].d.B);
			a[x].wave[b] = a[x].m->wavelength[b] = (float)R.range(-500, 5000) / 4;
			name = "write"; break; }
		case 7: {
			for (int y = 0; y < n; y++)
				if (y != x && a[y].d.S == a[x].d.S && a[y].d.L == a[x].d.L && a[y].d.B == a[x].d.B && a[y].type == a[x].type) {
					hyper_mat_copy_to(a[x].m, a[y].m);
					hyper_mat keep = a[y].m;
					model_new(a[y], keep, a[x].d, a[x].type, a[x].il, a[x].data, a[x].wave);
					name = "copy_to";
					break;
				}
			break; }
		default: {
			ModelH& o = a[x];
			for (int y = 0; y < n; y++) {
				size_t es = esize(o.type), ps = (size_t)a[y].d.S * a[y].d.L * a[y].d.B, ms = (size_t)o.d.S * o.d.L * o.d.B;
				if (y != x && a[y].type == o.type && ps <= ms) {
					int at0 = (int)R.u(ms - ps + 1);
					hyper_mat_splicing(o.m, a[y].m, at0);
					memcpy(o.data + at0 * es, a[y].data, ps * es);
					name = "splice";
					break;
				}
			}
			break; }
		}
		seen("step %s", name[0] ? name : "none");
		if (s < 12) desc(" %s", name);
		for (int y = 0; y < n; y++) {
			ModelH& o = a[y];
			req_hm(o.m, o.d.S, o.d.L, o.d.B, o.type, ILS[o.il], "cube of a history");
			req_bytes(o.m->data, o.data, (size_t)o.d.S * o.d.L * o.d.B * esize(o.type), "cube of a history");
			req_bytes(o.m->wavelength, o.wave, o.d.B * sizeof(float), "wavelengths of a history");
		}
	}
	sig(R.next());
}

SC(hm_trivia, 60, 0)
{
	// NULL is an empty cube, deleting NULL is nothing
	REQ(hyper_mat_empty(NULL) == 1, "NULL is not an empty cube");
	delete_hyper_mat(NULL);
	delete_simple_mat(NULL);
	delete_S_2D(NULL);
	REQ(hyper_mat_copy(NULL) == NULL, "the copy of no cube is a cube");
	Dim3 d = dim3(R, 200);
	hyper_mat m = in_hm(R, d, R.pick(ALL_TYPES), ILS[R.u(3)]);
	REQ(hyper_mat_empty(m) == 0, "a cube is empty");
	desc("empty, delete of NULL; samples=%d lines=%d bands=%d", d.S, d.L, d.B);
	sig(d.S); sig(d.L); sig(d.B);
	// cmpstr compares the interleaves, which end after three bytes
	for (int x = 0; x < 3; x++)
		for (int y = 0; y < 3; y++) {
			char* p = raw<char>(3);
			memcpy(p, ILS[x], 3);
			char lit[4] = {ILS[y][0], ILS[y][1], ILS[y][2], 0};
			REQ(cmpstr(p, lit) == (x == y), "cmpstr(%s,%s) is %d", ILS[x], ILS[y], cmpstr(p, lit));
			compared();
		}
}

// ---- simple mats ----------------------------------------------------------------
SC(sm_create, 500, 0)
{
	Dim2 d = dim2(R, lim(R));
	int type = R.pick(ALL_TYPES), ch = R.p(60) ? R.range(1, 4) : R.range(1, 9);
	if ((size_t)d.r * d.c * ch > 400000) ch = 1;
	bool wd = R.p(40);
	size_t bytes = (size_t)d.r * d.c * ch * esize(type);
	desc("create rows=%d cols=%d type=%d channels=%d data=%d", d.r, d.c, type, ch, wd);
	sig(d.r); sig(d.c); sig(type * 20 + ch * 2 + wd);
	seen("with data %d", wd);
	seen("type %d", type);
	simple_mat m;
	if (wd) {
		char* data = (char*)give(bytes);     // the mat takes it over, deleting the mat frees it
		fill_bytes(R, data, bytes);
		m = create_simple_mat_with_data(d.r, d.c, type, ch, data);
		req_sm(m, d.r, d.c, type, ch, "create");
		REQ(m->data == data, "the mat does not use the data of its caller");
	} else {
		m = create_simple_mat(d.r, d.c, type, ch);
		guard_sm(m);
		req_sm(m, d.r, d.c, type, ch, "create");
		const char* p = (const char*)m->data;
		for (size_t i = 0; i < bytes; i++) if (p[i]) fail("value", "a created mat is not zero at byte %zu of %zu", i, bytes);
		compared(bytes);
	}
	own(m);
	uint64_t s = R.next();
	Rng w(s);
	fill_bytes(w, m->data, bytes);
	char* chk = raw<char>(bytes);
	Rng w2(s);
	fill_bytes(w2, chk, bytes);
	req_bytes(m->data, chk, bytes, "rewritten data");
	req_sm(m, d.r, d.c, type, ch, "rewritten mat");
}

SC(sm_copy, 300, 0)
{
	Dim2 d = dim2(R, lim(R));
	int type = R.pick(ALL_TYPES), ch = R.range(1, 5);
	simple_mat m = in_sm(R, d, type, ch);
	size_t bytes = (size_t)d.r * d.c * ch * esize(type);
	desc("copy rows=%d cols=%d type=%d channels=%d", d.r, d.c, type, ch);
	sig(d.r); sig(d.c); sig(type * 10 + ch);
	seen("type %d", type);
	simple_mat c = own(simple_mat_copy(m));
	REQ(c != m, "simple_mat_copy returned its input");
	req_sm(c, d.r, d.c, type, ch, "copy");
	req_bytes(c->data, m->data, bytes, "copy");
	REQ(c->data != m->data, "the copy shares the memory of its source");
	memset(c->data, 0xA5, bytes);
}

struct ModelS { simple_mat m; Dim2 d; int type, ch; char* data; bool attached; };
SC(sm_history, 300, 0)
{
	ModelS a[6];
	int n = 0, steps = R.range(6, 40);
	desc("history of %d steps over simple mats", steps);
	sig(R.s);
	for (int s = 0; s < steps; s++) {
		int op = n == 0 ? (int)R.u(2) : (int)R.u(6);
		if (n == 6 && op < 3) op = 3;
		int x = n ? (int)R.u(n) : 0;
		if (op < 2) {
			Dim2 d = dim2(R, 300);
			if (R.u(6) == 0) d.r = d.c = 1;
			int type = R.pick(ALL_TYPES), ch = R.range(1, 4);
			size_t bytes = (size_t)d.r * d.c * ch * esize(type);
			ModelS& o = a[n++];
			o.d = d; o.type = type; o.ch = ch; o.attached = op == 1;
			o.data = raw<char>(bytes);
			if (op == 1) {
				// blocks of many sizes end up next to the block of the mat
				void* p = give(bytes);
				fill_bytes(R, p, bytes);
				memcpy(o.data, p, bytes);
				o.m = own(create_simple_mat_with_data(d.r, d.c, type, ch, p));
				seen("attached");
			} else {
				memset(o.data, 0, bytes);
				o.m = own(create_simple_mat(d.r, d.c, type, ch));
				seen("created");
			}
		} else if (op == 2) {
			ModelS& o = a[n];
			o = a[x];
			o.m = own(simple_mat_copy(a[x].m));
			size_t bytes = (size_t)o.d.r * o.d.c * o.ch * esize(o.type);
			o.data = raw<char>(bytes);
			memcpy(o.data, a[x].data, bytes);
			n++;
			seen("copied");
		} else if (op == 3) {
			disown(a[x].m);
			delete_simple_mat(a[x].m);
			a[x] = a[--n];
			seen("deleted");
		} else {
			ModelS& o = a[x];
			size_t bytes = (size_t)o.d.r * o.d.c * o.ch * esize(o.type), p = R.u(bytes), q = p + 1 + R.u(bytes - p);
			fill_bytes(R, o.data + p, q - p);
			memcpy((char*)o.m->data + p, o.data + p, q - p);
			seen("written");
		}
		for (int y = 0; y < n; y++) {
			req_sm(a[y].m, a[y].d.r, a[y].d.c, a[y].type, a[y].ch, "mat of a history");
			req_bytes(a[y].m->data, a[y].data, (size_t)a[y].d.r * a[y].d.c * a[y].ch * esize(a[y].type), "mat of a history");
		}
	}
}

SC(s2d_lifecycle, 150, 0)
{
	int w = R.range(1, 40), h = R.range(1, 40);
	if (R.u(20) == 0) (R.p(50) ? w : h) = R.range(40, 700);
	desc("2D structs %dx%d", w, h);
	sig(w); sig(h);
	S_2D s = create_2D_struct(w, h);
	REQ(s && s->width == w && s->height == h && s->data, "create_2D_struct(%d,%d) is wrong", w, h);
	unsigned char* p = (unsigned char*)s->data;
	need_init(p, (size_t)w * h, "2D struct");
	for (int i = 0; i < w * h; i++) if (p[i] != 1) fail("value", "element %d of a 2D struct is %d, not 1", i, p[i]);
	compared(w * h);
	memset(p, 0, (size_t)w * h);
	unsigned char* d = raw<unsigned char>((size_t)w * h);
	for (int i = 0; i < w * h; i++) d[i] = R.p(50);
	watch(d, (size_t)w * h, "struct data");
	S_2D t = create_2D_struct_with_data(w, h, d);
	REQ(t && t->width == w && t->height == h && t->data == d, "create_2D_struct_with_data(%d,%d) is wrong", w, h);
	for (int i = 0; i < w * h; i++) if (p[i] != 0) fail("value", "2D structs share memory");
	compared(w * h);
	delete_S_2D(s);
	delete_S_2D(t);          // the data stays with its owner, who frees it
}

// perfect reconstruction: the analysis and the synthesis filters are biorthogonal
static void bank_ok(wavelet_base* w, int type)
{
	REQ(w && w->len > 0 && w->LO_D && w->HI_D && w->LO_R && w->HI_R, "no wavelet base");
	int n = w->len;
	REQ(n == (type == 1 ? 6 : 16), "the wavelet base has %d coefficients", n);
	double* f[4] = {w->LO_D, w->HI_D, w->LO_R, w->HI_R};
	for (int q = 0; q < 4; q++) { need_init(f[q], n * sizeof(double), "wavelet base"); digest(f[q], n * sizeof(double)); }
	double lo = 0, hi = 0, lor = 0, hir = 0;
	for (int i = 0; i < n; i++) { lo += f[0][i]; hi += f[1][i]; lor += f[2][i]; hir += f[3][i]; }
	REQ(fabs(lo - sqrt(2.0)) < 1e-3 && fabs(lor - sqrt(2.0)) < 1e-3, "low pass sums are %g %g, not sqrt 2", lo, lor);
	REQ(fabs(hi) < 1e-3 && fabs(hir) < 1e-3, "high pass sums are %g %g, not 0", hi, hir);
	for (int sh = -(n - 1); sh <= n - 1; sh++) {
		// sum over both channels of analysis * synthesis, with the aliasing term
		double d = 0, al = 0;
		for (int i = 0; i < n; i++) {
			int j = n - 1 + sh - i;
			if (j < 0 || j >= n) continue;
			double s = (i & 1) ? -1 : 1;
			d += f[0][i] * f[2][j] + f[1][i] * f[3][j];
			al += s * (f[0][i] * f[2][j] + f[1][i] * f[3][j]);
		}
		REQ(fabs(al) < 1e-3, "the wavelet base aliases: %g", al);
		REQ(fabs(d - (sh == 0 ? 2 : 0)) < 1e-3, "the gain at delay %d is %g", n - 1 + sh, d / 2);
		compared();
	}
}

SC(wavelet_base_ok, 40, 0)
{
	int type = R.p(50) ? 1 : 2;
	desc("wavelet base %d", type);
	sig(type); sig(R.s);
	seen("base %d", type);
	NEED(set_wavelet_base && wavelet_base_free);
	wavelet_base* w = set_wavelet_base(type);
	bank_ok(w, type);
	wavelet_base_free(w);
}

SC(wavelet_history, 100, 0)
{
	NEED(set_wavelet_base && wavelet_base_free);
	wavelet_base* w[5] = {0};
	int type[5] = {0};
	int n = R.range(3, 25);
	desc("wavelet history of %d steps", n);
	sig(R.s); sig(n);
	std::vector<double> keep[5];
	for (int k = 0; k < n; k++) {
		int i = R.u(5);
		if (!w[i]) {
			type[i] = R.p(50) ? 1 : 2;
			w[i] = set_wavelet_base(type[i]);
			bank_ok(w[i], type[i]);
			seen("request of bank %d", type[i]);
		} else if (R.p(50)) {
			double* f[4] = {w[i]->LO_D, w[i]->HI_D, w[i]->LO_R, w[i]->HI_R};
			double* g = f[R.u(4)];
			g[R.u(w[i]->len)] = R.real(-9, 9);
			seen("a coefficient overwritten");
		} else {
			wavelet_base_free(w[i]);
			w[i] = NULL;
			seen("bank freed");
			continue;
		}
		keep[i].clear();
		double* f[4] = {w[i]->LO_D, w[i]->HI_D, w[i]->LO_R, w[i]->HI_R};
		for (int q = 0; q < 4; q++) keep[i].insert(keep[i].end(), f[q], f[q] + w[i]->len);
		for (int j = 0; j < 5; j++) {
			if (!w[j]) continue;
			double* e[4] = {w[j]->LO_D, w[j]->HI_D, w[j]->LO_R, w[j]->HI_R};
			for (int q = 0; q < 4; q++)
				REQ(memcmp(e[q], &keep[j][q * w[j]->len], w[j]->len * sizeof(double)) == 0, "bank %d changed although bank %d was used", j, i);
			compared();
		}
	}
	for (int j = 0; j < 5; j++) if (w[j]) wavelet_base_free(w[j]);
}

// ---- bands, parts, shapes -----------------------------------------------------
SC(band_out, 400, 0)
{
	Dim3 d = dim3(R, lim(R));
	int type = R.pick(ALL_TYPES), band = R.u(3) == 0 ? d.B : R.u(3) == 0 ? 1 : R.range(1, d.B);
	hyper_mat m = in_hm(R, d, type, "bsq");
	Dim2 o;
	int ot, och;
	if (R.p(60)) { o.r = d.L; o.c = d.S; ot = type; och = 1; }
	else if (R.p(50)) { o.r = d.S; o.c = d.L; ot = type; och = 1; }
	else { o.r = d.L; o.c = d.S; ot = 9; och = R.range(1, 2); }
	desc("band %d of samples=%d lines=%d bands=%d type=%d into rows=%d cols=%d type=%d channels=%d", band, d.S, d.L, d.B, type, o.r, o.c, ot, och);
	sig(d.S); sig(d.L); sig(d.B); sig(type * 100 + band * 4 + och);
	seen("%s band", band == 1 ? "first" : band == d.B ? "last" : "inner");
	simple_mat s = out_sm(R, o, ot, och);
	hyper_mat_2_simple_mat(m, s, band);
	req_sm(s, d.L, d.S, type, 1, "band");
	size_t n = (size_t)d.S * d.L * esize(type);
	req_bytes(s->data, (char*)m->data + n * (band - 1), n, "band");
}

SC(band_in, 400, 0)
{
	Dim3 d = dim3(R, lim(R));
	int type = R.pick(ALL_TYPES), band = R.u(3) == 0 ? d.B : R.u(3) == 0 ? 1 : R.range(1, d.B);
	hyper_mat m = in_hm(R, d, type, "bsq");
	Dim2 d2 = {d.L, d.S};
	simple_mat s = in_sm(R, d2, type, 1);
	size_t n = (size_t)d.S * d.L * esize(type);
	char* want = raw<char>(n * d.B);
	memcpy(want, m->data, n * d.B);
	memcpy(want + n * (band - 1), s->data, n);
	unwatch(m->data);
	desc("replace band %d of samples=%d lines=%d bands=%d type=%d", band, d.S, d.L, d.B, type);
	sig(d.S); sig(d.L); sig(d.B); sig(type * 100 + band);
	seen("%s band", band == 1 ? "first" : band == d.B ? "last" : "inner");
	simple_mat_2_hyper_mat(m, s, band);
	req_bytes(m->data, want, n * d.B, "cube with a replaced band");
	digest(m->data, n * d.B);
	// and back again
	simple_mat b = out_sm(R, d2, type, 1);
	hyper_mat_2_simple_mat(m, b, band);
	req_bytes(b->data, s->data, n, "band read back");
}

SC(reshape, 250, 0)
{
	Dim3 d = dim3(R, lim(R));
	int type = R.pick(ALL_TYPES);
	hyper_mat m = in_hm(R, d, type, ILS[R.u(3)]);
	int n = d.S * d.L * d.B, rows = 1;
	for (int t = 0; t < 30; t++) { int q = R.range(1, n); if (n % q == 0) { rows = q; break; } }
	if (R.p(40)) rows = R.p(50) ? d.B : d.L;
	desc("reshape %dx%dx%d type %d to %dx%d", d.S, d.L, d.B, type, rows, n / rows);
	sig(d.S); sig(d.L); sig(d.B); sig(type); sig(rows);
	simple_mat r = own(reshape_hypermat_2_simplemat(m, rows, n / rows));
	req_sm(r, rows, n / rows, type, 1, "reshape");
	req_bytes(r->data, m->data, (size_t)n * esize(type), "reshape");
}

SC(splice, 350, 0)
{
	Dim3 d = dim3(R, lim(R));
	int type = R.pick(ALL_TYPES);
	hyper_mat m = in_hm(R, d, type, ILS[R.u(3)]);
	size_t total = (size_t)d.S * d.L * d.B, e = esize(type);
	Dim3 p = {R.range(1, d.S), R.range(1, d.L), R.range(1, d.B)};
	if (R.p(40)) { p.S = d.S; p.L = d.L; }
	if (R.u(6) == 0) p = d;
	size_t pn = (size_t)p.S * p.L * p.B;
	size_t start = R.u(4) == 0 ? 0 : R.u(3) == 0 ? total - pn : R.u(total - pn + 1);
	hyper_mat q = in_hm(R, p, type, ILS[R.u(3)]);
	unwatch(m->data);
	char* want = raw<char>(total * e);
	memcpy(want, m->data, total * e);
	memcpy(want + start * e, q->data, pn * e);
	desc("splice %dx%dx%d into %dx%dx%d type %d at %zu", p.S, p.L, p.B, d.S, d.L, d.B, type, start);
	sig(d.S); sig(d.L); sig(d.B); sig(pn); sig(start); sig(type);
	seen("%s", start == 0 ? "at the start" : start + pn == total ? "at the end" : "inside");
	hyper_mat_splicing(m, q, (int)start);
	req_bytes(m->data, want, total * e, "spliced cube");
	digest(m->data, total * e);
}

SC(addition, 400, 0)
{
	bool f = R.p(50);
	int ch = R.p(60) ? 1 : R.range(1, 4);
	Dim2 a = dim2(R, lim(R) / 4), b = a, o;
	if (R.p(60)) { b = dim2(R, 2000); if (R.p(40)) b.r = a.r; if (R.p(40)) b.c = a.c; }
	if (b.r * b.c > 200000) b = a;
	int r = a.r < b.r ? a.r : b.r, c = a.c < b.c ? a.c : b.c;
	o.r = r; o.c = c;
	if (R.p(40)) { o.r += R.range(0, 4); o.c += R.range(0, 4); }
	desc("add %s %dx%d and %dx%d into %dx%d channels %d", f ? "float" : "uchar", a.r, a.c, b.r, b.c, o.r, o.c, ch);
	sig(a.r); sig(a.c); sig(b.r); sig(b.c); sig(ch * 2 + f); sig(o.r); sig(o.c);
	seen("%s %s", f ? "float" : "uchar", a.r == b.r && a.c == b.c ? "equal sizes" : "different sizes");
	simple_mat x, y;
	if (f) { x = in_f32(R, a, ch, -1000, 1000); y = in_f32(R, b, ch, -1000, 1000); }
	else { x = in_u8(R, a, ch); y = in_u8(R, b, ch); }
	simple_mat z = out_sm_keep(R, o, f ? 4 : 1, ch);
	size_t n = (size_t)o.r * o.c * ch * (f ? 4 : 1);
	char* want = raw<char>(n);
	memcpy(want, z->data, n);
	for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) for (int k = 0; k < ch; k++) {
		size_t p = ((size_t)i * a.c + j) * ch + k, q = ((size_t)i * b.c + j) * ch + k, w = ((size_t)i * o.c + j) * ch + k;
		if (f) ((float*)want)[w] = F32(x)[p] + F32(y)[q];
		else ((unsigned char*)want)[w] = (unsigned char)(U8(x)[p] + U8(y)[q]);
	}
	if (f) simple_mat_addition_float(x, y, z); else simple_mat_addition_uchar(x, y, z);
	req_sm(z, o.r, o.c, f ? 4 : 1, ch, "sum");
	req_bytes(z->data, want, n, "sum");
}

SC(log_mat, 250, 0)
{
	Dim2 d = dim2(R, lim(R));
	double hi = R.pick((const double[]){1.0, 10.0, 255.0, 1e6, 1e30});
	int ch = R.p(60) ? 1 : R.range(2, 4);
	simple_mat m = in_f32(R, d, ch, 1e-6, hi);
	simple_mat o = out_sm(R, d, 4, ch);
	desc("log of %dx%dx%d values up to %g", d.r, d.c, ch, hi);
	sig(d.r); sig(d.c * 8 + ch); sig((uint64_t)log10(hi));
	simple_mat_log(m, o);
	req_sm(o, d.r, d.c, 4, ch, "log");
	for (int i = 0; i < d.r * d.c * ch; i++) {
		double w = log((double)F32(m)[i]);
		if (!(fabs(F32(o)[i] - w) <= 1e-5 * (1 + fabs(w)))) fail("value", "log(%g) is %g, not %g", F32(m)[i], F32(o)[i], w);
	}
	compared((uint64_t)d.r * d.c * ch);
}

// ---- transposes -----------------------------------------------------------------
SC(sm_transpose, 400, 0)
{
	Dim2 d = dim2(R, lim(R)), t = {d.c, d.r};
	int type = R.pick(ALL_TYPES), ch = R.p(60) ? 1 : R.range(1, 4);
	simple_mat m = in_sm(R, d, type, ch), o = out_sm(R, t, type, ch);
	size_t e = esize(type) * ch;
	desc("transpose %dx%d type %d channels %d", d.r, d.c, type, ch);
	sig(d.r); sig(d.c); sig(type * 10 + ch);
	seen("channels %d", ch);
	simple_mat_transport(o, m);
	req_sm(o, d.c, d.r, type, ch, "transpose");
	for (int i = 0; i < d.r; i++) for (int j = 0; j < d.c; j++)
		if (memcmp((char*)m->data + ((size_t)i * d.c + j) * e, (char*)o->data + ((size_t)j * d.r + i) * e, e) != 0)
			fail("value", "transpose: row %d col %d of %dx%d type %d channels %d is misplaced", i, j, d.r, d.c, type, ch);
	compared((uint64_t)d.r * d.c);
	if (R.p(30)) {
		simple_mat b = out_sm(R, d, type, ch);
		simple_mat_transport(b, o);
		req_bytes(b->data, m->data, (size_t)d.r * d.c * e, "transposed twice");
	}
}

SC(hm_transpose, 300, 0)
{
	Dim3 d = dim3(R, lim(R)), t = {d.L, d.S, d.B};
	int type = R.pick(ALL_TYPES);
	hyper_mat m = in_hm(R, d, type, "bsq"), o = out_hm(R, t, type, "bsq");
	desc("transpose the bands of samples=%d lines=%d bands=%d type=%d", d.S, d.L, d.B, type);
	sig(d.S); sig(d.L); sig(d.B); sig(type);
	seen("element size %zu", esize(type));
	hyper_mat_transport(o, m);
	req_hm(o, d.L, d.S, d.B, type, "bsq", "transpose");
	size_t e = esize(type);
	for (int k = 0; k < d.B; k++) for (int i = 0; i < d.L; i++) for (int j = 0; j < d.S; j++)
		if (memcmp((char*)m->data + at("bsq", d.S, d.L, d.B, i, j, k) * e, (char*)o->data + at("bsq", d.L, d.S, d.B, j, i, k) * e, e) != 0)
			fail("value", "transpose: line %d sample %d band %d is misplaced", i, j, k);
	compared((uint64_t)d.S * d.L * d.B);
}
