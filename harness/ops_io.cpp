// Files: cubes with their headers, raw images, spectra, bitmaps; malformed files, failing devices.
#include "files.h"
#include <fcntl.h>

static void req_saved(const char* path, hyper_mat m, const float* wave, const char* what)
{
	size_t n = (size_t)m->samples * m->lines * m->bands * esize(m->data_type);
	req_file(path, m->data, n, what);
	std::map<Str, Str> h;
	Str hp = Str(path) + ".hdr";
	REQ(parse_hdr(hp.c_str(), h), "%s: no ENVI header", what);
	REQ(h["samples"] == fmt("%d", m->samples) && h["lines"] == fmt("%d", m->lines) && h["bands"] == fmt("%d", m->bands),
		"%s: header says %s samples %s lines %s bands", what, h["samples"].c_str(), h["lines"].c_str(), h["bands"].c_str());
	REQ(h["data type"] == fmt("%d", m->data_type), "%s: header says data type %s", what, h["data type"].c_str());
	REQ(h["interleave"] == Str(m->interleave, 3), "%s: header says interleave %s", what, h["interleave"].c_str());
	if (h.count("header offset")) REQ(h["header offset"] == "0", "%s: header says offset %s", what, h["header offset"].c_str());
	if (h.count("byte order")) REQ(h["byte order"] == "0", "%s: header says byte order %s", what, h["byte order"].c_str());
	compared(6);
	if (wave) {
		std::vector<float> v;
		const char* p = h["wavelength"].c_str();
		while (*p) {
			char* e;
			float f = strtof(p, &e);
			if (e == p) fail("value", "%s: header wavelength text", what);
			v.push_back(f);
			p = e;
			while (*p == ' ' || *p == ',' || *p == '\n' || *p == '\r' || *p == '\t') p++;
		}
		REQ((int)v.size() == m->bands, "%s: header lists %zu wavelengths for %d bands", what, v.size(), m->bands);
		req_wave(v.data(), wave, m->bands, what);
	}
}

SC(hm_save_read, 500, F_FILE)
{
	char path[600], hdr[700];
	static const char* NAMES[4] = {"cube", "cube.img", "a.b.c", "spaced name.raw"};
	snprintf(path, sizeof path, "%s", scratch(R.pick(NAMES)));
	snprintf(hdr, sizeof hdr, "%s.hdr", path);
	unlink(path);
	unlink(hdr);
	int n = R.range(1, 3);
	for (int s = 0; s < n; s++) {
		Dim3 d = file_dim(R);
		int type = R.pick(ALL_TYPES);
		const char* il = ILS[R.u(3)];
		hyper_mat m = in_hm(R, d, type, il, false);
		random_wave(R, m->wavelength, d.B);
		watch_hm(m, "saved hyper mat");
		desc("save %d samples=%d lines=%d bands=%d type=%d %s;", s, d.S, d.L, d.B, type, il);
		sig(d.S); sig(d.L); sig(d.B); sig(type * 10 + (il[1] == 's' ? 0 : il[2] == 'l' ? 1 : 2));
		seen("%s type %d", il, type);
		if (s) seen("save over an older file");
		bool bare = R.p(15);
		float* keep = m->wavelength;
		if (bare) {
			unwatch(m->data);
			m->wavelength = NULL;
			seen("without wavelengths");
			hmsave(path, m);
			REQ(m->wavelength == NULL, "hmsave changed the wavelengths");
		} else
			hmsave(path, m);
		req_saved(path, m, bare ? NULL : keep, "hmsave");
		int how = (int)R.u(3);
		if (how != 1) {
			hyper_mat r = own(hmread_with_hdr(path, hdr));
			REQ(r != NULL, "hmread_with_hdr of a saved cube returned NULL");
			req_hm(r, d.S, d.L, d.B, type, il, "hmread_with_hdr");
			req_bytes(r->data, m->data, (size_t)d.S * d.L * d.B * esize(type), "hmread_with_hdr");
			req_wave(r->wavelength, bare ? NULL : keep, d.B, "hmread_with_hdr");
		}
		if (how != 0) {
			hyper_mat r = own(hmread_with_size(path, d.S, d.L, d.B, type, il));
			REQ(r != NULL, "hmread_with_size of a saved cube returned NULL");
			req_hm(r, d.S, d.L, d.B, type, il, "hmread_with_size");
			req_bytes(r->data, m->data, (size_t)d.S * d.L * d.B * esize(type), "hmread_with_size");
			req_wave(r->wavelength, NULL, d.B, "hmread_with_size");
		}
		m->wavelength = keep;
	}
	std::vector<unsigned char> v;
	get_file(hdr, v);
	digest(v.data(), v.size());
	unlink(path);
	unlink(hdr);
}

// what hyper_mat_showinfo prints, read back from the text
SC(showinfo, 250, F_FILE)
{
	char path[600];
	snprintf(path, sizeof path, "%s", scratch("shown"));
	unlink(path);
	bool none = R.u(20) == 0;
	Dim3 d = file_dim(R);
	int type = R.pick(ALL_TYPES);
	const char* il = ILS[R.u(3)];
	hyper_mat m = none ? NULL : in_hm(R, d, type, il, false);
	bool bare = R.p(15);
	float* keep = none ? NULL : m->wavelength;
	if (!none) { random_wave(R, m->wavelength, d.B); if (bare) m->wavelength = NULL; watch_hm(m, "shown hyper mat"); }
	desc("showinfo samples=%d lines=%d bands=%d type=%d %s%s%s", d.S, d.L, d.B, type, il, bare ? " without wavelengths" : "", none ? ", no image" : "");
	sig(d.S); sig(d.L); sig(d.B); sig(type * 40 + il[2] * 2 + bare);
	seen("%s", none ? "no image" : il); seen("type %d", type);
	fflush(stdout);
	int old = dup(1), fd = open(path, O_CREAT | O_TRUNC | O_WRONLY, 0600);
	if (old < 0 || fd < 0) { perror(path); _exit(97); }
	dup2(fd, 1); close(fd);
	hyper_mat_showinfo(m);
	fflush(stdout);
	dup2(old, 1); close(old);
	std::vector<unsigned char> v;
	if (!get_file(path, v)) { perror(path); _exit(97); }
	Str s(v.begin(), v.end());
	if (none) { compared(); return; }
	static const char* const W[4] = {"samples", "lines", "bands", "data type"};
	int want[4] = {d.S, d.L, d.B, type};
	for (int k = 0; k < 4; k++) {
		size_t at = s.find(W[k]);
		REQ(at != Str::npos, "showinfo does not tell the %s", W[k]);
		at = s.find_first_of("-0123456789\n", at);
		REQ(at != Str::npos && atol(s.c_str() + at) == want[k], "showinfo tells other %s than %d: %.60s", W[k], want[k], s.c_str());
	}
	size_t at = s.find("interleave");
	REQ(at != Str::npos && s.find(il, at) != Str::npos && s.find(il, at) < s.find('\n', at), "showinfo tells another interleave than %s", il);
	if (!bare) {
		at = s.find("wavelength");
		REQ(at != Str::npos, "showinfo does not tell the wavelengths");
		at += 10;
		for (int k = 0; k < d.B; k++) {
			at = s.find_first_of("-0123456789", at);
			REQ(at != Str::npos, "showinfo tells %d wavelengths instead of %d", k, d.B);
			char* e;
			double g = strtod(s.c_str() + at, &e), w = m->wavelength[k];
			REQ(fabs(g - w) <= 1e-6 + 1e-6 * fabs(w), "showinfo tells wavelength %d as %g, not %g", k, g, w);
			at = e - s.c_str();
		}
	}
	compared(5 + d.B);
}
SC(hm_writehdr, 250, F_FILE)
{
	char path[600], hdr[700];
	snprintf(path, sizeof path, "%s", scratch("w"));
	snprintf(hdr, sizeof hdr, "%s.hdr", path);
	unlink(hdr);
	for (int s = 0, n = R.range(1, 3); s < n; s++) {
		int S = R.range(1, R.p(20) ? 2000000000 : 4000), L = R.range(1, R.p(20) ? 2000000000 : 4000), B = dim1(R, 400), type = R.pick(ALL_TYPES);
		const char* il = ILS[R.u(3)];
		float* w = raw<float>(B);
		random_wave(R, w, B);
		bool bare = R.p(20);
		char* it = raw<char>(3);                 // the interleave of a cube has no terminator
		memcpy(it, il, 3);
		desc("writehdr %d x %d x %d type %d %s%s;", S, L, B, type, il, bare ? " without wavelengths" : "");
		sig(S); sig(L); sig(B); sig(type);
		seen("writehdr %s%s", il, bare ? " bare" : "");
		watch(w, B * sizeof(float), "wavelengths");
		writehdr(path, S, L, B, type, it, bare ? NULL : w);
		std::map<Str, Str> h;
		REQ(parse_hdr(hdr, h), "writehdr: no ENVI header at path.hdr");
		REQ(h["samples"] == fmt("%d", S) && h["lines"] == fmt("%d", L) && h["bands"] == fmt("%d", B) && h["data type"] == fmt("%d", type) && h["interleave"] == il,
			"writehdr: header says %s %s %s %s %s", h["samples"].c_str(), h["lines"].c_str(), h["bands"].c_str(), h["data type"].c_str(), h["interleave"].c_str());
		compared(5);
		if (!bare) {
			std::vector<float> v;
			const char* p = h["wavelength"].c_str();
			for (char* e; *p; p = e + strspn(e, " ,\r\n\t")) {
				v.push_back(strtof(p, &e));
				REQ(e != p, "writehdr: wavelength text");
			}
			REQ((int)v.size() == B, "writehdr: %zu wavelengths for %d bands", v.size(), B);
			req_wave(v.data(), w, B, "writehdr");
		} else
			REQ(h["wavelength"].find_first_of("0123456789") == Str::npos, "writehdr without wavelengths wrote %s", h["wavelength"].c_str());
	}
	std::vector<unsigned char> v;
	get_file(hdr, v);
	digest(v.data(), v.size());
	unlink(hdr);
}

SC(hm_hdr_forms, 700, F_FILE)
{
	Dim3 d = R.p(3) ? Dim3{R.range(1, 2), R.range(1, 2), R.range(900, 1500)} : file_dim(R);
	int type = R.pick(ALL_TYPES);
	const char* il = ILS[R.u(3)];
	float* wave = raw<float>(d.B);
	Str t = hdr_text(R, d, type, il, wave);
	size_t n = (size_t)d.S * d.L * d.B * esize(type), more = R.p(15) ? R.u(50) : 0;
	unsigned char* data = raw<unsigned char>(n + more);
	fill_bytes(R, data, n + more);
	char img[600], hdr[600];
	snprintf(img, sizeof img, "%s", scratch("f.img"));
	snprintf(hdr, sizeof hdr, "%s", scratch(R.p(50) ? "f.hdr" : "other"));
	put_file(img, data, n + more);
	put_file(hdr, t);
	sig(d.S); sig(d.L); sig(d.B); sig(type); sig(t.size());
	Str flat = t.substr(0, 350);
	for (size_t k = 0; k < flat.size(); k++) if (flat[k] == '\n') flat[k] = '|';
	desc("header %s", flat.c_str());
	hyper_mat m = own(hmread_with_hdr(img, hdr));
	REQ(m != NULL, "hmread_with_hdr returned NULL");
	req_hm(m, d.S, d.L, d.B, type, il, "hmread_with_hdr");
	req_bytes(m->data, data, n, "hmread_with_hdr");
	req_wave(m->wavelength, wave, d.B, "hmread_with_hdr");
	digest(m->wavelength, d.B * sizeof(float));
	req_file(hdr, t.data(), t.size(), "header after reading");
	unlink(img);
	unlink(hdr);
}

SC(hm_read_size, 300, F_FILE)
{
	Dim3 d = file_dim(R);
	int type = R.pick(ALL_TYPES);
	const char* il = ILS[R.u(3)];
	size_t n = (size_t)d.S * d.L * d.B * esize(type), more = R.p(40) ? R.u(300) : 0;
	unsigned char* data = raw<unsigned char>(n + more);
	fill_bytes(R, data, n + more);
	const char* img = scratch("r.img");
	put_file(img, data, n + more);
	desc("hmread_with_size %d %d %d type %d %s, file %zu bytes longer", d.S, d.L, d.B, type, il, more);
	sig(d.S); sig(d.L); sig(d.B); sig(type); sig(more);
	seen("%s", more ? "longer file" : "exact file");
	hyper_mat m = own(hmread_with_size(img, d.S, d.L, d.B, type, il));
	REQ(m != NULL, "hmread_with_size returned NULL");
	req_hm(m, d.S, d.L, d.B, type, il, "hmread_with_size");
	req_bytes(m->data, data, n, "hmread_with_size");
	req_wave(m->wavelength, NULL, d.B, "hmread_with_size");
	digest(data, n);
	if (R.p(30)) {
		unlink(img);
		seen("missing file");
		REQ(hmread_with_size(img, d.S, d.L, d.B, type, il) == NULL, "hmread_with_size of a missing file returned a cube");
		REQ(hmread_with_hdr(img, img) == NULL, "hmread_with_hdr of missing files returned a cube");
		put_file(img, data, n + more);
		char no[600];
		snprintf(no, sizeof no, "%s", scratch("nothing here"));
		REQ(hmread_with_hdr(img, no) == NULL, "hmread_with_hdr with a missing header returned a cube");
		REQ(hmread_with_hdr(no, img) == NULL, "hmread_with_hdr with a missing image returned a cube");
		compared(4);
	}
	unlink(img);
}

SC(sm_read, 300, F_FILE)
{
	Dim2 d = dim2(R, R.p(8) ? 40000 : 3000);
	int type = R.pick(ALL_TYPES), ch = R.range(1, 4);
	size_t n = (size_t)d.r * d.c * ch * esize(type), more = R.p(30) ? R.u(100) : 0;
	unsigned char* data = raw<unsigned char>(n + more);
	fill_bytes(R, data, n + more);
	const char* img = scratch("s.raw");
	put_file(img, data, n + more);
	desc("smread %d rows %d cols type %d channels %d, file %zu bytes longer", d.r, d.c, type, ch, more);
	sig(d.r); sig(d.c); sig(type); sig(ch);
	seen("channels %d", ch);
	simple_mat m = own(smread(img, d.r, d.c, type, ch));
	REQ(m != NULL, "smread returned NULL");
	req_sm(m, d.r, d.c, type, ch, "smread");
	req_bytes(m->data, data, n, "smread");
	digest(m->data, n);
	unlink(img);
}

SC(read_spectrum, 500, F_FILE)
{
	int length = dim1(R, R.u(25) ? 400 : 5000), count = R.p(50) ? length : R.p(50) ? R.range(0, length) : length + R.range(1, 20);
	Str t;
	float* want = raw<float>(length);
	for (int k = 0; k < length; k++) want[k] = 0;
	int sepmode = (int)R.u(4);
	static const char* SEP[4] = {"\n", " ", "\t", "\r\n"};
	int stop = -1;
	if (R.p(12) && count) stop = R.range(0, count - 1);      // text ends the spectrum
	for (int k = 0; k < count; k++) {
		if (k == stop) { t += R.p(50) ? "end" : "wavelength, value"; t += "\n1 2 3"; seen("text ends the values"); break; }
		char b[64];
		double x = R.p(50) ? R.range(-5000, 5000) / 128.0 : R.real(-1, 1) * pow(10, R.range(-6, 6));
		snprintf(b, sizeof b, R.p(60) ? "%.9g" : R.p(50) ? "%.9e" : "%.12f", x);
		if (k < length) want[k] = strtof(b, NULL);
		t += b;
		if (k + 1 < count || R.p(60)) t += R.p(85) ? SEP[sepmode] : SEP[R.u(4)];
	}
	const char* path = scratch("spectrum.txt");
	put_file(path, t);
	desc("spectrum length %d of %d values, %.200s", length, count, t.c_str());
	sig(length); sig(count); sig(t.size());
	seen("%s", count < length ? "fewer values" : count > length ? "more values" : "as many values");
	float* sp = read_spectrum_file(path, length);
	REQ(sp != NULL, "read_spectrum_file returned NULL");
	need_init(sp, length * sizeof(float), "spectrum");
	for (int k = 0; k < length; k++)
		REQ(fabsf(sp[k] - want[k]) <= 1.3e-7f * fabsf(want[k]), "value %d is %.9g, not %.9g", k, sp[k], want[k]);
	compared(length);
	digest(sp, length * sizeof(float));
	free(sp);
	unlink(path);
}

// ------------------------------------------------------------------- bitmaps ----
static void put16(Str& s, unsigned v) { s += (char)(v & 255); s += (char)(v >> 8 & 255); }
static void put32(Str& s, unsigned v) { put16(s, v & 65535); put16(s, v >> 16); }
static unsigned get16(const unsigned char* p) { return p[0] | p[1] << 8; }
static unsigned get32(const unsigned char* p) { return get16(p) | get16(p + 2) << 16; }
struct Bmp { int w, h, bits, infosize; unsigned clr, gap; };
// text of the file; want: RGB top down
static Str bmp_text(Rng& R, const Bmp& b, unsigned char* want)
{
	Str head, pal, body;
	unsigned colors = b.bits == 8 ? (b.clr ? b.clr : 256) : 0;
	unsigned char table[256][4];
	fill_bytes(R, table, sizeof table);
	if (R.p(30)) for (int i = 0; i < 256; i++) table[i][0] = table[i][1] = table[i][2] = (unsigned char)i;
	for (unsigned i = 0; i < colors; i++) pal.append((char*)table[i], 4);
	size_t line = ((size_t)b.w * b.bits / 8 + 3) / 4 * 4;
	body.assign(line * b.h, 0);
	for (size_t i = 0; i < body.size(); i++) body[i] = (char)R.u(256);
	for (int i = 0; i < b.h; i++)
		for (int j = 0; j < b.w; j++) {
			unsigned char* p = (unsigned char*)&body[(size_t)(b.h - 1 - i) * line + (size_t)j * b.bits / 8];
			unsigned char* o = want + ((size_t)i * b.w + j) * 3;
			if (b.bits == 8) {
				*p = (unsigned char)R.u(colors);
				o[0] = table[*p][2]; o[1] = table[*p][1]; o[2] = table[*p][0];
			} else { o[0] = p[2]; o[1] = p[1]; o[2] = p[0]; }
		}
	unsigned off = 14 + b.infosize + colors * 4 + b.gap;
	head = "BM";
	put32(head, R.p(20) ? 0 : off + (unsigned)body.size());
	put16(head, 0); put16(head, 0);
	put32(head, off);
	put32(head, b.infosize); put32(head, b.w); put32(head, b.h);
	put16(head, 1); put16(head, b.bits);
	put32(head, 0);
	put32(head, R.p(30) ? 0 : (unsigned)body.size());
	put32(head, (unsigned)R.u(5000)); put32(head, (unsigned)R.u(5000));
	put32(head, b.bits == 8 ? b.clr : 0); put32(head, 0);
	for (int k = 40; k < b.infosize; k++) head += (char)R.u(256);
	for (unsigned k = 0; k < b.gap; k++) pal += (char)R.u(256);
	return head + pal + body;
}

SC(bmp_read_forms, 600, F_FILE)
{
	static const int INFO[5] = {40, 40, 40, 108, 124};
	Bmp b = {dim1(R, R.p(10) ? 200 : 40), dim1(R, 40), R.p(50) ? 8 : 24, R.pick(INFO), 0, 0};
	if (long_axes() || R.u(25) == 0) { Dim2 e = dim2(R, 20000); b.w = e.c; b.h = e.r; }
	if (b.bits == 8) b.clr = R.p(50) ? 0 : R.p(30) ? 256 : (unsigned)R.range(1, 255);
	if (R.p(25)) b.gap = (unsigned)R.u(70);
	unsigned char* want = raw<unsigned char>((size_t)b.w * b.h * 3);
	Str t = bmp_text(R, b, want);
	const char* path = scratch("x.bmp");
	put_file(path, t);
	desc("bmp %dx%d %d bit, info header %d, %u colors, gap %u", b.w, b.h, b.bits, b.infosize, b.clr, b.gap);
	sig(b.w); sig(b.h); sig(b.bits * 1000 + b.infosize); sig(b.clr * 100 + b.gap);
	seen("%d bit", b.bits);
	if (b.infosize != 40) seen("long info header");
	if (b.gap) seen("pixels at an offset");
	if (b.clr && b.clr < 256) seen("short color table");
	simple_mat m = own(smread_bmp(path));
	REQ(m != NULL, "smread_bmp returned NULL");
	req_sm(m, b.h, b.w, 1, 3, "smread_bmp");
	req_bytes(m->data, want, (size_t)b.w * b.h * 3, "smread_bmp");
	digest(m->data, (size_t)b.w * b.h * 3);
	unlink(path);
}

SC(bmp_write_format, 500, F_FILE)
{
	Dim2 d = {dim1(R, 40), dim1(R, R.p(10) ? 200 : 40)};
	if (long_axes() || R.u(25) == 0) d = dim2(R, 20000);
	int ch = R.p(50) ? 1 : 3;
	simple_mat m = in_u8(R, d, ch);
	const char* path = scratch("y.bmp");
	bool again = R.p(30);
	unlink(path);
	if (again) { std::vector<unsigned char> junk(R.u(9000)); put_file(path, junk.data(), junk.size()); seen("over an older file"); }
	desc("smwrite_bmp rows %d cols %d channels %d", d.r, d.c, ch);
	sig(d.r); sig(d.c); sig(ch);
	seen("channels %d", ch);
	smwrite_bmp(path, m);
	std::vector<unsigned char> v;
	REQ(get_file(path, v), "smwrite_bmp wrote no file");
	size_t line = ((size_t)d.c * 3 + 3) / 4 * 4;
	REQ(v.size() >= 54 && v[0] == 'B' && v[1] == 'M', "no bitmap header");
	unsigned off = get32(&v[10]);
	REQ(get32(&v[2]) == v.size(), "bfSize %u of a file of %zu bytes", get32(&v[2]), v.size());
	REQ(get16(&v[6]) == 0 && get16(&v[8]) == 0, "reserved fields are set");
	REQ(get32(&v[14]) >= 40 && off >= 14 + get32(&v[14]), "biSize %u, pixels at %u", get32(&v[14]), off);
	REQ((int)get32(&v[18]) == d.c && (int)get32(&v[22]) == d.r, "header says %d x %d", (int)get32(&v[18]), (int)get32(&v[22]));
	REQ(get16(&v[26]) == 1 && get16(&v[28]) == 24 && get32(&v[30]) == 0, "planes %u bits %u compression %u", get16(&v[26]), get16(&v[28]), get32(&v[30]));
	REQ(get32(&v[34]) == 0 || get32(&v[34]) == line * d.r, "biSizeImage %u", get32(&v[34]));
	REQ(get32(&v[46]) == 0, "biClrUsed %u", get32(&v[46]));
	REQ(v.size() == off + line * d.r, "file of %zu bytes, not %zu", v.size(), off + line * d.r);
	need_init(v.data(), v.size(), "bitmap file");
	for (int i = 0; i < d.r; i++)
		for (int j = 0; j < d.c; j++) {
			const unsigned char* p = &v[off + (size_t)(d.r - 1 - i) * line + (size_t)j * 3];
			for (int k = 0; k < 3; k++) {
				int w = ch == 1 ? U8(m)[(size_t)i * d.c + j] : U8(m)[((size_t)i * d.c + j) * 3 + k];
				if (p[2 - k] != w) fail("value", "row %d col %d channel %d is %d, not %d", i, j, k, p[2 - k], w);
			}
		}
	compared(v.size());
	digest(v.data(), v.size());
	unlink(path);
}

SC(bmp_roundtrip, 300, F_FILE)
{
	Dim2 d = {dim1(R, 60), dim1(R, 60)};
	if (long_axes() || R.u(25) == 0) d = dim2(R, 20000);
	int ch = R.p(40) ? 1 : 3;
	simple_mat m = in_u8(R, d, ch);
	char path[600];
	snprintf(path, sizeof path, "%s", scratch("z.bmp"));
	desc("bmp roundtrip rows %d cols %d channels %d", d.r, d.c, ch);
	sig(d.r); sig(d.c); sig(ch);
	seen("channels %d", ch);
	simple_mat cur = m;
	int n = R.range(1, 3);
	for (int s = 0; s < n; s++) {
		smwrite_bmp(path, cur);
		cur = own(smread_bmp(path));
		REQ(cur != NULL, "smread_bmp returned NULL");
		req_sm(cur, d.r, d.c, 1, 3, "smread_bmp of smwrite_bmp");
		for (size_t i = 0; i < (size_t)d.r * d.c * 3; i++)
			if (U8(cur)[i] != (ch == 1 ? U8(m)[i / 3] : U8(m)[i])) fail("value", "pixel %zu channel %zu differs after a roundtrip", i / 3, i % 3);
		compared((uint64_t)d.r * d.c * 3);
	}
	digest(cur->data, (size_t)d.r * d.c * 3);
	unlink(path);
}

// --------------------------------------------------------------- malformed files ----
SC(bad_hdr, 500, F_FILE | F_FORK)
{
	Dim3 d = {R.range(1, 6), R.range(1, 6), R.range(1, 8)};
	int type = R.pick(ALL_TYPES);
	float wave[8];
	Str t = hdr_text(R, d, type, ILS[R.u(3)], wave);
	int how = (int)R.u(10);
	if (how == 0) { t.assign(R.u(3000), 0); for (size_t k = 0; k < t.size(); k++) t[k] = (char)R.u(256); }
	else if (how == 1) t = "";
	else mutate(R, t);
	size_t n = (size_t)d.S * d.L * d.B * esize(type);
	if (R.p(20)) n = R.u(n + 1);
	std::vector<unsigned char> data(n + 1, 7);
	char img[600], hdr[600];
	snprintf(img, sizeof img, "%s", scratch("bad.img"));
	snprintf(hdr, sizeof hdr, "%s", scratch("bad.hdr"));
	put_file(img, data.data(), n);
	put_file(hdr, t);
	Str flat = t.substr(0, 350);
	for (size_t k = 0; k < flat.size(); k++) if (flat[k] == '\n') flat[k] = '|';
	desc("malformed header (%zu bytes) %s", t.size(), flat.c_str());
	sig(t.size()); sig(std::hash<Str>()(t));
	std::vector<char> out;
	int st = in_child([&] {
		alloc_cap(64 << 20);
		hyper_mat m = hmread_with_hdr(img, hdr);
		bool ok = m && m->samples > 0 && m->lines > 0 && m->bands > 0 && esize(m->data_type) > 0 && (same_il(m->interleave, "bsq") || same_il(m->interleave, "bil") || same_il(m->interleave, "bip")) && m->wavelength;
		if (ok) {
			size_t k = (size_t)m->samples * m->lines * m->bands * esize(m->data_type);
			touch(m->wavelength, m->bands * sizeof(float));
			touch(m->data, k);
			ok = k <= n;
			for (size_t i = 0; ok && i < k; i++) ok = ((unsigned char*)m->data)[i] == 7;
		}
		if (!ok) { printf("incomplete cube\n"); fflush(stdout); _exit(3); }
		delete_hyper_mat(m);
	}, out);
	req_sound(st, out, "malformed header");
	unlink(img);
	unlink(hdr);
}

SC(bad_bmp, 500, F_FILE | F_FORK)
{
	Bmp b = {R.range(1, 12), R.range(1, 12), R.p(50) ? 8 : 24, 40, 0, 0};
	unsigned char* want = raw<unsigned char>((size_t)b.w * b.h * 3);
	Str t = bmp_text(R, b, want);
	static const unsigned EDGE[] = {0, 1, 2, 3, 255, 256, 257, 65535, 65536, 0x7fffffff, 0x80000000, 0xffffffff, 0x40000000, 0x10000, 1000};
	int how = (int)R.u(8);
	if (how == 0) t = t.substr(0, R.u(t.size() + 1));
	else if (how == 1) t.resize(R.u(60));
	else {
		int n = R.range(1, 3);
		for (int k = 0; k < n; k++) {
			static const int OFF[] = {0, 2, 10, 14, 18, 22, 26, 28, 30, 34, 46, 50};
			int o = R.p(80) ? R.pick(OFF) : (int)R.u(54);
			unsigned v = R.p(70) ? R.pick(EDGE) : (unsigned)R.next();
			if (R.p(30)) v = (unsigned)R.range(0, 64);
			int bytes = o == 26 || o == 28 || o == 0 ? 2 : 4;
			for (int i = 0; i < bytes && (size_t)(o + i) < t.size(); i++) t[o + i] = (char)(v >> (8 * i));
		}
		if (R.p(20)) t = t.substr(0, R.u(t.size() + 1));
		if (R.p(20)) t.append(R.u(2000), 'x');
	}
	const char* path = scratch("bad.bmp");
	put_file(path, t);
	const unsigned char* p = (const unsigned char*)t.data();
	if (t.size() >= 54) desc("malformed bitmap of %zu bytes: pixels at %u, biSize %u, %d x %d, %u bits, compression %u, %u colors", t.size(), get32(p + 10), get32(p + 14), (int)get32(p + 18), (int)get32(p + 22), get16(p + 28), get32(p + 30), get32(p + 46));
	else desc("malformed bitmap of %zu bytes", t.size());
	sig(t.size()); sig(std::hash<Str>()(t));
	std::vector<char> out;
	int st = in_child([&] {
		alloc_cap(64 << 20);
		simple_mat m = smread_bmp(path);
		bool ok = m && t.size() >= 54 && m->data_type == 1 && m->channels == 3 && m->cols == (int)get32(p + 18) && m->rows == (int)get32(p + 22) && m->rows > 0 && m->cols > 0;
		if (ok) touch(m->data, (size_t)m->rows * m->cols * 3);
		if (!ok) { printf("incomplete image\n"); fflush(stdout); _exit(3); }
		delete_simple_mat(m);
	}, out);
	req_sound(st, out, "malformed bitmap");
	unlink(path);
}

SC(bad_spectrum, 250, F_FILE | F_FORK)
{
	Str t;
	int length = R.range(1, 60), n = R.range(0, 60);
	for (int k = 0; k < n; k++) t += fmt("%.6g\n", R.real(-10, 10));
	if (R.p(85)) mutate(R, t);
	else { t.assign(R.u(3000), 0); for (size_t k = 0; k < t.size(); k++) t[k] = (char)R.u(256); }
	const char* path = scratch("bad.txt");
	put_file(path, t);
	desc("malformed spectrum of %zu bytes, length %d", t.size(), length);
	sig(t.size()); sig(std::hash<Str>()(t));
	std::vector<char> out;
	int st = in_child([&] {
		float* sp = read_spectrum_file(path, length);
		if (!sp) { printf("no spectrum\n"); fflush(stdout); _exit(3); }
		touch(sp, length * sizeof(float));
		free(sp);
	}, out);
	req_sound(st, out, "malformed spectrum");
	unlink(path);
}

// ------------------------------------------------------------------ failing files ----
SC(io_faults, 600, F_FILE | F_FORK)
{
	char path[600], hdr[700], dir[600];
	snprintf(dir, sizeof dir, "%s", scratch("fault.d"));
	snprintf(path, sizeof path, "%s", scratch("fault"));
	snprintf(hdr, sizeof hdr, "%s.hdr", path);
	rmdir(hdr);
	unlink(path);
	unlink(hdr);
	rmdir(path);
	mkdir(dir, 0755);
	int how = (int)R.u(16), st;
	std::vector<char> out;
	Dim3 d = R.p(30) ? Dim3{R.range(20, 50), R.range(20, 50), R.range(4, 9)} : Dim3{R.range(1, 9), R.range(1, 9), R.range(1, 9)};   // within and beyond the stdio buffer
	int type = R.pick(ALL_TYPES);
	const char* il = ILS[R.u(3)];
	size_t bytes = (size_t)d.S * d.L * d.B * esize(type);
	sig(how); sig(d.S); sig(d.L); sig(d.B); sig(type);
	const char* what = "";
	if (how < 6) {
		hyper_mat m = in_hm(R, d, type, il, false);
		random_wave(R, m->wavelength, d.B);
		watch_hm(m, "saved cube");
		size_t lim = 0;
		if (how == 0) { what = "hmsave to a full device"; if (symlink("/dev/full", path)) _exit(97); }
		if (how == 1) { what = "hmsave with the header on a full device"; if (symlink("/dev/full", hdr)) _exit(97); }
		if (how == 2) { what = "hmsave into a missing directory"; snprintf(path, sizeof path, "%s", scratch("missing/dir/cube")); }
		if (how == 3) { what = "hmsave over a directory"; mkdir(path, 0755); }
		if (how == 4) { what = "hmsave with a directory in place of the header"; mkdir(hdr, 0755); }
		if (how == 5) { what = "hmsave beyond the file size limit"; lim = R.u(bytes); }
		st = in_child([&] { if (how == 5) file_limit(lim); hmsave(path, m); }, out);
	} else if (how < 9) {
		simple_mat m = in_u8(R, {R.range(1, 90), R.range(1, 90)}, R.p(50) ? 1 : 3);
		size_t lim = 0;
		if (how == 6) { what = "smwrite_bmp to a full device"; if (symlink("/dev/full", path)) _exit(97); }
		if (how == 7) { what = "smwrite_bmp into a missing directory"; snprintf(path, sizeof path, "%s", scratch("missing/dir/x.bmp")); }
		if (how == 8) { what = "smwrite_bmp beyond the file size limit"; lim = R.u(54 + (size_t)m->rows * ((m->cols * 3 + 3) / 4 * 4)); }
		st = in_child([&] { if (how == 8) file_limit(lim); smwrite_bmp(path, m); }, out);
	} else if (how == 9) {
		what = "writehdr to a full device";
		if (symlink("/dev/full", hdr)) _exit(97);
		float w[9] = {0};
		st = in_child([&] { writehdr(path, d.S, d.L, d.B < 9 ? d.B : 9, type, il, R.p(70) ? w : NULL); }, out);
	} else if (how == 10) {
		what = "hmread_with_hdr of a short image";
		float* w = raw<float>(d.B);
		Str t = hdr_text(R, d, type, il, w);
		std::vector<unsigned char> v(bytes, 1);
		put_file(path, v.data(), R.p(40) ? bytes - 1 : R.u(bytes));
		put_file(hdr, t);
		st = in_child([&] { hmread_with_hdr(path, hdr); }, out);
	} else if (how == 11) {
		what = "hmread_with_size of a short image";
		std::vector<unsigned char> v(bytes, 1);
		put_file(path, v.data(), R.p(40) ? bytes - 1 : R.u(bytes));
		st = in_child([&] { hmread_with_size(path, d.S, d.L, d.B, type, il); }, out);
	} else if (how == 12) {
		int ch = R.range(1, 4);
		size_t n = (size_t)d.S * d.L * ch * esize(type);
		std::vector<unsigned char> v(n, 1);
		what = R.p(30) ? "smread of a missing file" : "smread of a short file";
		if (what[12] == 's') put_file(path, v.data(), R.p(40) ? n - 1 : R.u(n));
		st = in_child([&] { smread(path, d.S, d.L, type, ch); }, out);
	} else if (how == 13) {
		what = "smread_bmp of a missing file";
		if (R.p(70)) {
			what = "smread_bmp of a truncated file";
			Bmp b = {R.range(1, 40), R.range(1, 40), R.p(50) ? 8 : 24, 40, 0, 0};
			std::vector<unsigned char> w((size_t)b.w * b.h * 3);
			Str t = bmp_text(R, b, w.data());
			put_file(path, t.substr(0, R.p(40) ? t.size() - 1 : R.u(t.size())));
		}
		st = in_child([&] { smread_bmp(path); }, out);
	} else if (how == 14) {
		what = "read_spectrum_file of a missing file";
		st = in_child([&] { free(read_spectrum_file(path, d.S)); }, out);
	} else {
		what = "a directory in place of the image";
		mkdir(path, 0755);
		int w = (int)R.u(3);
		st = in_child([&] {
			if (w == 0) hmread_with_size(path, d.S, d.L, d.B, type, il);
			else if (w == 1) smread(path, d.S, d.L, type, 1);
			else smread_bmp(path);
		}, out);
	}
	desc("%s, cube %dx%dx%d type %d", what, d.S, d.L, d.B, type);
	seen("%s", what);
	req_rejected(st, out, what);
	// the truncated image must not have been touched by a reader; scratch is emptied
	unlink(path);
	rmdir(path);
	unlink(hdr);
	rmdir(hdr);
}
