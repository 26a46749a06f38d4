// Helpers of the file scenarios.
#pragma once
#include "h.h"
#include <sys/resource.h>
#include <sys/stat.h>
#include <signal.h>
#include <unistd.h>
#include <stdarg.h>
#include <string>
#include <map>
typedef std::string Str;
void alloc_cap(size_t n);
#pragma GCC diagnostic ignored "-Wunused-function"

static void put_file(const char* path, const void* p, size_t n)
{
	unlink(path);
	FILE* f = fopen(path, "wb");
	if (!f || (n && fwrite(p, 1, n, f) != n) || fclose(f) != 0) { perror(path); _exit(97); }
}
static void put_file(const char* path, const Str& s) { put_file(path, s.data(), s.size()); }
static bool get_file(const char* path, std::vector<unsigned char>& v)
{
	v.clear();
	FILE* f = fopen(path, "rb");
	if (!f) return false;
	unsigned char b[65536];
	size_t n;
	while ((n = fread(b, 1, sizeof b, f)) > 0) v.insert(v.end(), b, b + n);
	fclose(f);
	return true;
}
static void req_file(const char* path, const void* want, size_t n, const char* what)
{
	std::vector<unsigned char> v;
	REQ(get_file(path, v), "%s: the file was not written", what);
	REQ(v.size() == n, "%s: the file has %zu bytes, not %zu", what, v.size(), n);
	if (n) req_bytes(v.data(), want, n, what);
}
static Str fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
static Str fmt(const char* f, ...)
{
	char b[600];
	va_list a;
	va_start(a, f);
	vsnprintf(b, sizeof b, f, a);
	va_end(a);
	return b;
}
static Str trim(const Str& s)
{
	size_t a = s.find_first_not_of(" \t\r\n"), b = s.find_last_not_of(" \t\r\n");
	return a == Str::npos ? "" : s.substr(a, b - a + 1);
}
// an ENVI header: item -> value (without its braces)
static bool parse_hdr(const char* path, std::map<Str, Str>& h)
{
	std::vector<unsigned char> v;
	h.clear();
	if (!get_file(path, v)) return false;
	Str t(v.begin(), v.end());
	size_t p = t.find('\n');
	if (trim(t.substr(0, p)) != "ENVI") return false;
	while (p != Str::npos) {
		size_t e = t.find('=', ++p);
		if (e == Str::npos) break;
		Str key = trim(t.substr(p, e - p));
		size_t q = t.find_first_not_of(" \t", e + 1);
		if (q == Str::npos) q = t.size();
		if (q < t.size() && t[q] == '{') {
			size_t c = t.find('}', q);
			if (c == Str::npos) return false;
			h[key] = t.substr(q + 1, c - q - 1);
			p = t.find('\n', c);
		} else {
			size_t c = t.find('\n', q);
			h[key] = trim(t.substr(q, c == Str::npos ? Str::npos : c - q));
			p = c;
		}
	}
	return true;
}
static void req_wave(const float* got, const float* want, int B, const char* what)
{
	REQ(got != NULL, "%s: no wavelengths", what);
	need_init(got, B * sizeof(float), what);
	for (int k = 0; k < B; k++) {
		double w = want ? want[k] : 0;
		if (!(fabs(got[k] - w) <= 1e-6 + 1.3e-7 * fabs(w))) fail("value", "%s: wavelength %d is %.9g, not %.9g", what, k, got[k], w);
	}
	compared(B);
}
static void random_wave(Rng& R, float* w, int B)
{
	int mode = (int)R.u(7);
	for (int k = 0; k < B; k++)
		w[k] = mode == 4 ? (float)(R.real(-1, 1) * pow(10, R.range(-7, 30))) : mode == 5 ? (float)R.range(0, 20000000) : mode == 6 ? (float)(R.real(0, 1) * pow(10, R.range(0, 12))) : mode == 0 ? 400 + k * 2.5f : mode == 1 ? (float)R.range(0, 64000) / 64 : mode == 2 ? (float)R.real(0, 3) : (float)R.real(0, 20000);
	wave_shape(R, w, B);
}
static Dim3 file_dim(Rng& R)
{
	Dim3 d = R.p(6) ? dim3(R, 40000) : dim3(R, 3000);
	if (long_axes()) std::swap(d.B, d.S);        // the text of millions of wavelengths takes too long under a sanitizer
	if (long_axes() && d.B > 100000) std::swap(d.B, d.L);
	return d;
}

// text of a header in one of the forms ENVI allows. wave: the values to expect
static Str hdr_text(Rng& R, Dim3 d, int type, const char* il, float* wave)
{
	const char* nl = R.p(20) ? "\r\n" : "\n";
	if (nl[0] == '\r') seen("CRLF");
	std::vector<Str> items;
	static const char* EQ[4] = {" = ", "=", "  =  ", "= "};
	static const char* IN[3] = {"", "", "  "};
#define EQS R.pick(EQ)
#define INS R.pick(IN)
	items.push_back(Str(INS) + "samples" + EQS + fmt("%d", d.S));
	items.push_back(Str(INS) + "lines" + EQS + fmt("%d", d.L));
	items.push_back(Str(INS) + "bands" + EQS + fmt("%d", d.B));
	items.push_back(Str(INS) + "data type" + EQS + fmt("%d", type));
	items.push_back(Str(INS) + "interleave" + EQS + il);
	static const char* EXTRA[] = {"description = {File imported into ENVI}", "header offset = 0", "file type = ENVI Standard", "sensor type = Unknown", "byte order = 0",
		"default bands = {17,9,5}", "wavelength units = Nanometers", "samples offset = 7", "lines per tile = 12", "bands order = {3, 2, 1}", "data type name = 99",
		"interleave mode = bsq", "fwhm = {1.5, 2.5}", "map info = {UTM, 1.0, 1.0, 500000.0, 4000000.0, 30.0, 30.0}", "band names = {Band 1, Band 2}", "x start = 1"};
	for (int e = 0, n = R.range(0, 5); e < n; e++) items.push_back(R.pick(EXTRA));
	if (R.p(20)) items.push_back("description = {\n  a cube}");
	for (int k = 0; k < d.B; k++) wave[k] = 0;
	int wm = (int)R.u(8);
	if (wm == 0) { items.push_back("wavelength = unknown"); seen("wavelength unknown"); }
	else if (wm == 1) seen("no wavelength item");
	else {
		int n = d.B;
		if (wm == 2) { n = R.range(1, d.B); seen("fewer wavelengths than bands"); }
		if (wm == 3) { n = d.B + R.range(1, 4); seen("more wavelengths than bands"); }
		Str w = Str(INS) + "wavelength" + EQS + "{";
		int every = wm >= 6 ? 0 : wm == 5 ? 1 : R.range(1, 8);
		if (R.p(30)) w += "\n ";
		if (every == 1 || every > 1) seen("wavelengths on several lines"); else seen("wavelengths on one line");
		for (int k = 0; k < n; k++) {
			int v = R.range(0, 1 << 20);
			double x = v / 64.0;
			if (k < d.B) wave[k] = (float)x;
			w += fmt(R.p(30) ? " %.6f" : R.p(50) ? "%.8g" : " %.10g ", x);
			if (k + 1 < n) { w += ","; if (every && k % every == every - 1) w += "\n"; }
		}
		if (R.p(20)) w += "\n";
		w += "}";
		if (w.size() > 10000 && !every) seen("header line over 10000 bytes");
		items.push_back(w);
	}
	for (size_t i = items.size(); i > 1; i--) std::swap(items[i - 1], items[R.u(i)]);
	Str t = Str("ENVI") + nl;
	for (size_t i = 0; i < items.size(); i++) {
		for (size_t k = 0; k < items[i].size(); k++) if (items[i][k] == '\n') t += nl; else t += items[i][k];
		if (i + 1 < items.size() || R.p(80)) t += nl;
	}
	return t;
}

static void mutate(Rng& R, Str& t)
{
	static const char* TOK[] = {"=", "{", "}", ",", "\n", "\r", "\0", "samples", "lines = 4", "wavelength = {", "-1", "0", "99999999999999999999", "2147483647", "-2147483648",
		"bands", "interleave = ", "data type = 5", "nan", "1e999", "interleave = bsqbsqbsqbsqbsqbsqbsq\n", "ENVI", " ", "\t", "%s%n"};
	int n = R.range(1, 5);
	for (int k = 0; k < n; k++) {
		size_t at = R.u(t.size() + 1);
		switch (R.u(8)) {
		case 0: t = t.substr(0, at); break;
		case 1: t.erase(at, R.range(1, 30)); break;
		case 2: if (at < t.size()) t[at] = (char)R.u(256); break;
		case 3: if (at < t.size()) t[at] ^= (char)(1 << R.u(8)); break;
		case 4: t.insert(at, R.pick(TOK)); break;
		case 5: t.insert(at, Str(R.range(1, 400), (char)(R.p(50) ? 32 + R.u(95) : R.u(256)))); break;
		case 6: if (t.size() < 60000) t.insert(at, Str(R.range(9000, 21000), (char)"7 ,a{"[R.u(5)])); break;
		case 7: if (t.size() < 60000) { size_t m = R.u(200); t.insert(at, t.substr(R.u(t.size() + 1), m)); } break;
		}
	}
}
// the outcome of reading a malformed file: refused with a message, or a complete result
static void req_sound(int status, const std::vector<char>& out, const char* what)
{
	compared();
	seen("%s %s", what, status == 0 ? "accepted" : "refused");
	if (status == 0) return;
	if (status == 3) fail("value", "%s: accepted with a result that is not complete: %.150s", what, out.data());
	const char* rep = strstr(out.data(), "ERROR: AddressSanitizer");
	if (!rep) rep = strstr(out.data(), "runtime error");
	if (status == 1 && !rep) {
		if (!strstr(out.data(), "ERROR: ")) fail("reject", "%s: exit status 1 without an ERROR: message", what);
		return;
	}
	fail("reject", "%s: ended with status %d instead of a result or an ERROR: message %.200s", what, status, rep ? rep : "");
}
static volatile unsigned g_sink;
static void touch(const void* p, size_t n) { unsigned s = 0; for (size_t i = 0; i < n; i++) s += ((const unsigned char*)p)[i]; need_init(p, n, "result of a malformed file"); g_sink = s; }

static void file_limit(size_t n)
{
	struct rlimit r = {(rlim_t)n, (rlim_t)n};
	signal(SIGXFSZ, SIG_IGN);
	setrlimit(RLIMIT_FSIZE, &r);
}
