// Satellite orbits from broadcast elements.
#include "h.h"
#include <stdlib.h>
#include <math.h>
extern "C" {
#include "satellite/hypercv_satellite.h"
sat_orbit hypercv_create_orbit(long double, long double, long double, long double, long double, long double, long double, long double, long double,
	long double, long double, long double, long double, long double, long double, long double, long double) __attribute__((weak));
ECEF get_satellite_position_ecef(sat_orbit orb) __attribute__((weak));
}
typedef long double ld;
struct El { ld a, e, omega, w, M0, i0, idot, dn, toe, t, cus, cuc, crs, crc, cis, cic, od; };

// position from the elements: Kepler's equation by Newton's method, then three rotations of the vector in the orbital plane
static void position(const El& x, ld p[3], ld* scale)
{
	ld tk = x.t - x.toe;
	ld n = sqrtl(3.986005e14L / (x.a * x.a * x.a)) + x.dn;
	ld M = x.M0 + n * tk, E = M;
	for (int k = 0; k < 50; k++) E -= (E - x.e * sinl(E) - M) / (1 - x.e * cosl(E));
	ld cv = (cosl(E) - x.e) / (1 - x.e * cosl(E)), sv = sqrtl(1 - x.e * x.e) * sinl(E) / (1 - x.e * cosl(E));
	ld phi = atan2l(sv, cv) + x.w;
	ld u = phi + x.cus * sinl(2 * phi) + x.cuc * cosl(2 * phi);
	ld r = x.a * (1 - x.e * cosl(E)) + x.crs * sinl(2 * phi) + x.crc * cosl(2 * phi);
	ld i = x.i0 + x.idot * tk + x.cis * sinl(2 * phi) + x.cic * cosl(2 * phi);
	ld O = x.omega + (x.od - 7.2921151467e-5L) * tk - 7.2921151467e-5L * x.toe;
	ld v[3] = {r * cosl(u), r * sinl(u), 0};
	ld q[3] = {v[0], v[1] * cosl(i), v[1] * sinl(i)};
	p[0] = q[0] * cosl(O) - q[1] * sinl(O);
	p[1] = q[0] * sinl(O) + q[1] * cosl(O);
	p[2] = q[2];
	*scale = 10 + fabsl(M) + fabsl(O) + fabsl(u);
}
static sat_orbit make(const El& x)
{
	return hypercv_create_orbit(x.a, x.e, x.omega, x.w, x.M0, x.i0, x.idot, x.dn, x.toe, x.t, x.cus, x.cuc, x.crs, x.crc, x.cis, x.cic, x.od);
}
static El elements(Rng& R)
{
	El x;
	const double HALF = 3.14159265358979323846;
	x.a = R.p(60) ? R.real(2.6e7, 2.66e7) : R.real(6.6e6, 4.3e7);
	int em = (int)R.u(5);
	x.e = em == 0 ? 0 : em == 1 ? R.real(0.03, 0.1) : R.real(0, 0.03);
	x.omega = R.real(-HALF, HALF); x.w = R.real(-HALF, HALF); x.M0 = R.p(10) ? 0 : R.real(-HALF, HALF);
	x.i0 = R.p(60) ? R.real(0.9, 1.0) : R.real(0, HALF); x.idot = R.p(20) ? 0 : R.real(-1e-9, 1e-9);
	x.dn = R.p(20) ? 0 : R.real(-1e-8, 1e-8);
	x.toe = R.p(20) ? 0 : 7200.0 * R.range(0, 83);
	x.t = x.toe + (R.p(10) ? 0 : R.p(70) ? R.real(-7200, 7200) : R.real(-302400, 302400));
	double big = R.p(15) ? 0 : 1;
	x.cus = big * R.real(-2e-5, 2e-5); x.cuc = big * R.real(-2e-5, 2e-5);
	x.crs = big * R.real(-400, 400); x.crc = big * R.real(-400, 400);
	x.cis = big * R.real(-5e-7, 5e-7); x.cic = big * R.real(-5e-7, 5e-7);
	x.od = R.p(20) ? 0 : R.real(-1e-8, 1e-8);
	return x;
}
static void check_pos(const El& x, sat_orbit o)
{
	ECEF c = get_satellite_position_ecef(o);
	ld p[3], sc;
	position(x, p, &sc);
	ld tol = x.a * (4e-15L * sc + 4 * powl(x.e, 10)) + 1e-6L;
	double g[3] = {c.ecefx, c.ecefy, c.ecefz};
	need_init(g, sizeof g, "position");
	digest(g, sizeof g);
	for (int k = 0; k < 3; k++)
		if (!(fabsl(g[k] - p[k]) <= tol)) fail("value", "coordinate %d of the position is %.6f m, not %.6Lf m (tolerance %.2Lg)", k, g[k], p[k], tol);
	compared(3);
}

SC(sat_position, 1500, 0)
{
	NEED(hypercv_create_orbit && get_satellite_position_ecef);
	El x = elements(R);
	desc("orbit a=%.0Lf e=%.4Lf toe=%.0Lf t=%.1Lf", x.a, x.e, x.toe, x.t);
	sig((uint64_t)x.a); sig((uint64_t)(x.e * 1e9)); sig((uint64_t)(x.t * 1000)); sig(R.s);
	seen("%s, %s", x.e == 0 ? "circular" : x.e < 0.03 ? "nearly circular" : "eccentric", x.t == x.toe ? "at the reference time" : fabsl(x.t - x.toe) <= 7200 ? "within two hours" : "within half a week");
	sat_orbit o = make(x);
	REQ(o != NULL, "no orbit");
	SATELLITE_ORBIT keep = *o;
	check_pos(x, o);
	check_pos(x, o);                 // asking changes nothing
	const ld* f[17] = {&o->as, &o->es, &o->omega, &o->ws, &o->M0, &o->i0, &o->idot, &o->delta_n, &o->toe, &o->t, &o->cus, &o->cuc, &o->crs, &o->crc, &o->cis, &o->cic, &o->omegadot};
	const ld* w = &x.a;
	static const char* N[17] = {"a", "e", "omega", "w", "M0", "i0", "idot", "delta n", "toe", "t", "cus", "cuc", "crs", "crc", "cis", "cic", "omegadot"};
	for (int k = 0; k < 17; k++) if (*f[k] != w[k]) fail("value", "element %s of the orbit is %.17Lg, not %.17Lg", N[k], *f[k], w[k]);
	if (o->r != keep.r || o->uk != keep.uk || o->ik != keep.ik || o->omegak != keep.omegak) fail("modified", "asking for the position changed the orbit");
	compared(17);
	free(o);
}

SC(sat_history, 200, 0)
{
	NEED(hypercv_create_orbit && get_satellite_position_ecef);
	sat_orbit o[6] = {0};
	El x[6];
	int n = R.range(4, 30);
	desc("orbit history of %d steps", n);
	sig(R.s); sig(n);
	for (int k = 0; k < n; k++) {
		int i = R.u(6);
		if (!o[i]) { x[i] = elements(R); o[i] = make(x[i]); REQ(o[i] != NULL, "no orbit"); for (int j = 0; j < 6; j++) if (j != i) REQ(o[j] != o[i], "two orbits are one"); seen("created"); }
		else if (R.p(30)) { free(o[i]); o[i] = NULL; seen("freed"); }
		for (int j = 0; j < 6; j++) if (o[j]) check_pos(x[j], o[j]);
	}
	for (int j = 0; j < 6; j++) free(o[j]);
}
