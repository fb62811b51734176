// Common parts of the replay driver: exact oracle independent of the library under test.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <cfloat>
#include <climits>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <stdexcept>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <gmpxx.h>
#include <flint/flint.h>
#include <flint/fmpz.h>
#include <flint/fmpz_vec.h>
#include <flint/fmpq.h>
#include <flint/fmpz_poly.h>
#include <flint/fmpq_poly.h>
#include <flint/arb.h>
#include <flint/arb_poly.h>
#include <flint/nf.h>
#include <flint/nf_elem.h>
#include "e-antic/renf.h"
#include "e-antic/renf_elem.h"
#include "e-antic/fmpz_poly_extra.h"
#include "e-antic/fmpq_poly_extra.h"

extern "C" size_t __sanitizer_get_current_allocated_bytes(void);

using std::string;
using std::vector;
typedef std::map<string, string> Sc;

struct Viol { string kind, msg; };
struct Invalid { string why; };

[[noreturn]] inline void viol(const string &k, const string &m) { throw Viol{k, m}; }
[[noreturn]] inline void invalid(const string &m) { throw Invalid{m}; }
inline void need(bool c, const string &k, const string &m) { if (!c) viol(k, m); }

inline string get(const Sc &s, const string &k, const string &d = "") { auto i = s.find(k); return i == s.end() ? d : i->second; }
inline bool has(const Sc &s, const string &k) { return s.count(k) != 0; }
inline vector<string> split(const string &s, char c) {
  vector<string> r; size_t p = 0;
  if (s.empty()) return r;
  while (true) { size_t q = s.find(c, p); if (q == string::npos) { r.push_back(s.substr(p)); return r; } r.push_back(s.substr(p, q - p)); p = q + 1; }
}

// RAII wrappers
struct Z { fmpz_t v; Z() { fmpz_init(v); } Z(const string &s) { fmpz_init(v); if (fmpz_set_str(v, s.c_str(), 10)) invalid("integer " + s); } Z(const Z &o) { fmpz_init_set(v, o.v); } Z &operator=(const Z &o) { fmpz_set(v, o.v); return *this; } ~Z() { fmpz_clear(v); } };
struct Q { fmpq_t v; Q() { fmpq_init(v); }
  Q(const string &s) { fmpq_init(v); auto p = split(s, '/'); Z n(p.at(0)); if (p.size() > 1) { Z d(p[1]); if (fmpz_is_zero(d.v)) invalid("zero denominator"); fmpz_set(fmpq_numref(v), n.v); fmpz_set(fmpq_denref(v), d.v); fmpq_canonicalise(v); } else fmpq_set_fmpz(v, n.v); }
  Q(const Q &o) { fmpq_init(v); fmpq_set(v, o.v); } Q &operator=(const Q &o) { fmpq_set(v, o.v); return *this; } ~Q() { fmpq_clear(v); } };
struct P { fmpq_poly_t v; P() { fmpq_poly_init(v); } P(const P &o) { fmpq_poly_init(v); fmpq_poly_set(v, o.v); } P &operator=(const P &o) { fmpq_poly_set(v, o.v); return *this; } ~P() { fmpq_poly_clear(v); }
  // "c0,c1,.../den"
  P(const string &s) { fmpq_poly_init(v); auto p = split(s, '/'); auto c = split(p.at(0), ','); for (size_t i = 0; i < c.size(); i++) { Z z(c[i]); fmpq_poly_set_coeff_fmpz(v, i, z.v); } if (p.size() > 1) { Z d(p[1]); if (fmpz_is_zero(d.v)) invalid("den"); fmpq_poly_scalar_div_fmpz(v, v, d.v); } } };
struct B { arb_t v; B() { arb_init(v); } B(const B &o) { arb_init(v); arb_set(v, o.v); } B &operator=(const B &o) { arb_set(v, o.v); return *this; } ~B() { arb_clear(v); } };

inline string show(const P &p) { char *s = fmpq_poly_get_str_pretty(p.v, "x"); string r(s); flint_free(s); return r; }
inline string show(const Q &q) { char *s = fmpq_get_str(NULL, 10, q.v); string r(s); flint_free(s); return r; }
inline string show(const Z &q) { char *s = fmpz_get_str(NULL, 10, q.v); string r(s); flint_free(s); return r; }
inline string show(const arb_t b) { char *s = arb_get_str(b, 30, ARB_STR_MORE); string r(s); flint_free(s); return r; }

// "mid:rad" (rationals), "inf", "nan"; mid rounded to many bits, radius rounded up
inline void set_ball(arb_t b, const string &s) {
  if (s == "inf") { arb_zero_pm_inf(b); return; }
  if (s == "nan") { arb_indeterminate(b); return; }
  auto p = split(s, ':');
  Q m(p.at(0)), r(p.at(1));
  arf_t t; arf_init(t);
  int inex = arf_set_fmpq(arb_midref(b), m.v, 600, ARF_RND_NEAR);
  arf_set_fmpq(t, r.v, 64, ARF_RND_UP);
  arf_get_mag(arb_radref(b), t);
  if (inex && mag_is_zero(arb_radref(b))) { arf_mag_set_ulp(arb_radref(b), arb_midref(b), 600); }
  arf_clear(t);
}

// A real algebraic number: polynomial with an isolating rational interval; enclosures by exact bisection.
struct Root {
  P pol; Q lo, hi; int sl = 0; bool exact = false;
  Root(const P &p, const Q &l, const Q &h) : pol(p), lo(l), hi(h) {
    Q a, b; fmpq_poly_evaluate_fmpq(a.v, pol.v, lo.v); fmpq_poly_evaluate_fmpq(b.v, pol.v, hi.v);
    if (fmpq_poly_degree(pol.v) == 1) { // exact root
      Q c0, c1; fmpq_poly_get_coeff_fmpq(c0.v, pol.v, 0); fmpq_poly_get_coeff_fmpq(c1.v, pol.v, 1);
      fmpq_div(lo.v, c0.v, c1.v); fmpq_neg(lo.v, lo.v); fmpq_set(hi.v, lo.v); exact = true; return; }
    sl = fmpq_sgn(a.v);
    if (sl == 0) { hi = lo; exact = true; return; }
    if (fmpq_sgn(b.v) == 0) { lo = hi; exact = true; return; }
    if (sl * fmpq_sgn(b.v) >= 0) invalid("interval does not isolate a root");
  }
  void refine(slong bits) {
    if (exact) return;
    Q w, m, t, eps; fmpq_set_si(eps.v, 1, 1); fmpq_div_2exp(eps.v, eps.v, bits);
    while (true) {
      fmpq_sub(w.v, hi.v, lo.v);
      if (fmpq_cmp(w.v, eps.v) <= 0) return;
      fmpq_add(m.v, lo.v, hi.v); fmpq_div_2exp(m.v, m.v, 1);
      fmpq_poly_evaluate_fmpq(t.v, pol.v, m.v);
      int s = fmpq_sgn(t.v);
      if (s == 0) { lo = m; hi = m; exact = true; return; }
      if (s == sl) lo = m; else hi = m;
    }
  }
  void enclosure(arb_t b, slong bits) {
    refine(bits);
    Q m, r; fmpq_add(m.v, lo.v, hi.v); fmpq_div_2exp(m.v, m.v, 1); fmpq_sub(r.v, hi.v, lo.v); fmpq_div_2exp(r.v, r.v, 1);
    arf_t t; arf_init(t);
    arf_set_fmpq(t, r.v, 64, ARF_RND_UP);
    int inex = arf_set_fmpq(arb_midref(b), m.v, bits + 64, ARF_RND_NEAR);
    arf_get_mag(arb_radref(b), t);
    if (inex) { mag_t u; mag_init(u); arf_mag_set_ulp(u, arb_midref(b), bits + 64); mag_add(arb_radref(b), arb_radref(b), u); mag_clear(u); }
    arf_clear(t);
  }
};

// Exact value in Q(alpha)
struct Val {
  Root *r; P p;
  Val(Root *r_, const P &q) : r(r_), p(q) { reduce(); }
  void reduce() { if (fmpq_poly_degree(r->pol.v) == 1) { Q t; fmpq_poly_evaluate_fmpq(t.v, p.v, r->lo.v); fmpq_poly_set_fmpq(p.v, t.v); } else fmpq_poly_rem(p.v, p.v, r->pol.v); }
  bool zero() const { return fmpq_poly_is_zero(p.v); }
  bool rational() const { return fmpq_poly_degree(p.v) <= 0; }
  Q rat() const { Q q; fmpq_poly_get_coeff_fmpq(q.v, p.v, 0); return q; }
  bool eq(const Val &o) const { return fmpq_poly_equal(p.v, o.p.v); }
  // enclosure with rational end points of width about 2^-bits
  void encl(arb_t b, slong bits) {
    slong extra = 0; slong n = fmpq_poly_length(p.v);
    for (slong i = 0; i < n; i++) extra = FLINT_MAX(extra, (slong)fmpz_bits(p.v->coeffs + i));
    extra += 64; B a; r->enclosure(a.v, bits + extra);
    slong mb = FLINT_MAX(0, (slong)arf_abs_bound_lt_2exp_si(arb_midref(a.v))) ;
    slong d = fmpq_poly_degree(r->pol.v) + 1;
    r->enclosure(a.v, bits + extra + mb * d);
    slong prec = bits + 2 * extra + 2 * mb * d + 64;
    arb_zero(b);
    for (slong i = n - 1; i >= 0; i--) { arb_mul(b, b, a.v, prec); arb_add_fmpz(b, b, p.v->coeffs + i, prec); }
    arb_div_fmpz(b, b, p.v->den, prec);
  }
  int sgn() {
    if (zero()) return 0;
    if (rational()) { Q q = rat(); return fmpq_sgn(q.v); }
    for (slong bits = 64;; bits *= 2) { B b; encl(b.v, bits); if (arb_is_positive(b.v)) return 1; if (arb_is_negative(b.v)) return -1; if (bits > 200000) invalid("sign needs too much precision"); }
  }
  Z floor() {
    Z z; if (rational()) { Q q = rat(); fmpz_fdiv_q(z.v, fmpq_numref(q.v), fmpq_denref(q.v)); return z; }
    for (slong bits = 64;; bits *= 2) { B b; encl(b.v, bits); arb_floor(b.v, b.v, ARF_PREC_EXACT); if (arb_get_unique_fmpz(z.v, b.v)) return z; if (bits > 200000) invalid("floor needs too much precision"); }
  }
  string str() const { return show(p); }
};
inline Val operator+(const Val &a, const Val &b) { P r; fmpq_poly_add(r.v, a.p.v, b.p.v); return Val(a.r, r); }
inline Val operator-(const Val &a, const Val &b) { P r; fmpq_poly_sub(r.v, a.p.v, b.p.v); return Val(a.r, r); }
inline Val operator*(const Val &a, const Val &b) { P r; fmpq_poly_mul(r.v, a.p.v, b.p.v); return Val(a.r, r); }
inline Val inv(const Val &a) {
  if (a.zero()) invalid("division by zero");
  P r;
  if (a.rational()) { Q q = a.rat(); fmpq_inv(q.v, q.v); fmpq_poly_set_fmpq(r.v, q.v); return Val(a.r, r); }
  P g, s, t; fmpq_poly_xgcd(g.v, s.v, t.v, a.p.v, a.r->pol.v);
  if (fmpq_poly_degree(g.v) != 0) invalid("polynomial is not irreducible");
  return Val(a.r, s);
}
inline Val operator/(const Val &a, const Val &b) { return a * inv(b); }
inline Val cst(Root *r, const Q &q) { P p; fmpq_poly_set_fmpq(p.v, q.v); return Val(r, p); }

// correct rounding of a rational to a double; modes as arf_rnd_t reduced to FLOOR, CEIL, NEAR. Returns +-inf beyond the range.
inline double round_q(const Q &x, int mode) {
  if (fmpq_is_zero(x.v)) return 0.;
  Q a(x); int neg = fmpq_sgn(x.v) < 0; fmpq_abs(a.v, a.v);
  if (neg) mode = mode == ARF_RND_FLOOR ? ARF_RND_CEIL : mode == ARF_RND_CEIL ? ARF_RND_FLOOR : mode;
  slong e = (slong)fmpz_bits(fmpq_numref(a.v)) - (slong)fmpz_bits(fmpq_denref(a.v)) - 1; // 2^e <= a < 2^(e+2)
  Q t; fmpq_set_si(t.v, 1, 1);
  if (e + 1 >= 0) fmpq_mul_2exp(t.v, t.v, e + 1); else fmpq_div_2exp(t.v, t.v, -(e + 1));
  if (fmpq_cmp(a.v, t.v) >= 0) e++;
  if (e < -1022) e = -1022;
  slong u = e - 52;
  Q s(a); if (u >= 0) fmpq_div_2exp(s.v, s.v, u); else fmpq_mul_2exp(s.v, s.v, -u);
  Z n; fmpz_fdiv_q(n.v, fmpq_numref(s.v), fmpq_denref(s.v));
  Q f; fmpq_sub_fmpz(f.v, s.v, n.v);
  if (mode == ARF_RND_CEIL) { if (!fmpq_is_zero(f.v)) fmpz_add_ui(n.v, n.v, 1); }
  else if (mode == ARF_RND_NEAR) { Q h("1/2"); int c = fmpq_cmp(f.v, h.v); if (c > 0 || (c == 0 && fmpz_is_odd(n.v))) fmpz_add_ui(n.v, n.v, 1); }
  double d = ldexp(fmpz_get_d(n.v), (int)FLINT_MIN(u, 4000));
  return neg ? -d : d;
}

string run_scenario(const Sc &s);
typedef void (*OpFn)(const Sc &);
std::map<string, OpFn> &ops();
struct Reg { Reg(const char *n, OpFn f) { ops()[n] = f; } };
