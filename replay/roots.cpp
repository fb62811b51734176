// Root bounds, counts and isolation: replays against an own Sturm count.
#include "field.h"
slong count_closed(const P &p, const Q &l, const Q &h);
slong count_all(const P &p);

static slong L(const Sc &s, const string &k, slong d) { return has(s, k) ? atol(get(s, k).c_str()) : d; }
static bool squarefree(const P &p) { P d, g; fmpq_poly_derivative(d.v, p.v); fmpq_poly_gcd(g.v, p.v, d.v); return fmpq_poly_degree(g.v) <= 0; }
struct ZP {
  fmpz_poly_t z, z0; P p;
  ZP(const Sc &s, bool any = false) : p(get(s, "pol")) {
    if (fmpq_poly_degree(p.v) < 0) invalid("zero");
    bool sf = fmpq_poly_degree(p.v) < 1 || squarefree(p);
    if (!any && !sf) invalid("not squarefree");
    fmpz_poly_init(z); fmpz_poly_init(z0); fmpq_poly_get_numerator(z, p.v); fmpz_poly_set(z0, z);
    if (!sf) { P d, g; fmpq_poly_derivative(d.v, p.v); fmpq_poly_gcd(g.v, p.v, d.v); fmpq_poly_div(p.v, p.v, g.v); } }
  ~ZP() { fmpz_poly_clear(z); fmpz_poly_clear(z0); }
  ZP(const ZP &) = delete;
  void frame() { need(fmpz_poly_equal(z, z0), "frame", "the polynomial changed"); }
  slong deg() { return fmpq_poly_degree(p.v); }
  Q at(const Q &x) { Q y; fmpq_poly_evaluate_fmpq(y.v, p.v, x.v); return y; }
  bool root(const Q &x) { return fmpq_is_zero(at(x).v); }
  slong closed(const Q &l, const Q &h) { return deg() < 1 ? 0 : count_closed(p, l, h); }
  slong all() { return deg() < 1 ? 0 : count_all(p); }
  slong open(const Q &l, const Q &h) { return closed(l, h) - (root(l) ? 1 : 0) - (root(h) ? 1 : 0); }
  slong bits() { slong b = 4; for (slong i = 0; i < z->length; i++) b += fmpz_bits(z->coeffs + i) + 1; return b; }
};
static Q two(slong k) { Q q; fmpq_set_si(q.v, 1, 1); if (k >= 0) fmpq_mul_2exp(q.v, q.v, k); else fmpq_div_2exp(q.v, q.v, -k); return q; }
static Q qi(slong k) { Q q; fmpq_set_si(q.v, k, 1); return q; }
static string S(slong x) { return std::to_string(x); }

static void descartes(const Sc &s) {
  ZP z(s, true); slong b = L(s, "bound", 2); if (b < 0) invalid("bound");
  slong r = _fmpz_poly_descartes_bound_0_1(z.z->coeffs, z.z->length, b); z.frame();
  slong n = z.open(qi(0), qi(1));
  if (r == WORD_MAX) return;
  need(r >= n && r >= 0, "value", "Descartes bound " + S(r) + " but " + S(n) + " roots in (0,1)");
  need(r <= b, "value", "Descartes bound " + S(r) + " above the limit " + S(b));
  if (r == 1) need(n == 1 || z.deg() != z.z->length - 1, "value", "Descartes bound 1 but no root in (0,1)");
}
static Reg r1("descartes01", descartes);

static void rootbound(const Sc &s) {
  ZP z(s, true); slong w = L(s, "which", 0); slong k;
  if (w == 0) { if (fmpz_is_zero(z.z->coeffs)) invalid("zero root"); k = _fmpz_poly_positive_root_upper_bound_2exp(z.z->coeffs, z.z->length); }
  else k = fmpz_poly_positive_root_upper_bound_2exp(z.z);
  z.frame();
  Q big = two(z.bits() + 2);
  if (k == WORD_MIN) { need(z.closed(qi(0), big) - (z.root(qi(0)) ? 1 : 0) == 0, "value", "no bound although there is a positive root"); return; }
  if (k > z.bits() + 2) return;
  if (k < -100000) viol("value", "absurd root bound");
  Q l = two(k);
  need(z.closed(l, big) - (z.root(l) ? 1 : 0) == 0, "value", "a positive root exceeds 2^" + S(k));
}
static Reg r2("rootbound", rootbound);

// checks an isolation against the closed/half open region [lo, hi] described by predicate counts
struct Out {
  slong n; vector<fmpq> ex; vector<fmpz> c; vector<slong> k; slong ne = 0, ni = 0;
  Out(slong m) : n(m + 2), ex(n), c(n), k(n, 424242) { for (auto &q : ex) { fmpq_init(&q); fmpq_set_si(&q, 77, 5); } for (auto &z : c) { fmpz_init(&z); fmpz_set_ui(&z, 1); fmpz_mul_2exp(&z, &z, 100); } }
  ~Out() { for (auto &q : ex) fmpq_clear(&q); for (auto &z : c) fmpz_clear(&z); }
  void judge(ZP &z, slong want, slong e0, slong i0, bool unit) {
    need(ne - e0 + ni - i0 == want, "value", "isolation: " + S(ne - e0) + " exact roots and " + S(ni - i0) + " intervals instead of " + S(want) + " roots");
    vector<Q> x;
    for (slong i = e0; i < ne; i++) { Q q; fmpq_set(q.v, &ex[i]); need(z.root(q), "value", "isolation: " + show(q) + " is not a root"); need(fmpq_is_canonical(&ex[i]), "value", "isolation: exact root is not in lowest terms"); if (!x.empty()) need(fmpq_cmp(x.back().v, q.v) < 0, "value", "isolation: exact roots are not increasing"); x.push_back(q); if (unit) need(fmpq_sgn(q.v) >= 0 && fmpq_cmp_si(q.v, 1) < 0, "value", "isolation: root outside [0,1)"); }
    Q last; bool first = true;
    for (slong i = i0; i < ni; i++) {
      if (k[i] == 424242 || FLINT_ABS(k[i]) > 100000) viol("value", "isolation: exponent " + S(k[i]));
      Q l, h, t = two(k[i]); fmpq_mul_fmpz(l.v, t.v, &c[i]); fmpq_add(h.v, l.v, t.v);
      need(z.open(l, h) == 1, "value", "isolation: interval " + show(l) + " " + show(h) + " contains " + S(z.open(l, h)) + " roots");
      if (!first) need(fmpq_cmp(last.v, l.v) <= 0, "value", "isolation: intervals are not disjoint and increasing"); first = false; last = h;
      for (auto &q : x) need(!(fmpq_cmp(l.v, q.v) < 0 && fmpq_cmp(q.v, h.v) < 0), "value", "isolation: exact root in an interval");
      if (unit) need(fmpq_sgn(l.v) >= 0 && fmpq_cmp_si(h.v, 1) <= 0, "value", "isolation: interval outside [0,1]");
    }
  }
};
static void iso01(const Sc &s) {
  ZP z(s); if (z.deg() < 1) invalid("degree"); Out o(z.deg() + 1); slong e0 = L(s, "start", 0); o.ne = e0;
  slong want = z.closed(qi(0), qi(1)) - (z.root(qi(1)) ? 1 : 0);
  _fmpz_poly_isolate_real_roots_0_1_vca(o.ex.data(), &o.ne, o.c.data(), o.k.data(), &o.ni, z.z->coeffs, z.z->length); z.frame();
  o.judge(z, want, e0, 0, true);
  slong a = 0, b = 0; _fmpz_poly_isolate_real_roots_0_1_vca(NULL, &a, NULL, NULL, &b, z.z->coeffs, z.z->length);
  need(a + b == want, "value", "isolation without arrays counts " + S(a + b) + " instead of " + S(want) + " roots");
}
static Reg r3("isolate01", iso01);
static void isol(const Sc &s) {
  ZP z(s); Out o(FLINT_MAX(z.deg(), 1)); slong want = z.all(); o.ne = o.ni = 5;
  fmpz_poly_isolate_real_roots(o.ex.data(), &o.ne, o.c.data(), o.k.data(), &o.ni, z.z); z.frame();
  o.judge(z, want, 0, 0, false);
  slong a = 9, b = 9; fmpz_poly_isolate_real_roots(NULL, &a, NULL, NULL, &b, z.z); z.frame();
  need(a + b == want, "value", "isolation without arrays counts " + S(a + b) + " instead of " + S(want) + " roots");
}
static Reg r4("isolate", isol);
static void upper(const Sc &s) { ZP z(s, true); slong r = fmpz_poly_num_real_roots_upper_bound(z.z); z.frame(); need(r >= z.all(), "value", "upper bound " + S(r) + " on the number of real roots, there are " + S(z.all())); }
static Reg r5("upper", upper);
static void count(const Sc &s) { ZP z(s); slong r = fmpz_poly_num_real_roots_vca(z.z); z.frame(); need(r == z.all(), "value", S(r) + " instead of " + S(z.all()) + " real roots"); }
static Reg r6("count", count);
static void count01(const Sc &s) {
  ZP z(s); slong w = L(s, "which", 0); if (z.deg() < 1 && w != 2) invalid("degree");
  slong r = w == 2 ? fmpz_poly_num_real_roots_0_1_sturm(z.z) : w == 1 ? fmpz_poly_num_real_roots_0_1_vca(z.z) : fmpz_poly_num_real_roots_0_1(z.z); z.frame();
  slong n = z.closed(qi(0), qi(1)) - (z.root(qi(1)) ? 1 : 0);
  need(r == n, "value", S(r) + " instead of " + S(n) + " real roots in [0,1)");
}
static Reg r7("count01", count01);
static void hasroot(const Sc &s) { ZP z(s); int r = fmpz_poly_has_real_root(z.z); z.frame(); need((r != 0) == (z.all() > 0), "value", "has_real_root answers " + S(r) + ", there are " + S(z.all())); }
static Reg r8("hasroot", hasroot);
static void scale01(const Sc &s) {
  ZP z(s); Q a(get(s, "a")), b(get(s, "b")); if (fmpq_cmp(a.v, b.v) >= 0) invalid("interval"); Q a0(a), b0(b);
  _fmpz_poly_scale_0_1_fmpq(z.z->coeffs, z.z->length, a.v, b.v);
  need(fmpq_equal(a.v, a0.v) && fmpq_equal(b.v, b0.v), "frame", "scaling: end points changed");
  P t, w, r; Q d; fmpq_sub(d.v, b.v, a.v); fmpq_poly_set_coeff_fmpq(t.v, 0, a.v); fmpq_poly_set_coeff_fmpq(t.v, 1, d.v); fmpq_poly_compose(w.v, z.p.v, t.v);
  fmpq_poly_set_fmpz_poly(r.v, z.z); fmpq_poly_make_monic(w.v, w.v); if (fmpq_poly_is_zero(r.v)) viol("value", "scaling: zero"); fmpq_poly_make_monic(r.v, r.v);
  need(fmpq_poly_equal(w.v, r.v), "value", "scaling: the polynomial is not the composition with the affine map");
}
static Reg r9("scale01", scale01);
