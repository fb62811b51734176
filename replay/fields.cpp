// Fields and embeddings: replays with an own Sturm count as oracle.
#include "field.h"
#include <sys/wait.h>
#include <flint/fmpz_poly_factor.h>

static vector<P> sturm_seq(const P &p) {
  vector<P> s; s.push_back(p); P d; fmpq_poly_derivative(d.v, p.v); s.push_back(d);
  while (!fmpq_poly_is_zero(s.back().v)) { P r; fmpq_poly_rem(r.v, s[s.size() - 2].v, s.back().v); fmpq_poly_neg(r.v, r.v); if (fmpq_poly_is_zero(r.v)) break; s.push_back(r); }
  return s;
}
static int vars_at(const vector<P> &s, const Q &x) {
  int last = 0, n = 0;
  for (auto &p : s) { Q y; fmpq_poly_evaluate_fmpq(y.v, p.v, x.v); int g = fmpq_sgn(y.v); if (g && last && g != last) n++; if (g) last = g; }
  return n;
}
// roots in the closed interval
slong count_closed(const P &p, const Q &l, const Q &h) {
  if (fmpq_cmp(l.v, h.v) > 0) return 0;
  Q y; fmpq_poly_evaluate_fmpq(y.v, p.v, l.v); int z = fmpq_is_zero(y.v);
  if (fmpq_equal(l.v, h.v)) return z;
  auto s = sturm_seq(p); return vars_at(s, l) - vars_at(s, h) + z;
}
slong count_all(const P &p) {
  slong b = 2; for (slong i = 0; i < fmpq_poly_length(p.v); i++) b += fmpz_bits(p.v->coeffs + i) + 1;
  Q l, h; fmpq_set_si(h.v, 1, 1); fmpq_mul_2exp(h.v, h.v, b); fmpq_neg(l.v, h.v); return count_closed(p, l, h);
}
void ends(const arb_t b, Q &l, Q &h) {
  if (!arb_is_finite(b)) invalid("ball is not finite");
  fmpz_t e; fmpz_init(e);
  if (!arf_is_special(arb_midref(b))) { arf_abs_bound_lt_2exp_fmpz(e, arb_midref(b)); if (fmpz_cmp_si(e, 100000) > 0 || fmpz_cmp_si(e, -100000) < 0) { fmpz_clear(e); invalid("ball too large"); } }
  fmpz_clear(e);
  if (!mag_is_special(arb_radref(b)) && (fmpz_cmp_si(MAG_EXPREF(arb_radref(b)), 100000) > 0 || fmpz_cmp_si(MAG_EXPREF(arb_radref(b)), -100000) < 0)) invalid("radius out of range");
  Q m, r; arf_get_fmpq(m.v, arb_midref(b)); arf_t t; arf_init(t); arf_set_mag(t, arb_radref(b)); arf_get_fmpq(r.v, t); arf_clear(t);
  fmpq_sub(l.v, m.v, r.v); fmpq_add(h.v, m.v, r.v);
}
static string qstr(const Q &q) { return show(q); }
static bool squarefree(const P &p) { P d, g; fmpq_poly_derivative(d.v, p.v); fmpq_poly_gcd(g.v, p.v, d.v); return fmpq_poly_degree(g.v) <= 0; }
static bool irreducible(const P &p) { fmpz_poly_t z; fmpz_poly_factor_t f; fmpz_poly_init(z); fmpz_poly_factor_init(f); fmpq_poly_get_numerator(z, p.v); fmpz_poly_factor(f, z); bool irr = f->num == 1 && f->exp[0] == 1; fmpz_poly_factor_clear(f); fmpz_poly_clear(z); return irr; }
static P pol_of(const Sc &s, const string &k = "pol") { P p(get(s, k)); if (fmpq_poly_degree(p.v) < 1) invalid("degree"); if (!squarefree(p)) invalid("not squarefree"); return p; }

// scenario with the isolating interval taken from the ball itself
static Sc iso(const Sc &s, const string &emb = "emb") {
  Sc r(s); P p = pol_of(s); if (!irreducible(p)) invalid("reducible"); B b; set_ball(b.v, get(s, emb)); Q l, h; ends(b.v, l, h);
  if (count_closed(p, l, h) != 1) invalid("ball does not isolate a root");
  r["iv"] = qstr(l) + ":" + qstr(h); r["emb"] = get(s, emb); return r;
}
static bool inside(const arb_t x, const arb_t y) { Q a, b, c, d; ends(x, a, b); ends(y, c, d); return fmpq_cmp(c.v, a.v) <= 0 && fmpq_cmp(b.v, d.v) <= 0; }
static slong L(const Sc &s, const string &k, slong d) { return has(s, k) ? atol(get(s, k).c_str()) : d; }


static void step(const Sc &s0) {
  string op = get(s0, "op"); slong prec = L(s0, "prec", 64); if (prec < 2) invalid("prec");
  Sc s = iso(s0); RF F(s); B a, r; arb_set(a.v, F.nf->emb); arb_set_si(r.v, 7);
  fmpz *c = F.nf->nf->pol->coeffs; slong n = F.nf->nf->pol->length;
  int ok = op == "newton" ? _fmpz_poly_newton_step_arb(r.v, c, F.nf->der->coeffs, n, a.v, prec) : _fmpz_poly_bisection_step_arb(r.v, c, n, a.v, prec);
  need(arb_equal(a.v, F.nf->emb), "frame", op + ": the ball changed");
  F.frame();
  if (ok) {
    need(arb_is_finite(r.v), "encl", op + ": ball is not finite");
    need(ball_has(r.v, F.alpha()), "encl", op + ": " + show(r.v) + " lost the root of " + show(a.v));
    need(inside(r.v, a.v), "encl", op + ": " + show(r.v) + " is not inside " + show(a.v));
    need(mag_cmp(arb_radref(r.v), arb_radref(a.v)) < 0, "value", op + ": ball did not shrink");
  }
}
static Reg g1("newton", step), g2("bisect", step);

template <class F> static bool refused(F f) {
  fflush(stdout); fflush(stderr);
  pid_t p = fork();
  if (p == 0) { int dn = open("/dev/null", 1); dup2(dn, 2); dup2(dn, 1); alarm(5); f(); _exit(0); }
  int st; waitpid(p, &st, 0);
  return !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
}

static void refine(const Sc &s0) {
  slong p = L(s0, "p", 64); if (p < 2) invalid("p");
  if (p > 20000) invalid("p too large to replay");
  Sc s = iso(s0); RF F(s); B a; arb_set(a.v, F.nf->emb); fmpz_poly_t d; fmpz_poly_init(d); fmpz_poly_set(d, F.nf->der);
  if (L(s, "immutable", 0)) { F.nf->immutable = 1; bool r = refused([&] { renf_refine_embedding(F.nf, p); }); fmpz_poly_clear(d); need(r, "value", "refinement of an immutable field is not refused"); return; }
  if (F.deg() == 1) invalid("linear");
  renf_refine_embedding(F.nf, p);
  need(F.nf->immutable == 0, "value", "refinement leaves the field immutable");
  F.frame();
  bool same = fmpz_poly_equal(d, F.nf->der); fmpz_poly_clear(d);
  need(same, "frame", "derivative changed");
  need(arb_is_finite(F.nf->emb), "encl", "refinement: ball is not finite");
  need(ball_has(F.nf->emb, F.alpha()), "encl", "refinement: " + show(F.nf->emb) + " lost the root of " + show(a.v));
  need(inside(F.nf->emb, a.v), "encl", "refinement: " + show(F.nf->emb) + " is not inside " + show(a.v));
  need(arb_rel_accuracy_bits(F.nf->emb) >= p, "value", "refinement: accuracy " + std::to_string(arb_rel_accuracy_bits(F.nf->emb)) + " instead of " + std::to_string(p));
}
static Reg g3("refine", refine);
static void condp(const Sc &s0) {
  Sc s = iso(s0); { RF F(s); slong c = -7777; _fmpz_poly_relative_condition_number_2exp(&c, F.nf->nf->pol->coeffs, F.nf->nf->pol->length, F.nf->emb, L(s, "p", 64)); F.frame(); }
  for (slong p : {2, 3, 8, 64}) { s["p"] = std::to_string(p); RF F(s); if (F.deg() == 1) return; renf_refine_embedding(F.nf, p); F.frame(); need(arb_rel_accuracy_bits(F.nf->emb) >= p, "value", "refinement: accuracy"); }
}
static Reg g4("cond_poly", condp);

static void unique(const Sc &s) {
  P p = pol_of(s); B b; set_ball(b.v, get(s, "emb")); slong prec = L(s, "prec", 64); if (prec < 2) invalid("prec");
  B b0(b); P p0(p);
  int r = fmpq_poly_check_unique_real_root(p.v, b.v, prec);
  need(arb_equal(b.v, b0.v), "frame", "check_unique: ball changed"); need(fmpq_poly_equal(p.v, p0.v), "frame", "check_unique: polynomial changed");
  slong n;
  if (arb_is_finite(b.v)) { Q l, h; ends(b.v, l, h); n = count_closed(p, l, h); } else n = count_all(p);
  if (fmpq_poly_degree(p.v) == 1) need((r != 0) == (n == 1), "value", "check_unique: linear polynomial, answer " + std::to_string(r));
  else if (r) need(n == 1, "value", "check_unique: accepts a ball with " + std::to_string(n) + " roots: " + show(b.v));
}
static Reg g5("unique", unique);

static void polyeval(const Sc &s) {
  P p(get(s, "pol")); string w = get(s, "which"); slong prec = L(s, "prec", 64); if (prec < 2) invalid("prec");
  fmpz_poly_t z; fmpz_poly_init(z); fmpq_poly_get_numerator(z, p.v);
  B b, r; set_ball(b.v, get(s, "emb")); Q x(get(s, "x")); arb_set_si(r.v, 7);
  if (!arb_contains_fmpq(b.v, x.v)) { fmpz_poly_clear(z); invalid("x outside the ball"); }
  Z den(get(s, "den", "1")); P q; fmpq_poly_set_fmpz_poly(q.v, z); fmpq_poly_scalar_div_fmpz(q.v, q.v, den.v);
  bool al = w.size() > 5 && w.substr(w.size() - 5) == "alias"; arb_ptr res = al ? b.v : r.v;
  if (w == "vec") _fmpz_poly_evaluate_arb(res, z->coeffs, z->length, b.v, prec);
  else if (w.compare(0, 4, "poly") == 0) fmpz_poly_evaluate_arb(res, z, b.v, prec);
  else fmpq_poly_evaluate_arb(res, q.v, b.v, prec);
  Q y; fmpq_poly_evaluate_fmpq(y.v, q.v, x.v); fmpz_poly_clear(z);
  need(arb_contains_fmpq(res, y.v), "encl", "evaluation: " + show(res) + " does not contain " + show(y));
}
static Reg g6("polyeval", polyeval);

static void field_ok(const renf_t nf, const P &pol, slong prec, const string &w) {
  need(fmpq_poly_equal(nf->nf->pol, pol.v), "value", w + ": wrong polynomial");
  fmpz_poly_t z, d; fmpz_poly_init(z); fmpz_poly_init(d); fmpq_poly_get_numerator(z, pol.v); fmpz_poly_derivative(d, z); bool ok = fmpz_poly_equal(d, nf->der); fmpz_poly_clear(z); fmpz_poly_clear(d);
  need(ok, "value", w + ": wrong derivative");
  need(nf->prec == prec, "value", w + ": wrong precision"); need(nf->immutable == 0, "value", w + ": not mutable");
}
struct FG { renf_ptr f; FG(renf_ptr x) : f(x) {} ~FG() { renf_clear(f); } };

static void finit(const Sc &s0) {
  slong prec = L(s0, "prec", 64); if (prec < 2 || prec > 20000) invalid("prec");
  P p = pol_of(s0); if (!irreducible(p)) invalid("reducible"); B b; set_ball(b.v, get(s0, "emb")); Q l, h; ends(b.v, l, h);
  if (count_closed(p, l, h) != 1) {
    bool r = refused([&] { renf_t nf; renf_init(nf, p.v, b.v, prec); });
    need(r, "value", "a field is created from a ball that isolates no root"); return; }
  // the uniqueness test may reject: then construction aborts by contract
  if (!fmpq_poly_check_unique_real_root(p.v, b.v, prec)) invalid("ball is not accepted");
  Sc s = iso(s0); RF F(s); P p0(p); B b0(b); renf_t nf; renf_init(nf, p.v, b.v, prec); FG g(nf);
  field_ok(nf, p0, prec, "init"); need(fmpq_poly_equal(p.v, p0.v) && arb_equal(b.v, b0.v), "frame", "init: arguments changed");
  need(ball_has(nf->emb, F.alpha()), "encl", "init: " + show(nf->emb) + " does not contain the root in " + show(b.v));
  if (fmpq_poly_degree(p.v) > 1) { need(inside(nf->emb, b.v), "encl", "init: embedding left the given ball"); need(arb_rel_accuracy_bits(nf->emb) >= prec, "value", "init: accuracy"); }
}
static Reg g7("field_init", finit);
static void fset(const Sc &s0) {
  Sc s = iso(s0); RF F(s); F.nf->immutable = L(s, "immutable", 0); renf_t nf; renf_init_set(nf, F.nf); FG g(nf);
  field_ok(nf, F.pol, F.prec, "copy"); need(ball_has(nf->emb, F.alpha()), "encl", "copy: embedding lost the root"); need(arb_equal(nf->emb, F.nf->emb), "encl", "copy: embedding differs");
  F.nf->immutable = 0; F.frame();
}
static Reg g8("field_init_set", fset);
static void nthroot(const Sc &s) {
  Q q(get(s, "q")); ulong n = L(s, "n", 2); slong prec = L(s, "prec", 64); if (prec < 2 || prec > 20000) invalid("prec");
  if (fmpq_is_zero(q.v)) invalid("zero");
  if (fmpq_sgn(q.v) < 0) { bool r = refused([&] { renf_t nf; renf_init_nth_root_fmpq(nf, q.v, n, prec); }); need(r, "value", "root of a negative number"); return; }
  P p; Q m; fmpq_neg(m.v, q.v); fmpq_poly_set_coeff_fmpq(p.v, 0, m.v); { Q o("1"); fmpq_poly_set_coeff_fmpq(p.v, n, o.v); }
  if (!irreducible(p)) invalid("reducible");
  Q q0(q); renf_t nf; renf_init_nth_root_fmpq(nf, q.v, n, prec); FG g(nf); need(fmpq_equal(q.v, q0.v), "frame", "n-th root: argument changed");
  field_ok(nf, p, prec, "n-th root");
  need(arb_is_finite(nf->emb), "encl", "n-th root: ball"); B t; arb_pow_ui(t.v, nf->emb, n, 4 * prec + 200); need(arb_contains_fmpq(t.v, q.v) && arb_is_positive(nf->emb), "encl", "n-th root: wrong embedding " + show(nf->emb));
  if (n > 1) need(arb_rel_accuracy_bits(nf->emb) >= prec, "value", "n-th root: accuracy");
}
static Reg g9("nth_root", nthroot);
static void embeddings(const Sc &s) {
  P p = pol_of(s); slong lim = L(s, "lim", 10), prec = L(s, "prec", 64); if (prec < 2 || prec > 20000 || lim < 0) invalid("prec");
  if (fmpq_poly_degree(p.v) < 2) invalid("linear"); if (!irreducible(p)) invalid("reducible");
  fmpz_poly_t z; fmpz_poly_init(z); fmpq_poly_get_numerator(z, p.v); slong k = count_all(p);
  vector<renf> v(lim + 2); memset((void *)v.data(), 0x5a, v.size() * sizeof(renf));
  slong r = renf_set_embeddings_fmpz_poly(v.data(), z, lim, prec); slong n = FLINT_MIN(lim, k); fmpz_poly_clear(z);
  need(r == k, "value", "embeddings: " + std::to_string(r) + " instead of " + std::to_string(k));
  Q last; fmpq_set_si(last.v, -1, 1); fmpq_mul_2exp(last.v, last.v, 20000);
  string bad;
  for (slong i = 0; i < n; i++) {
    field_ok(&v[i], p, prec, "embeddings"); Q l, h; ends(v[i].emb, l, h);
    if (bad.empty() && count_closed(p, l, h) != 1) bad = "embedding does not isolate a root";
    if (bad.empty() && fmpq_cmp(last.v, l.v) >= 0) { Q x; // overlapping balls: they must hold different roots
      if (count_closed(p, l, last) != 0) bad = "embeddings are not in increasing order"; }
    Q b; fmpq_sub_si(b.v, l.v, 1); fmpq_mul_2exp(b.v, b.v, 1); Q big; fmpq_set_si(big.v, 1, 1); fmpq_mul_2exp(big.v, big.v, 20000); fmpq_neg(big.v, big.v);
    if (bad.empty() && count_closed(p, big, h) != i + 1) bad = "a real root is missing or out of order";
    last = h;
  }
  for (slong i = 0; i < n; i++) renf_clear(&v[i]);
  need(bad.empty(), "value", "embeddings: " + bad);
}
static Reg g10("embeddings", embeddings);
static void feq(const Sc &s0) {
  Sc s = iso(s0); RF F(s); Sc t(s0); t["pol"] = get(s0, "pol2", get(s0, "pol")); t["emb"] = get(s0, "emb2"); bool self = L(s0, "self", 0);
  if (self) { need(renf_equal(F.nf, F.nf) != 0, "value", "a field differs from itself"); F.frame(); return; }
  t = iso(t); RF G(t); Q a, b, c, d; ends(F.nf->emb, a, b); ends(G.nf->emb, c, d);
  Q l = fmpq_cmp(a.v, c.v) < 0 ? c : a, h = fmpq_cmp(b.v, d.v) < 0 ? b : d;
  bool same = fmpq_poly_equal(F.pol.v, G.pol.v) && (F.deg() == 1 || count_closed(F.pol, l, h) == 1);
  int r = renf_equal(F.nf, G.nf); F.frame(); G.frame();
  need((r != 0) == same, "value", "renf_equal: " + std::to_string(r) + " for " + show(F.nf->emb) + " and " + show(G.nf->emb));
}
static Reg g11("equal_fields", feq);
