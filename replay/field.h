#pragma once
#include "driver.h"

inline bool ball_has(const arb_t b, Val v) {
  if (!arf_is_finite(arb_midref(b)) || mag_is_inf(arb_radref(b))) return true;
  slong bits = 512 + FLINT_ABS(arf_bits(arb_midref(b))) ;
  if (!arf_is_special(arb_midref(b))) { fmpz_t e; fmpz_init(e); arf_bot(e, arb_midref(b)); if (fmpz_sgn(e) < 0 && fmpz_cmp_si(e, -200000) > 0) bits += -fmpz_get_si(e); fmpz_clear(e); }
  if (!mag_is_special(arb_radref(b)) && fmpz_cmp_si(MAG_EXPREF(arb_radref(b)), -200000) > 0 && fmpz_sgn(MAG_EXPREF(arb_radref(b))) < 0) bits += -fmpz_get_si(MAG_EXPREF(arb_radref(b)));
  if (v.rational()) { Q q = v.rat(); return arb_contains_fmpq(b, q.v); }
  B t; v.encl(t.v, bits); return arb_overlaps(b, t.v);
}
inline bool ball_surely_has(const arb_t b, Val v) {
  if (!arf_is_finite(arb_midref(b)) || mag_is_inf(arb_radref(b))) return true;
  if (v.rational()) { Q q = v.rat(); return arb_contains_fmpq(b, q.v); }
  for (slong bits = 512; bits < 20000; bits *= 2) { B t; v.encl(t.v, bits); if (arb_contains(b, t.v)) return true; if (!arb_overlaps(b, t.v)) return false; }
  return false;
}

struct RF {
  Root root; renf_t nf; slong prec; P pol; bool own = true;
  RF(const Sc &s) : root(P(get(s, "pol")), Q(split(get(s, "iv", "0:0"), ':').at(0)), Q(split(get(s, "iv", "0:0"), ':').at(1))), pol(get(s, "pol")) {
    prec = atol(get(s, "prec", "64").c_str()); if (prec < 2) invalid("prec");
    B e; string t = get(s, "emb", "default");
    if (t == "default" || fmpq_poly_degree(pol.v) == 1) { root.enclosure(e.v, prec + 80); arb_set_round(e.v, e.v, prec + 10); }
    else { set_ball(e.v, t); if (!ball_surely_has(e.v, alpha())) invalid("embedding does not contain the root"); }
    nf_init(nf->nf, pol.v);
    fmpz_poly_init(nf->der);
    fmpz_poly_t z; fmpz_poly_init(z); fmpq_poly_get_numerator(z, pol.v); fmpz_poly_derivative(nf->der, z); fmpz_poly_clear(z);
    nf->prec = prec; nf->immutable = 0; arb_init(nf->emb);
    if (fmpq_poly_degree(pol.v) == 1) { arb_set_fmpq(nf->emb, root.lo.v, FLINT_MAX(2, prec)); } else arb_set(nf->emb, e.v);
  }
  ~RF() { nf_clear(nf->nf); fmpz_poly_clear(nf->der); arb_clear(nf->emb); }
  RF(const RF &) = delete;
  slong deg() const { return fmpq_poly_degree(pol.v); }
  Val alpha() { P x; fmpq_poly_set_coeff_si(x.v, 1, 1); return Val(&root, x); }
  Val c(const Q &q) { return cst(&root, q); }
  Val c(long n) { Q q; fmpq_set_si(q.v, n, 1); return c(q); }
  void frame() {
    need(nf->immutable == 0, "frame", "field mutability changed");
    need(nf->prec == prec, "frame", "field precision changed");
    need(fmpq_poly_equal(nf->nf->pol, pol.v), "frame", "field polynomial changed");
    need(ball_has(nf->emb, alpha()), "frame", "embedding of the field lost its root: " + show(nf->emb));
  }
};

struct RE {
  RF &F; renf_elem_t e; Val v; string name;
  RE(RF &f, const Sc &s, const string &n) : F(f), v(&f.root, P(get(s, n, "0/1"))), name(n) {
    nf_elem_init(e->elem, F.nf->nf); arb_init(e->emb);
    try {
      if (F.deg() >= 3) { P st; for (int i = 0; i < F.deg(); i++) fmpq_poly_set_coeff_si(st.v, i, 11 + 3 * i); Q q("1/5"); fmpq_poly_scalar_mul_fmpq(st.v, st.v, q.v); nf_elem_set_fmpq_poly(e->elem, st.v, F.nf->nf); }
      nf_elem_set_fmpq_poly(e->elem, v.p.v, F.nf->nf);
      string b = get(s, n + "b", "default");
      if (b == "default") { v.encl(e->emb, F.prec + 100); arb_set_round(e->emb, e->emb, F.prec); }
      else set_ball(e->emb, b);
      if (v.rational() && b != "inf" && b != "nan" && arb_is_exact(e->emb)) { /* exact balls must be exact */ }
      if (!ball_surely_has(e->emb, v)) invalid("ball of " + n + " does not contain the value");
    } catch (...) { nf_elem_clear(e->elem, F.nf->nf); arb_clear(e->emb); throw; }
  }
  ~RE() { nf_elem_clear(e->elem, F.nf->nf); arb_clear(e->emb); }
  RE(const RE &) = delete;
  Val now() { P p; nf_elem_get_fmpq_poly(p.v, e->elem, F.nf->nf); return Val(&F.root, p); }
  void expect(const Val &w, const string &what) {
    need(now().eq(w), "value", what + ": got " + now().str() + " expected " + w.str());
    nf_elem_t t; nf_elem_init(t, F.nf->nf); nf_elem_set_fmpq_poly(t, w.p.v, F.nf->nf); int ok = nf_elem_equal(t, e->elem, F.nf->nf); nf_elem_clear(t, F.nf->nf);
    need(ok, "value", what + ": result is not in canonical form");
    need(ball_has(e->emb, w), "encl", what + ": enclosure " + show(e->emb) + " does not contain " + w.str());
  }
  void unchanged(const string &what) {
    need(now().eq(v), "frame", what + ": operand " + name + " changed to " + now().str());
    need(ball_has(e->emb, v), "frame", what + ": enclosure of operand " + name + " lost its value");
  }
};
