// Replays parsing and printing. What a string denotes is part of the scenario (computed by harness/text.py).
#include "field.h"
#include <errno.h>
#include <sstream>
#ifdef VP_CXX
#include "../cxx/ops.cpp"
#endif

namespace {
string unhex(const string &h) { string r; if (h == "-") return r; for (size_t i = 0; i + 1 < h.size(); i += 2) r += (char) strtol(h.substr(i, 2).c_str(), NULL, 16); return r; }
// exact size copy, so that reading past the end is noticed
struct CS { char *p; CS(const string &s) { p = (char *) malloc(s.size() + 1); memcpy(p, s.c_str(), s.size() + 1); } ~CS() { free(p); } };
void poly_of(P &p, const string &t) {
  fmpq_poly_zero(p.v);
  if (t == "0") return;
  for (auto &m : split(t, '+')) { auto x = split(m, '*'); Q c(x.at(0)); fmpq_poly_set_coeff_fmpq(p.v, atol(x.at(1).c_str()), c.v); }
}

void parse(const Sc &s) {
  string str = unhex(get(s, "str")), var = unhex(get(s, "var")), want = get(s, "want"), which = get(s, "which");
  P w; poly_of(w, get(s, "poly"));
  CS cs(str), cv(var);
  if (which == "q" || which == "z") {
    int r; P got;
    if (which == "q") {
      P p; fmpq_poly_set_coeff_si(p.v, 0, 7); Q h("3/2"); fmpq_poly_set_coeff_fmpq(p.v, 5, h.v);
      errno = ERANGE;
      r = fmpq_poly_set_str_pretty(p.v, cs.p, cv.p);
      if (r == 0 && want != "any") need(fmpq_poly_is_canonical(p.v), "value", "polynomial is not in canonical form");
      fmpq_poly_set(got.v, p.v);
    } else {
      fmpz_poly_t p; fmpz_poly_init(p); fmpz_poly_set_coeff_si(p, 0, 7); fmpz_poly_set_coeff_si(p, 5, 3);
      r = fmpz_poly_set_str_pretty(p, cs.p, cv.p);
      fmpq_poly_set_fmpz_poly(got.v, p); fmpz_poly_clear(p);
    }
    need(str == cs.p && var == cv.p, "value", "the arguments are changed");
    if (want == "any") return;
    if (r) need(want != "must", "value", "a well-formed string is rejected");
    else { need(want != "bad", "value", "a string that denotes no polynomial is accepted"); need(fmpq_poly_equal(got.v, w.v), "value", "wrong polynomial " + show(got)); }
    return;
  }
#ifdef VP_CXX
  if (which == "e") {
    slong deg = atol(get(s, "deg", "3").c_str());
    string pol = "-2"; for (slong i = 1; i < deg; i++) pol += ",0"; pol += ",1";
    Sc c; c["pol"] = pol; c["iv"] = deg == 1 ? "1:3" : "1:2"; c["prec"] = "64"; RF f(c);
    K k = renf_class::make(f.nf, var);
    E *e = static_cast<E *>(malloc(sizeof(E)));
    struct G { E *e; ~G() { free(e); } } g{e};
    bool threw = false;
    try { e_str(e, k.get(), cs.p); } catch (std::invalid_argument &) { threw = true; }
    if (threw) { need(want != "must", "value", "a well-formed string is rejected"); return; }
    struct H { E *e; ~H() { e->~E(); } } h{e};
    if (want == "any") return;
    need(want != "bad", "value", "a string that denotes no element is accepted");
    Val v(&f.root, w);
    P p; nf_elem_get_fmpq_poly(p.v, e->renf_elem_t()->elem, k->renf_t()->nf);
    need(Val(&f.root, p).eq(v), "value", "wrong element " + show(p));
    nf_elem_t t; nf_elem_init(t, k->renf_t()->nf); nf_elem_set_fmpq_poly(t, v.p.v, k->renf_t()->nf); int ok = nf_elem_equal(t, e->renf_elem_t()->elem, k->renf_t()->nf); nf_elem_clear(t, k->renf_t()->nf);
    need(ok, "value", "element is not in canonical form");
    need(ball_has(e->renf_elem_t()->emb, v), "encl", "wrong enclosure");
    return;
  }
#endif
  invalid("which");
}

#ifdef VP_CXX
// the field from its description
void kmake(const Sc &s) {
  string str = unhex(get(s, "str")), var = unhex(get(s, "var")), emb = unhex(get(s, "emb")), want = get(s, "want");
  slong prec = atol(get(s, "prec", "64").c_str());
  alignas(K) char mem[sizeof(K)]; K *k = reinterpret_cast<K *>(mem);
  CS a(str), b(var), c(emb);
  try { k_make_str(k, a.p, b.p, c.p, prec); } catch (std::invalid_argument &e) { need(want == "throw" || want == "any", "value", string("a field is rejected: ") + e.what()); return; }
  struct G { K *k; ~G() { k->~K(); } } g{k};
  if (want == "any") return;
  need(want != "throw", "value", "a field is made from a bad description");
  P w; poly_of(w, get(s, "poly"));
  need(fmpq_poly_equal((*k)->renf_t()->nf->pol, w.v), "value", "field with another polynomial");
  need((*k)->gen_name() == var, "value", "wrong name of the generator");
  auto iv = split(get(s, "iv"), ':'); Root r(w, Q(iv.at(0)), Q(iv.at(1))); P x; fmpq_poly_set_coeff_si(x.v, 1, 1);
  need(ball_has((*k)->renf_t()->emb, Val(&r, x)), "encl", "wrong root");
  need(fmpq_poly_degree(w.v) < 2 || arb_is_exact((*k)->renf_t()->emb) || arb_rel_accuracy_bits((*k)->renf_t()->emb) >= prec - 2, "value", "the embedding has less than the requested accuracy");
}
#endif

struct Free { char *p; ~Free() { flint_free(p); } };

// parts of a printed element; "" when fine
string element_parts(const string &t, int flag, const string &alg, Val &v, slong n) {
  size_t i = 0;
  bool D = flag & EANTIC_STR_D, A = flag & EANTIC_STR_ARB;
  if (flag & EANTIC_STR_ALG) {
    if (t.compare(0, alg.size(), alg)) return "the polynomial is missing in " + t;
    i = alg.size();
    if (D || A) { if (t.compare(i, 3, " ~ ")) return "the separator is missing in " + t; i += 3; }
  }
  string r = t.substr(i);
  if (!D && !A) return r.empty() ? "" : "unrequested parts in " + t;
  if (D && A) return "";
  if (r.empty()) return "the approximation is missing in " + t;
  if (D) {
    char *e; double d = strtod(r.c_str(), &e);
    if (*e) return "the approximation is not a number: " + t;
    B b; v.encl(b.v, 200); double x = arf_get_d(arb_midref(b.v), ARF_RND_NEAR);
    if (std::isinf(x) || std::isinf(d)) return d == x ? "" : "wrong approximation in " + t;
    return fabs(d - x) <= 1e-6 * fabs(x) + 1e-300 ? "" : "wrong approximation in " + t;
  }
  B b; if (arb_set_str(b.v, r.c_str(), 300)) return "the ball cannot be read: " + t;
  return ball_has(b.v, v) ? "" : "the ball does not contain the element: " + t;
}

// x is the text of a ball at least about as narrow as that of y
void accurate(const string &x, const string &y) {
  B a, b; if (arb_set_str(a.v, x.c_str(), 4000) || arb_set_str(b.v, y.c_str(), 4000) || !arb_is_finite(b.v)) return;
  arf_t r, t; arf_init(r); arf_init(t); arf_set_mag(r, arb_radref(a.v)); arf_set_mag(t, arb_radref(b.v)); arf_mul_2exp_si(t, t, 1);
  int bad = arf_cmp(r, t) > 0; arf_clear(r); arf_clear(t);
  need(!bad, "value", "fewer digits than asked for: " + x);
}

template <class F> void field_text(const string &r, const renf_t nf, const string &var, F &f) {
  Free p{fmpq_poly_get_str_pretty(nf->nf->pol, var.c_str())};
  string head = string("NumberField(") + p.p + ", ";
  need(r.compare(0, head.size(), head) == 0, "value", "field is printed as " + r);
  need(r.back() == ')', "value", "field is printed as " + r);
  string b = r.substr(head.size(), r.size() - head.size() - 1);
  B x; need(arb_set_str(x.v, b.c_str(), 300) == 0, "value", "the embedding cannot be read: " + r);
  need(ball_has(x.v, f.alpha()), "value", "the embedding does not contain the root: " + r);
}

void print(const Sc &s) {
  RF f(s); int flag = atoi(get(s, "flag").c_str()); slong n = atol(get(s, "n", "10").c_str()); string var = get(s, "var", "a");
  RE a(f, s, "A");
  Free alg{nf_elem_get_str_pretty(a.e->elem, var.c_str(), f.nf->nf)};
  Free t{renf_elem_get_str_pretty(a.e, var.c_str(), f.nf, n, flag)};
  string e = element_parts(t.p, flag, alg.p, a.v, n);
  need(e.empty(), "value", e);
  if (flag == EANTIC_STR_ARB || flag == (EANTIC_STR_ARB | EANTIC_STR_ALG)) {
    Free w{arb_get_str(a.e->emb, n, 0)}; string r = t.p; accurate(flag == EANTIC_STR_ARB ? r : r.substr(strlen(alg.p) + 3), w.p);
  }
  f.frame(); a.unchanged("printing");
}

// n digits of a printed field
void print_field(const Sc &s) {
  RF f(s); slong n = atol(get(s, "n", "10").c_str()); string var = get(s, "var", "a");
  Free p{fmpq_poly_get_str_pretty(f.nf->nf->pol, var.c_str())};
  Free t{renf_get_str(f.nf, var.c_str(), n)};
  field_text(t.p, f.nf, var, f);
  {
    // not less accurate than asked for
    Free e{arb_get_str(f.nf->emb, n, 0)}; string r = t.p, head = string("NumberField(") + p.p + ", ";
    accurate(r.substr(head.size(), r.size() - head.size() - 1), e.p);
  }
  f.frame();
}
#ifdef VP_CXX
void print_cxx(const Sc &s) {
  string var = get(s, "var", "a"); int flag = atoi(get(s, "flag").c_str()); string how = get(s, "how");
  RF f(s); K k = renf_class::make(f.nf, var);
  alignas(string) char mem[sizeof(string)]; string *r = reinterpret_cast<string *>(mem);
  struct G { string *r; ~G() { r->~string(); } };
  if (how == "field" || how == "kstream") {
    if (how == "field") s_field(r, k.get()); else { std::ostringstream o; o_field(&o, k.get()); new (r) string(o.str()); }
    G g{r};
    P pol; fmpq_poly_set(pol.v, f.nf->nf->pol);
    field_text(*r, k->renf_t(), var, f); return;
  }
  P p(get(s, "A")); Val v(&f.root, p); E e(*k); renf_elem_set_fmpq_poly(e.renf_elem_t(), v.p.v, k->renf_t());
  if (how == "ostream") {
    std::ostringstream o; o_elem(&o, &e); new (r) string(o.str());
    // the parts are not prescribed, the polynomial must be there
    flag = r->size() > 1 && (*r)[0] == '(' && r->find('~') != string::npos ? EANTIC_STR_ALG | (r->find("+/-") != string::npos ? EANTIC_STR_ARB : EANTIC_STR_D) : EANTIC_STR_ALG;
  } else if (how == "conv") { s_conv(r, &e); flag = EANTIC_STR_ALG | EANTIC_STR_D; } else if (how == "get") s_get(r, &e, flag); else s_elem(r, &e, flag);
  G g{r};
  string t = *r; bool paren = flag != EANTIC_STR_ALG && flag != EANTIC_STR_D && flag != EANTIC_STR_ARB;
  if (paren) { need(t.size() >= 2 && t[0] == '(' && t.back() == ')', "value", "element is printed as " + t); t = t.substr(1, t.size() - 2); }
  Free alg{nf_elem_get_str_pretty(e.renf_elem_t()->elem, var.c_str(), k->renf_t()->nf)};
  string x = element_parts(t, flag, alg.p, v, 10);
  need(x.empty(), "value", x);
}
#endif

struct Init { Init() {
  ops()["parse"] = parse; ops()["print"] = print; ops()["print_field"] = print_field;
#ifdef VP_CXX
  ops()["kmake"] = kmake; ops()["print_cxx"] = print_cxx;
#endif
} } init_;
}
