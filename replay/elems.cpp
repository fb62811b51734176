#include "field.h"

static slong S(const Sc &s) { return strtol(get(s, "s", "0").c_str(), 0, 10); }
static ulong U(const Sc &s) { return strtoul(get(s, "u", "0").c_str(), 0, 10); }
static Q qz(const Z &z) { Q q; fmpq_set_fmpz(q.v, z.v); return q; }
static Q qs(slong n) { Q q; fmpq_set_si(q.v, n, 1); return q; }
static Q qu(ulong n) { Q q; fmpz_set_ui(fmpq_numref(q.v), n); return q; }

typedef void (*F_e)(renf_elem_t, const renf_elem_t, const renf_elem_t, const renf_t);
typedef void (*F_s)(renf_elem_t, const renf_elem_t, slong, const renf_t);
typedef void (*F_u)(renf_elem_t, const renf_elem_t, ulong, const renf_t);
typedef void (*F_z)(renf_elem_t, const renf_elem_t, const fmpz_t, const renf_t);
typedef void (*F_q)(renf_elem_t, const renf_elem_t, const fmpq_t, const renf_t);

static Val apply(char op, const Val &a, const Val &b) { return op == '+' ? a + b : op == '-' ? a - b : op == '*' ? a * b : a / b; }

template <char OP, int K> void arith(const Sc &s, F_e fe, F_s fs, F_u fu, F_z fz, F_q fq) {
  string op = get(s, "op"); int al = atoi(get(s, "alias", "0").c_str());
  RF F(s); RE A(F, s, "A"); RE Bo(F, s, K == 0 && (al != 3 && al != 4) ? "B" : "A"); RE Ro(F, s, "R");
  RE &Bx = (al == 3 || al == 4) ? A : Bo;
  RE &R = (K == 0) ? ((al == 1 || al == 4) ? A : al == 2 ? Bx : Ro) : (al == 1 ? A : Ro);
  Z z(get(s, "z", "0")); Q q(get(s, "q", "0/1")); Q q0(q);
  Val b = K == 0 ? Bx.v : K == 1 ? F.c(qs(S(s))) : K == 2 ? F.c(qu(U(s))) : K == 3 ? F.c(qz(z)) : F.c(q);
  if (OP == '/' && b.zero()) invalid("division by zero");
  Val w = apply(OP, A.v, b);
  if (K == 0) fe(R.e, A.e, Bx.e, F.nf); else if (K == 1) fs(R.e, A.e, S(s), F.nf); else if (K == 2) fu(R.e, A.e, U(s), F.nf); else if (K == 3) fz(R.e, A.e, z.v, F.nf); else fq(R.e, A.e, q.v, F.nf);
  R.expect(w, op);
  if (&R != &A) A.unchanged(op);
  if (K == 0 && &R != &Bx && &Bx != &A) Bx.unchanged(op);
  need(fmpq_equal(q.v, q0.v), "frame", op + ": rational operand changed");
  F.frame();
}
#define AR(name, OP) \
  static Reg r_##name(#name, [](const Sc &s) { arith<OP, 0>(s, renf_elem_##name, 0, 0, 0, 0); }); \
  static Reg r_##name##_si(#name "_si", [](const Sc &s) { arith<OP, 1>(s, 0, renf_elem_##name##_si, 0, 0, 0); }); \
  static Reg r_##name##_ui(#name "_ui", [](const Sc &s) { arith<OP, 2>(s, 0, 0, renf_elem_##name##_ui, 0, 0); }); \
  static Reg r_##name##_fmpz(#name "_fmpz", [](const Sc &s) { arith<OP, 3>(s, 0, 0, 0, renf_elem_##name##_fmpz, 0); }); \
  static Reg r_##name##_fmpq(#name "_fmpq", [](const Sc &s) { arith<OP, 4>(s, 0, 0, 0, 0, renf_elem_##name##_fmpq); });
AR(add, '+') AR(sub, '-') AR(mul, '*') AR(div, '/')

static void rev(const Sc &s) {
  string op = get(s, "op"); RF F(s); RE A(F, s, "A"); RE Ro(F, s, "R"); RE &R = get(s, "alias") == "1" ? A : Ro; Q q(get(s, "q"));
  Val w = op == "fmpq_sub" ? F.c(q) - A.v : F.c(q) / A.v;
  if (op == "fmpq_sub") renf_elem_fmpq_sub(R.e, q.v, A.e, F.nf); else renf_elem_fmpq_div(R.e, q.v, A.e, F.nf);
  R.expect(w, op); if (&R != &A) A.unchanged(op); F.frame();
}
static Reg r1("fmpq_sub", rev), r2("fmpq_div", rev);
static void unary(const Sc &s) {
  string op = get(s, "op"); RF F(s); RE A(F, s, "A"); RE Ro(F, s, "R"); RE &R = get(s, "alias") == "1" ? A : Ro;
  Val w = op == "neg" ? F.c(0) - A.v : inv(A.v);
  if (op == "neg") renf_elem_neg(R.e, A.e, F.nf); else renf_elem_inv(R.e, A.e, F.nf);
  R.expect(w, op); if (&R != &A) A.unchanged(op); F.frame();
}
static Reg r3("neg", unary), r4("inv", unary);
static void powop(const Sc &s) {
  RF F(s); RE A(F, s, "A"); RE Ro(F, s, "R"); RE &R = get(s, "alias") == "1" ? A : Ro; ulong u = U(s);
  if (u > 3000 && !A.v.zero() && !A.v.eq(F.c(1)) && !A.v.eq(F.c(-1))) invalid("exponent too large to replay");
  Val w = F.c(1);
  if (u > 3000) w = A.v.zero() ? A.v : (u % 2 ? A.v : F.c(1)); else for (ulong i = 0; i < u; i++) w = w * A.v;
  renf_elem_pow(R.e, A.e, u, F.nf);
  R.expect(w, "pow"); if (&R != &A) A.unchanged("pow"); F.frame();
}
static Reg r5("pow", powop);

static int sg(int x) { return (x > 0) - (x < 0); }
static void cmpop(const Sc &s) {
  string op = get(s, "op"); RF F(s); RE A(F, s, "A"); bool al = get(s, "alias") == "1"; RE Bo(F, s, op == "cmp" && !al ? "B" : "A"); RE &Bx = al ? A : Bo;
  Z z(get(s, "z", "0")); Q q(get(s, "q", "0/1")); Val b = F.c(0); int r;
  if (op == "sgn") r = renf_elem_sgn(A.e, F.nf);
  else if (op == "cmp") { b = Bx.v; r = renf_elem_cmp(A.e, Bx.e, F.nf); }
  else if (op == "cmp_si") { b = F.c(qs(S(s))); r = renf_elem_cmp_si(A.e, S(s), F.nf); }
  else if (op == "cmp_ui") { b = F.c(qu(U(s))); r = renf_elem_cmp_ui(A.e, U(s), F.nf); }
  else if (op == "cmp_fmpz") { b = F.c(qz(z)); r = renf_elem_cmp_fmpz(A.e, z.v, F.nf); }
  else { b = F.c(q); r = renf_elem_cmp_fmpq(A.e, q.v, F.nf); }
  int w = (A.v - b).sgn();
  need(op == "sgn" ? r == w : sg(r) == w, "value", op + ": got " + std::to_string(r) + " expected " + std::to_string(w));
  A.unchanged(op); if (op == "cmp" && !al) Bx.unchanged(op); F.frame();
}
static Reg c1("sgn", cmpop), c2("cmp", cmpop), c3("cmp_si", cmpop), c4("cmp_ui", cmpop), c5("cmp_fmpz", cmpop), c6("cmp_fmpq", cmpop);

static void eqop(const Sc &s) {
  string op = get(s, "op"); RF F(s); RE A(F, s, "A"); bool al = get(s, "alias") == "1"; RE Bo(F, s, op == "equal" && !al ? "B" : "A"); RE &Bx = al ? A : Bo;
  Z z(get(s, "z", "0")); Q q(get(s, "q", "0/1")); Val b = F.c(0); int r;
  if (op == "equal") { b = Bx.v; r = renf_elem_equal(A.e, Bx.e, F.nf); }
  else if (op == "equal_si") { b = F.c(qs(S(s))); r = renf_elem_equal_si(A.e, S(s), F.nf); }
  else if (op == "equal_ui") { b = F.c(qu(U(s))); r = renf_elem_equal_ui(A.e, U(s), F.nf); }
  else if (op == "equal_fmpz") { b = F.c(qz(z)); r = renf_elem_equal_fmpz(A.e, z.v, F.nf); }
  else { b = F.c(q); r = renf_elem_equal_fmpq(A.e, q.v, F.nf); }
  need((r != 0) == A.v.eq(b), "value", op + ": got " + std::to_string(r));
  A.unchanged(op); F.frame();
}
static Reg e1("equal", eqop), e2("equal_si", eqop), e3("equal_ui", eqop), e4("equal_fmpz", eqop), e5("equal_fmpq", eqop);

static void pred(const Sc &s) {
  string op = get(s, "op"); RF F(s); RE A(F, s, "A"); bool r, w; Q q = A.v.rat();
  if (op == "is_zero") { r = renf_elem_is_zero(A.e, F.nf); w = A.v.zero(); }
  else if (op == "is_one") { r = renf_elem_is_one(A.e, F.nf); w = A.v.rational() && fmpq_is_one(q.v); }
  else if (op == "is_integer") { r = renf_elem_is_integer(A.e, F.nf); w = A.v.rational() && fmpz_is_one(fmpq_denref(q.v)); }
  else { r = renf_elem_is_rational(A.e, F.nf); w = A.v.rational(); }
  need(r == w, "value", op + ": got " + std::to_string(r)); A.unchanged(op); F.frame();
}
static Reg p1("is_zero", pred), p2("is_one", pred), p3("is_integer", pred), p4("is_rational", pred);

static void roundop(const Sc &s) {
  string op = get(s, "op"); RF F(s); RE A(F, s, "A"); Z z("12345"); Z w = A.v.floor();
  if (op == "floor") renf_elem_floor(z.v, A.e, F.nf);
  else { renf_elem_ceil(z.v, A.e, F.nf); Q q = A.v.rat(); if (!(A.v.rational() && fmpz_is_one(fmpq_denref(q.v)))) fmpz_add_ui(w.v, w.v, 1); }
  need(fmpz_equal(z.v, w.v), "value", op + ": got " + show(z) + " expected " + show(w)); A.unchanged(op); F.frame();
}
static Reg f1("floor", roundop), f2("ceil", roundop);

static void fdiv(const Sc &s) {
  RF F(s); RE A(F, s, "A"); bool al = get(s, "alias") == "1"; RE Bo(F, s, al ? "A" : "B"); RE &Bx = al ? A : Bo; Z z("12345");
  if (Bx.v.zero()) invalid("zero divisor");
  Z w = (A.v / Bx.v).floor();
  renf_elem_fdiv(z.v, A.e, Bx.e, F.nf);
  need(fmpz_equal(z.v, w.v), "value", "fdiv: got " + show(z) + " expected " + show(w)); A.unchanged("fdiv"); if (!al) Bx.unchanged("fdiv"); F.frame();
}
static Reg f3("fdiv", fdiv);

static void cfrac(const Sc &s) {
  RF F(s); RE A(F, s, "A"); RE Ro(F, s, "R"); RE &R = get(s, "alias") == "1" ? A : Ro; slong n = atol(get(s, "n", "3").c_str());
  vector<Z> q; Val x = A.v; bool zero = x.zero(), done = zero;
  while (!done && (slong)q.size() < n) { Z f = x.floor(); q.push_back(f); Q fq = qz(f); Val d = x - F.c(fq); if (d.zero()) { done = true; x = F.c(0); } else x = inv(d); }
  slong sz = n + 4; vector<Z> c(sz); fmpz *arr = _fmpz_vec_init(sz); for (slong i = 0; i < sz; i++) fmpz_set_si(arr + i, 770 + i);
  slong r = renf_elem_get_cfrac(arr, R.e, A.e, n, F.nf);
  for (slong i = 0; i < sz; i++) fmpz_set(c[i].v, arr + i);
  _fmpz_vec_clear(arr, sz);
  if (zero) { need(r == 0 || (r == 1 && n > 0 && fmpz_is_zero(c[0].v)), "value", "cfrac of zero"); }
  else {
    need(r == (slong)q.size(), "value", "cfrac: number of quotients " + std::to_string(r) + " expected " + std::to_string(q.size()));
    for (slong i = 0; i < r; i++) need(fmpz_equal(c[i].v, q[i].v), "value", "cfrac: quotient " + show(c[i]) + " expected " + show(q[i]));
  }
  for (slong i = FLINT_MAX(r, 0); i < sz; i++) need(fmpz_cmp_si(c[i].v, 770 + i) == 0, "value", "cfrac: output beyond the quotients touched");
  R.expect(x, "cfrac remainder"); if (&R != &A) A.unchanged("cfrac"); F.frame();
}
static Reg f4("cfrac", cfrac);

static void setop(const Sc &s) {
  string op = get(s, "op"); RF F(s); bool al = get(s, "alias") == "1";
  if (op == "init") { renf_elem_t e; renf_elem_init(e, F.nf); P p; nf_elem_get_fmpq_poly(p.v, e->elem, F.nf->nf); bool z = fmpq_poly_is_zero(p.v); bool b = arb_contains_zero(e->emb); renf_elem_clear(e, F.nf); need(z, "value", "init: not zero"); need(b, "encl", "init: enclosure"); F.frame(); return; }
  RE R(F, s, "R"); RE Ao(F, s, al ? "R" : "A"); RE &A = al ? R : Ao; Z z(get(s, "z", "0")); Q q(get(s, "q", "0/1")); slong p = atol(get(s, "p", "64").c_str());
  Val w = F.c(0);
  if (op == "zero") renf_elem_zero(R.e, F.nf);
  else if (op == "one") { w = F.c(1); renf_elem_one(R.e, F.nf); }
  else if (op == "gen") { w = F.alpha(); renf_elem_gen(R.e, F.nf); }
  else if (op == "set_si") { w = F.c(qs(S(s))); renf_elem_set_si(R.e, S(s), F.nf); }
  else if (op == "set_ui") { w = F.c(qu(U(s))); renf_elem_set_ui(R.e, U(s), F.nf); }
  else if (op == "set_fmpz") { w = F.c(qz(z)); renf_elem_set_fmpz(R.e, z.v, F.nf); }
  else if (op == "set_fmpq") { w = F.c(q); renf_elem_set_fmpq(R.e, q.v, F.nf); }
  else if (op == "set_mpz") { w = F.c(qz(z)); mpz_t m; mpz_init(m); fmpz_get_mpz(m, z.v); renf_elem_set_mpz(R.e, m, F.nf); mpz_clear(m); }
  else if (op == "set_mpq") { w = F.c(q); mpq_t m; mpq_init(m); fmpq_get_mpq(m, q.v); renf_elem_set_mpq(R.e, m, F.nf); mpq_clear(m); }
  else if (op == "set") { w = A.v; renf_elem_set(R.e, A.e, F.nf); }
  else if (op == "swap") { w = A.v; renf_elem_swap(R.e, A.e); if (!al) { Val t = R.v; A.expect(t, "swap"); A.v = t; } }
  else if (op == "set_nf_elem") { w = A.v; renf_elem_set_nf_elem(R.e, A.e->elem, F.nf, p); }
  else if (op == "set_evaluation") { w = R.v; renf_elem_set_evaluation(R.e, F.nf, p); }
  else if (op == "set_fmpq_poly") { int L = atoi(get(s, "len", "0").c_str()); P pp; for (int i = 0; i < L; i++) { Z c(get(s, "p" + std::to_string(i), "0")); fmpq_poly_set_coeff_fmpz(pp.v, i, c.v); } Z d(get(s, "den", "1")); if (fmpz_is_zero(d.v)) invalid("den"); fmpq_poly_scalar_div_fmpz(pp.v, pp.v, d.v); w = Val(&F.root, pp); P keep(pp); renf_elem_set_fmpq_poly(R.e, pp.v, F.nf); need(fmpq_poly_equal(pp.v, keep.v), "frame", "polynomial changed"); }
  R.expect(w, op); if (!al) A.unchanged(op); F.frame();
}
#define ST(n) static Reg st_##n(#n, setop);
ST(init) ST(zero) ST(one) ST(gen) ST(set_si) ST(set_ui) ST(set_fmpz) ST(set_fmpq) ST(set_mpz) ST(set_mpq) ST(set) ST(swap) ST(set_nf_elem) ST(set_evaluation) ST(set_fmpq_poly)

static void cond(const Sc &s) {
  RF F(s); RE A(F, s, "A"); slong c = -7777; int r = renf_elem_relative_condition_number_2exp(&c, A.e, F.nf); (void)r;
  A.unchanged("cond"); F.frame();
  if (c < 0) { // use it: everything that evaluates enclosures with the condition number
    for (int k = 0; k < 5; k++) { RE X(F, s, "A"); Q q; arf_get_fmpq(q.v, arb_midref(F.nf->emb)); Z z;
      if (k == 0) need(renf_elem_sgn(X.e, F.nf) == X.v.sgn(), "value", "sgn"); else if (k == 1) renf_elem_cmp_fmpq(X.e, q.v, F.nf); else if (k == 2) renf_elem_floor(z.v, X.e, F.nf); else if (k == 3) { B b; renf_elem_get_arb(b.v, X.e, F.nf, 2); } else renf_elem_ceil(z.v, X.e, F.nf); }
  }
}
static Reg k1("cond", cond);

static void getd(const Sc &s) {
  RF F(s); RE A(F, s, "A"); int rnd = atoi(get(s, "rnd", "4").c_str()); int m = rnd; int sgn = A.v.sgn();
  if (rnd == ARF_RND_DOWN) m = sgn < 0 ? ARF_RND_CEIL : ARF_RND_FLOOR;
  if (rnd == ARF_RND_UP) m = sgn < 0 ? ARF_RND_FLOOR : ARF_RND_CEIL;
  double d = renf_elem_get_d(A.e, F.nf, (arf_rnd_t)rnd), w = 0;
  if (A.v.rational()) w = round_q(A.v.rat(), m);
  else for (slong bits = 128;; bits *= 2) { B b; A.v.encl(b.v, bits + 1200); arf_t lo, hi; arf_init(lo); arf_init(hi); arb_get_lbound_arf(lo, b.v, bits + 1400); arb_get_ubound_arf(hi, b.v, bits + 1400); Q l, h; arf_get_fmpq(l.v, lo); arf_get_fmpq(h.v, hi); arf_clear(lo); arf_clear(hi); double x = round_q(l, m), y = round_q(h, m); if (x == y) { w = x; break; } if (bits > 20000) invalid("rounding"); }
  // outside of the finite range both the infinity and the largest double are accepted
  Q mx; fmpq_set_si(mx.v, 1, 1); { Q t; fmpq_mul_2exp(mx.v, mx.v, 1024); fmpq_set_si(t.v, 1, 1); fmpq_mul_2exp(t.v, t.v, 971); fmpq_sub(mx.v, mx.v, t.v); }
  bool out = (A.v - F.c(mx)).sgn() > 0 || (A.v + F.c(mx)).sgn() < 0;
  char t[200]; snprintf(t, sizeof t, "get_d rnd %d: got %a expected %a", rnd, d, w);
  if (out) need(sgn > 0 ? d >= DBL_MAX : d <= -DBL_MAX, "value", t); else need(d == w, "value", t);
  A.unchanged("get_d"); F.frame();
}
static Reg k2("get_d", getd);
static void getarb(const Sc &s) {
  RF F(s); RE A(F, s, "A"); slong p = atol(get(s, "p", "64").c_str()); B x; arb_set_si(x.v, 17); bool al = get(s, "alias") == "1";
  renf_elem_get_arb(al ? A.e->emb : x.v, A.e, F.nf, p); if (al) arb_set(x.v, A.e->emb);
  need(ball_has(x.v, A.v), "value", "get_arb: " + show(x.v) + " does not contain " + A.v.str());
  need(A.v.zero() ? arb_is_zero(x.v) : arb_is_finite(x.v) && arb_rel_accuracy_bits(x.v) >= p, "value", "get_arb: accuracy " + std::to_string(arb_rel_accuracy_bits(x.v)));
  A.unchanged("get_arb"); F.frame();
}
static Reg k3("get_arb", getarb);
static void chk(const Sc &s) { RF F(s); RE A(F, s, "A"); slong p = atol(get(s, "p", "64").c_str()); renf_elem_check_embedding(A.e, F.nf, p); A.unchanged("check_embedding"); F.frame(); }
static Reg k4("check_embedding", chk);
