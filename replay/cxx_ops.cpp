// Replays short programs of C++ calls. Every step is compared with an exact oracle.
#include "field.h"
#include "../cxx/ops.cpp"
#include <iostream>
#include <memory>

namespace {
struct FX { std::unique_ptr<RF> rf; Root *root; K k; const renf_class *p; slong deg; };
struct Slot { alignas(E) char mem[sizeof(E)]; bool live = false, moved = false; string F; P v; std::set<string> parents; E *e() { return reinterpret_cast<E *>(mem); } };

struct World {
  const Sc &s;
  std::map<string, FX> f;
  std::map<string, Slot> slots;
  Root qroot;
  World(const Sc &s_) : s(s_), qroot(P("-1,1"), Q("0"), Q("2")) {
    { FX &q = f["Q"]; q.root = &qroot; q.p = &renf_class::make(); q.deg = 1; }
    for (string n : {"K", "L"}) if (has(s, n)) {
      auto t = split(get(s, n), ';'); Sc c; c["pol"] = t.at(0); c["iv"] = t.at(1); c["prec"] = get(s, "prec", "64");
      FX &q = f[n]; q.rf.reset(new RF(c)); q.root = &q.rf->root; q.deg = q.rf->deg();
      q.k = renf_class::make(q.rf->nf, n == "K" ? "k" : "l"); q.p = q.k.get();
      need(q.p->degree() == q.deg, "value", "degree of the field is wrong");
    }
    for (string n : {"x", "y", "w"}) if (has(s, n)) {
      string t = get(s, n); size_t i = t.find(':'); string F = t.substr(0, i);
      Slot &o = slots[n]; FX &q = field(F);
      e_zero(o.e(), q.p); o.live = true; o.F = F; o.parents = {F};
      Val v(q.root, P(t.substr(i + 1))); o.v = v.p;
      string r = get(s, n + "r");
      if (r == "4") { /* an earlier value leaves its limbs behind */ P w; fmpq_poly_set_coeff_si(w.v, 0, 5); if (q.deg > 1) fmpq_poly_set_coeff_si(w.v, q.deg - 1, 7); fmpq_poly_scalar_div_si(w.v, w.v, 3); renf_elem_set_fmpq_poly(o.e()->renf_elem_t(), w.v, q.p->renf_t()); }
      renf_elem_set_fmpq_poly(o.e()->renf_elem_t(), o.v.v, q.p->renf_t());
      if (r == "1") renf_elem_set_evaluation(o.e()->renf_elem_t(), q.p->renf_t(), 400);
      else if (r == "2") { arb_t b; arb_init(b); v.encl(b, 40); arb_t h; arb_init(h); arb_one(h); arb_mul_2exp_si(h, h, -5); arb_add(b, b, h, 60); arb_clear(h); arb_add_error_2exp_si(b, -3); arb_set(o.e()->renf_elem_t()->emb, b); arb_clear(b); }
      else if (r == "3") arb_zero_pm_inf(o.e()->renf_elem_t()->emb);
    }
  }
  ~World() { for (auto &i : slots) if (i.second.live) i.second.e()->~E(); }
  FX &field(const string &n) { auto i = f.find(n); if (i == f.end()) invalid("field " + n); return i->second; }
  Slot &slot(const string &n) { auto i = slots.find(n); if (i == slots.end() || !i->second.live) invalid("slot " + n); return i->second; }
  Slot &good(const string &n) { Slot &o = slot(n); if (o.moved) invalid("moved-from operand"); return o; }
  Slot &fresh(const string &n) { Slot &o = slots[n]; if (o.live) invalid("slot is in use"); return o; }
  Val val(Slot &o) { return Val(field(o.F).root, o.v); }
  void made(Slot &o, const P &v, const std::set<string> &parents) { o.live = true; o.moved = false; set(o, v, parents); }
  void set(Slot &o, const P &v, const std::set<string> &parents) {
    o.v = v; o.parents = parents; o.moved = false;
    o.F = "";
    for (auto &i : f) if (i.second.p == &o.e()->parent()) o.F = i.first;
    need(o.F != "", "value", "element has an unknown parent");
    need(parents.count(o.F), "value", "element has the wrong parent " + o.F);
  }
  void verify(const string &what) {
    for (auto &i : slots) {
      Slot &o = i.second; if (!o.live || o.moved) continue;
      FX &q = field(o.F);
      need(&o.e()->parent() == q.p, "value", what + ": parent of " + i.first + " changed");
      P p; nf_elem_get_fmpq_poly(p.v, o.e()->renf_elem_t()->elem, q.p->renf_t()->nf);
      need(fmpq_poly_equal(p.v, o.v.v), "value", what + ": " + i.first + " is " + show(p) + ", expected " + show(o.v));
      nf_elem_t t; nf_elem_init(t, q.p->renf_t()->nf); nf_elem_set_fmpq_poly(t, o.v.v, q.p->renf_t()->nf); int ok = nf_elem_equal(t, o.e()->renf_elem_t()->elem, q.p->renf_t()->nf); nf_elem_clear(t, q.p->renf_t()->nf);
      need(ok, "value", what + ": " + i.first + " is not in canonical form");
      need(ball_has(o.e()->renf_elem_t()->emb, val(o)), "encl", what + ": enclosure of " + i.first + " is wrong");
    }
    for (auto &i : f) {
      FX &q = i.second; P x; fmpq_poly_set_coeff_si(x.v, 1, 1); Val g(q.root, x);
      const E *c[3] = {k_zero(q.p), k_one(q.p), k_gen(q.p)};
      for (int j = 0; j < 3; j++) {
        P p; nf_elem_get_fmpq_poly(p.v, const_cast<E *>(c[j])->renf_elem_t()->elem, q.p->renf_t()->nf);
        P w; if (j == 1) fmpq_poly_one(w.v); else if (j == 2) w = g.p;
        need(fmpq_poly_equal(p.v, w.v), "value", what + ": a constant of the field is " + show(p));
      }
    }
  }
};

string sval(World &w) { return get(w.s, "s", "0"); }
P cpoly(const string &q) { P p; Q r(q); fmpq_poly_set_fmpq(p.v, r.v); return p; }

Val oper(const string &o, const Val &a, const Val &b) { return o == "add" ? a + b : o == "sub" ? a - b : o == "mul" ? a * b : a / b; }
bool relop(const string &o, int c) { return o == "eq" ? c == 0 : o == "ne" ? c != 0 : o == "lt" ? c < 0 : o == "gt" ? c > 0 : o == "le" ? c <= 0 : c >= 0; }

typedef std::function<void(World &, const vector<string> &)> Fn;
std::map<string, Fn> table;

template <class T> T sconv(const string &s) { mpz_class z; if (z.set_str(s, 10)) invalid("integer"); mpz_class lo = std::is_signed<T>::value ? mpz_class(-(mpz_class(1) << (8 * sizeof(T) - 1))) : mpz_class(0), hi = (mpz_class(1) << (8 * sizeof(T) - (std::is_signed<T>::value ? 1 : 0))) - 1;
  if (z < lo || z > hi) invalid("range"); return z < 0 ? (T) mpz_get_si(z.get_mpz_t()) : (T) mpz_get_ui(z.get_mpz_t()); }
template <> mpz_class sconv<mpz_class>(const string &s) { mpz_class z; if (z.set_str(s, 10)) invalid("integer"); return z; }
template <> mpq_class sconv<mpq_class>(const string &s) { mpq_class z; if (z.set_str(s, 10) || z.get_den() == 0) invalid("rational"); z.canonicalize(); return z; }

template <class T, class A> void scalar_op(const string &form, const string &o, void (*fn)(E *, E *, A), World &w, const vector<string> &a) {
  T y = sconv<T>(sval(w)); Slot &x = w.good(a.at(form == "c" ? 0 : 1)); string F = x.F;
  Val v = w.val(x), c = cst(w.field(F).root, Q(sval(w))), r = form == "r" ? oper(o, c, v) : oper(o, v, c);
  if (form == "c") { fn(nullptr, x.e(), y); w.set(x, r.p, {F}); }
  else { Slot &t = w.fresh(a.at(0)); fn(t.e(), x.e(), y); w.made(t, r.p, form == "r" ? std::set<string>{F, "Q"} : std::set<string>{F}); }
}
template <class T, class A> void scalar_rel(const string &form, const string &o, bool (*fn)(E *, A), World &w, const vector<string> &a) {
  T y = sconv<T>(sval(w)); Slot &x = w.good(a.at(0));
  int c = (w.val(x) - cst(w.field(x.F).root, Q(sval(w)))).sgn(); if (form == "r") c = -c;
  bool r = fn(x.e(), y);
  need(r == relop(o, c), "value", string("comparison ") + o + " gives " + (r ? "true" : "false"));
}
template <class T, class A> void scalar_ctor(int kind, void *fn, World &w, const vector<string> &a) {
  T y = sconv<T>(sval(w)); P v = cpoly(sval(w));
  if (kind == 0) { Slot &t = w.fresh(a.at(0)); ((void (*)(E *, const renf_class *, A))fn)(t.e(), w.field(a.at(1)).p, y); w.made(t, v, {a.at(1)}); }
  else if (kind == 1) { Slot &t = w.fresh(a.at(0)); ((void (*)(E *, A))fn)(t.e(), y); w.made(t, v, {"Q"}); }
  else { Slot &t = w.slot(a.at(0)); std::set<string> ps{"Q"}; if (!t.moved) ps.insert(t.F); ((void (*)(E *, A))fn)(t.e(), y); w.set(t, v, ps); }
}

#define RO(T, A, S, N) \
  table["c_" #N "_" #S] = [](World &w, const vector<string> &a) { scalar_op<T, A>("c", #N, c_##N##_##S, w, a); }; \
  table["l_" #N "_" #S] = [](World &w, const vector<string> &a) { scalar_op<T, A>("l", #N, l_##N##_##S, w, a); }; \
  table["r_" #N "_" #S] = [](World &w, const vector<string> &a) { scalar_op<T, A>("r", #N, r_##N##_##S, w, a); };
#define RR_(T, A, S, N) \
  table["l_" #N "_" #S] = [](World &w, const vector<string> &a) { scalar_rel<T, A>("l", #N, l_##N##_##S, w, a); }; \
  table["r_" #N "_" #S] = [](World &w, const vector<string> &a) { scalar_rel<T, A>("r", #N, r_##N##_##S, w, a); };
#define RS(T, A, S) RO(T, A, S, add) RO(T, A, S, sub) RO(T, A, S, mul) RO(T, A, S, div) RR_(T, A, S, eq) RR_(T, A, S, ne) RR_(T, A, S, lt) RR_(T, A, S, gt) RR_(T, A, S, le) RR_(T, A, S, ge) \
  table["make_" #S] = [](World &w, const vector<string> &a) { scalar_ctor<T, A>(0, (void *)make_##S, w, a); }; \
  table["makeq_" #S] = [](World &w, const vector<string> &a) { scalar_ctor<T, A>(1, (void *)makeq_##S, w, a); }; \
  table["assign_" #S] = [](World &w, const vector<string> &a) { scalar_ctor<T, A>(2, (void *)assign_##S, w, a); };

void elem_op(const string &form, const string &o, void (*fn)(E *, E *, E *), World &w, const vector<string> &a) {
  Slot &x = w.good(a.at(form == "c" ? 0 : 1)), &y = w.good(a.at(form == "c" ? 1 : 2));
  Val vx = w.val(x), vy = w.val(y); std::set<string> ps{x.F, y.F};
  bool ok = x.F == y.F || vx.rational() || vy.rational();
  Root *rt = x.F == y.F || vy.rational() ? vx.r : vy.r;
  P res; if (ok) res = oper(o, Val(rt, vx.p), Val(rt, vy.p)).p;
  Slot *t = form == "c" ? &x : &w.fresh(a.at(0));
  P keep = x.v; string kf = x.F;
  try { fn(t->e(), x.e(), y.e()); } catch (std::exception &e) {
    need(!ok, "value", string("exception although the operands have a common field: ") + e.what());
    return;
  }
  need(ok, "value", "elements of different fields are combined without an exception");
  if (form == "c") w.set(x, res, ps); else w.made(*t, res, ps);
}
void elem_rel(const string &o, bool (*fn)(E *, E *), World &w, const vector<string> &a) {
  Slot &x = w.good(a.at(0)), &y = w.good(a.at(1)); Val vx = w.val(x), vy = w.val(y);
  bool ok = x.F == y.F || vx.rational() || vy.rational();
  Root *rt = x.F == y.F || vy.rational() ? vx.r : vy.r;
  bool r;
  try { r = fn(x.e(), y.e()); } catch (std::exception &e) { need(!ok, "value", string("exception: ") + e.what()); return; }
  if (!ok) return;
  int c = (Val(rt, vx.p) - Val(rt, vy.p)).sgn();
  need(r == relop(o, c), "value", string("comparison ") + o + " gives " + (r ? "true" : "false"));
}
#define REO(N) table["c_" #N "_e"] = [](World &w, const vector<string> &a) { elem_op("c", #N, c_##N##_e, w, a); }; table["l_" #N "_e"] = [](World &w, const vector<string> &a) { elem_op("l", #N, l_##N##_e, w, a); };
#define RER(N) table["l_" #N "_e"] = [](World &w, const vector<string> &a) { elem_rel(#N, l_##N##_e, w, a); };

mpz_class zof(const Z &z) { return mpz_class(show(z)); }
void eqz(const mpz_class &g, const mpz_class &w, const string &what) { need(g == w, "value", what + " gives " + g.get_str() + ", expected " + w.get_str()); }
struct ZH { alignas(mpz_class) char m[sizeof(mpz_class)]; bool ok = false; mpz_class *z() { return reinterpret_cast<mpz_class *>(m); } ~ZH() { if (ok) z_free(z()); } };

void powf(bool free_, World &w, const vector<string> &a) {
  Slot &x = w.good(a.at(1)); Val v = w.val(x), r = cst(v.r, Q("1")); int n = sconv<int>(sval(w)); unsigned long m = n < 0 ? -(long)n : n;
  Val one = r, mone = cst(v.r, Q("-1"));
  if (n < 0 && v.zero()) invalid("inverse of zero");
  if (m > 70000 || (m > 400 && !v.rational())) { if (v.zero() || v.eq(one)) r = v; else if (v.eq(mone)) r = m % 2 ? v : one; else invalid("exponent too large to replay"); }
  else { Val b = n < 0 ? inv(v) : v; for (unsigned long i = 0; i < m; i++) r = r * b; }
  Slot &t = w.fresh(a.at(0)); (free_ ? u_powf : u_pow)(t.e(), x.e(), n); w.made(t, r.p, {x.F});
}
void zfun(const string &n, void (*fn)(mpz_class *, E *), World &w, const vector<string> &a) {
  Slot &x = w.good(a.at(0)); Val v = w.val(x); mpz_class want;
  if (n == "floor") want = zof(v.floor());
  else if (n == "ceil") { Val u = cst(v.r, Q("0")) - v; want = -zof(u.floor()); }
  else if (n == "den") { Z d; fmpz_set(d.v, v.p.v->den); want = zof(d); }
  else if (n == "content") { Z d; _fmpz_vec_content(d.v, v.p.v->coeffs, v.p.v->length); want = zof(d); }
  else { if (!v.rational()) invalid("not rational"); Q q = v.rat(); Z d; fmpz_set(d.v, fmpq_numref(q.v)); if (n == "mpz" && !fmpz_is_one(fmpq_denref(q.v))) invalid("not an integer"); want = zof(d); }
  ZH h; fn(h.z(), x.e()); h.ok = true; eqz(*h.z(), want, n);
}
template <class T> void vecop(void (*fn)(E *, const renf_class *, const T *, size_t), World &w, const vector<string> &a) {
  FX &q = w.field(a.at(1)); auto c = split(get(w.s, "c"), ','); if ((slong)c.size() > q.deg) invalid("too many coefficients");
  vector<T> v; P p; for (size_t i = 0; i < c.size(); i++) { v.push_back(sconv<T>(c[i])); Q r(c[i]); fmpq_poly_set_coeff_fmpq(p.v, i, r.v); }
  Slot &t = w.fresh(a.at(0)); fn(t.e(), q.p, v.data(), v.size()); w.made(t, Val(q.root, p).p, {a.at(1)});
}

void init() {
  if (!table.empty()) return;
  RS(short, short, sh) RS(unsigned short, unsigned short, us) RS(int, int, i) RS(unsigned int, unsigned int, ui) RS(long, long, l) RS(unsigned long, unsigned long, ul) RS(long long, long long, ll)
  RS(unsigned long long, unsigned long long, ull) RS(mpz_class, const mpz_class &, z) RS(mpq_class, const mpq_class &, q)
  REO(add) REO(sub) REO(mul) REO(div) RER(eq) RER(ne) RER(lt) RER(gt) RER(le) RER(ge)
  table["make_fz"] = [](World &w, const vector<string> &a) { Z z(sval(w)); Slot &t = w.fresh(a.at(0)); make_fz(t.e(), w.field(a.at(1)).p, z.v); w.made(t, cpoly(sval(w)), {a.at(1)}); };
  table["makeq_fz"] = [](World &w, const vector<string> &a) { Z z(sval(w)); Slot &t = w.fresh(a.at(0)); makeq_fz(t.e(), z.v); w.made(t, cpoly(sval(w)), {"Q"}); };
  table["assign_fz"] = [](World &w, const vector<string> &a) { Z z(sval(w)); Slot &t = w.slot(a.at(0)); std::set<string> ps{"Q"}; if (!t.moved) ps.insert(t.F); assign_fz(t.e(), z.v); w.set(t, cpoly(sval(w)), ps); };
  table["make_fq"] = [](World &w, const vector<string> &a) { Q z(sval(w)); Slot &t = w.fresh(a.at(0)); make_fq(t.e(), w.field(a.at(1)).p, z.v); w.made(t, cpoly(sval(w)), {a.at(1)}); };
  table["makeq_fq"] = [](World &w, const vector<string> &a) { Q z(sval(w)); Slot &t = w.fresh(a.at(0)); makeq_fq(t.e(), z.v); w.made(t, cpoly(sval(w)), {"Q"}); };
  table["assign_fq"] = [](World &w, const vector<string> &a) { Q z(sval(w)); Slot &t = w.slot(a.at(0)); std::set<string> ps{"Q"}; if (!t.moved) ps.insert(t.F); assign_fq(t.e(), z.v); w.set(t, cpoly(sval(w)), ps); };
  table["u_neg"] = [](World &w, const vector<string> &a) { Slot &x = w.good(a.at(1)), &t = w.fresh(a.at(0)); P p; fmpq_poly_neg(p.v, x.v.v); u_neg(t.e(), x.e()); w.made(t, p, {x.F}); };
  table["u_pos"] = [](World &w, const vector<string> &a) { Slot &x = w.good(a.at(1)), &t = w.fresh(a.at(0)); u_pos(t.e(), x.e()); w.made(t, x.v, {x.F}); };
  table["u_bool"] = [](World &w, const vector<string> &a) { Slot &x = w.good(a.at(0)); need(u_bool(x.e()) == !w.val(x).zero(), "value", "conversion to bool is wrong"); };
  table["u_is_zero"] = [](World &w, const vector<string> &a) { Slot &x = w.good(a.at(0)); need(u_is_zero(x.e()) == w.val(x).zero(), "value", "is_zero is wrong"); };
  table["u_is_one"] = [](World &w, const vector<string> &a) { Slot &x = w.good(a.at(0)); Val v = w.val(x); need(u_is_one(x.e()) == v.eq(cst(v.r, Q("1"))), "value", "is_one is wrong"); };
  table["u_is_rational"] = [](World &w, const vector<string> &a) { Slot &x = w.good(a.at(0)); need(u_is_rational(x.e()) == w.val(x).rational(), "value", "is_rational is wrong"); };
  table["u_is_integer"] = [](World &w, const vector<string> &a) { Slot &x = w.good(a.at(0)); Val v = w.val(x); need(u_is_integer(x.e()) == (v.rational() && fmpz_is_one(fmpq_denref(v.rat().v))), "value", "is_integer is wrong"); };
  table["u_sgn"] = [](World &w, const vector<string> &a) { Slot &x = w.good(a.at(0)); int g = u_sgn(x.e()), e = w.val(x).sgn(); need((g > 0) == (e > 0) && (g < 0) == (e < 0), "value", "sgn is wrong"); };
  table["u_double"] = [](World &w, const vector<string> &a) { Slot &x = w.good(a.at(0)); Val v = w.val(x); double d = u_double(x.e());
    if (v.rational()) { double e = round_q(v.rat(), ARF_RND_NEAR); if (std::isfinite(e)) need(d == e, "value", "conversion to double is wrong"); }
    else { B b; v.encl(b.v, 300); arb_t t; arb_init(t); arb_set_d(t, d); arb_sub(t, t, b.v, 200); double err = fabs(arf_get_d(arb_midref(t), ARF_RND_NEAR)); arb_clear(t); if (std::isfinite(d)) need(err <= fabs(d) * ldexp(1, -52) || err < 1e-300, "value", "conversion to double is wrong"); } };
  table["u_getd"] = [](World &w, const vector<string> &a) { Slot &x = w.good(a.at(0)); Val v = w.val(x); double d = u_getd(x.e());
    if (v.rational()) { double e = round_q(v.rat(), ARF_RND_NEAR); if (std::isfinite(e)) need(d == e, "value", "conversion to double is wrong"); }
    else { B b; v.encl(b.v, 300); arb_t t; arb_init(t); arb_set_d(t, d); arb_sub(t, t, b.v, 200); double err = fabs(arf_get_d(arb_midref(t), ARF_RND_NEAR)); arb_clear(t); if (std::isfinite(d)) need(err <= fabs(d) * ldexp(1, -52) || err < 1e-300, "value", "conversion to double is wrong"); } };
  table["u_pow"] = [](World &w, const vector<string> &a) { powf(false, w, a); };
  table["u_powf"] = [](World &w, const vector<string> &a) { powf(true, w, a); };
  table["z_floor"] = [](World &w, const vector<string> &a) { zfun("floor", z_floor, w, a); };
  table["z_floorf"] = [](World &w, const vector<string> &a) { zfun("floor", z_floorf, w, a); };
  table["z_ceil"] = [](World &w, const vector<string> &a) { zfun("ceil", z_ceil, w, a); };
  table["z_ceilf"] = [](World &w, const vector<string> &a) { zfun("ceil", z_ceilf, w, a); };
  table["z_num"] = [](World &w, const vector<string> &a) { zfun("num", z_num, w, a); };
  table["z_den"] = [](World &w, const vector<string> &a) { zfun("den", z_den, w, a); };
  table["z_content"] = [](World &w, const vector<string> &a) { zfun("content", z_content, w, a); };
  table["z_gnum"] = [](World &w, const vector<string> &a) { zfun("num", z_gnum, w, a); };
  table["z_gden"] = [](World &w, const vector<string> &a) { zfun("den", z_gden, w, a); };
  table["z_mpz"] = [](World &w, const vector<string> &a) { zfun("mpz", z_mpz, w, a); };
  table["z_floordiv"] = [](World &w, const vector<string> &a) { Slot &x = w.good(a.at(0)), &y = w.good(a.at(1)); Val vx = w.val(x), vy = w.val(y); bool ok = x.F == y.F || vx.rational() || vy.rational();
    if (vy.zero()) invalid("division by zero");
    Root *rt = x.F == y.F || vy.rational() ? vx.r : vy.r; mpz_class want; if (ok) want = zof((Val(rt, vx.p) / Val(rt, vy.p)).floor());
    ZH h; try { z_floordiv(h.z(), x.e(), y.e()); h.ok = true; } catch (std::exception &e) { need(!ok, "value", string("exception: ") + e.what()); return; }
    need(ok, "value", "elements of different fields are divided without an exception"); eqz(*h.z(), want, "floordiv"); };
  table["q_mpq"] = [](World &w, const vector<string> &a) { Slot &x = w.good(a.at(0)); Val v = w.val(x); if (!v.rational()) invalid("not rational"); mpq_class want(show(v.rat()));
    alignas(mpq_class) char m[sizeof(mpq_class)]; mpq_class *q = reinterpret_cast<mpq_class *>(m); q_mpq(q, x.e()); mpq_class g(*q); q_free(q); need(g.get_num() == want.get_num() && g.get_den() == want.get_den(), "value", "conversion to mpq gives " + g.get_str()); };
  table["q_grat"] = [](World &w, const vector<string> &a) { Slot &x = w.good(a.at(0)); Val v = w.val(x); if (!v.rational()) invalid("not rational"); mpq_class want(show(v.rat()));
    alignas(mpq_class) char m[sizeof(mpq_class)]; mpq_class *q = reinterpret_cast<mpq_class *>(m); q_grat(q, x.e()); mpq_class g(*q); q_free(q); need(g.get_num() == want.get_num() && g.get_den() == want.get_den(), "value", "conversion to mpq gives " + g.get_str()); };
  table["v_num"] = [](World &w, const vector<string> &a) { Slot &x = w.good(a.at(0)); Val v = w.val(x); typedef vector<mpz_class> V; alignas(V) char m[sizeof(V)]; V *q = reinterpret_cast<V *>(m); v_num(q, x.e()); V g(*q); v_free(q);
    need((slong)g.size() == w.field(x.F).deg, "value", "num_vector has the wrong length"); for (size_t i = 0; i < g.size(); i++) { Z z; if ((slong)i < v.p.v->length) fmpz_set(z.v, v.p.v->coeffs + i); eqz(g[i], zof(z), "num_vector"); } };
  table["v_gnum"] = [](World &w, const vector<string> &a) { Slot &x = w.good(a.at(0)); Val v = w.val(x); typedef vector<mpz_class> V; alignas(V) char m[sizeof(V)]; V *q = reinterpret_cast<V *>(m); v_gnum(q, x.e()); V g(*q); v_free(q);
    need((slong)g.size() == w.field(x.F).deg, "value", "num_vector has the wrong length"); for (size_t i = 0; i < g.size(); i++) { Z z; if ((slong)i < v.p.v->length) fmpz_set(z.v, v.p.v->coeffs + i); eqz(g[i], zof(z), "num_vector"); } };
  table["vec_i"] = [](World &w, const vector<string> &a) { vecop<int>(vec_i, w, a); };
  table["vec_ui"] = [](World &w, const vector<string> &a) { vecop<unsigned>(vec_ui, w, a); };
  table["vec_l"] = [](World &w, const vector<string> &a) { vecop<long>(vec_l, w, a); };
  table["vec_ul"] = [](World &w, const vector<string> &a) { vecop<unsigned long>(vec_ul, w, a); };
  table["vec_z"] = [](World &w, const vector<string> &a) { vecop<mpz_class>(vec_z, w, a); };
  table["vec_q"] = [](World &w, const vector<string> &a) { vecop<mpq_class>(vec_q, w, a); };
  table["e_zero"] = [](World &w, const vector<string> &a) { Slot &t = w.fresh(a.at(0)); e_zero(t.e(), w.field(a.at(1)).p); w.made(t, P(), {a.at(1)}); };
  table["e_default"] = [](World &w, const vector<string> &a) { Slot &t = w.fresh(a.at(0)); e_default(t.e()); w.made(t, P(), {"Q"}); };
  table["e_copy"] = [](World &w, const vector<string> &a) { Slot &y = w.good(a.at(1)), &t = w.fresh(a.at(0)); e_copy(t.e(), y.e()); w.made(t, y.v, {y.F}); };
  table["e_move"] = [](World &w, const vector<string> &a) { Slot &y = w.good(a.at(1)), &t = w.fresh(a.at(0)); e_move(t.e(), y.e()); w.made(t, y.v, {y.F}); y.moved = true; };
  table["e_coerce"] = [](World &w, const vector<string> &a) { Slot &y = w.good(a.at(2)), &t = w.fresh(a.at(0)); bool ok = y.F == a.at(1) || w.val(y).rational();
    try { e_coerce(t.e(), w.field(a.at(1)).p, y.e()); } catch (std::exception &e) { need(!ok, "value", string("exception: ") + e.what()); return; }
    need(ok, "value", "coercion of an irrational element between fields"); w.made(t, y.v, {a.at(1)}); };
  table["e_assign"] = [](World &w, const vector<string> &a) { Slot &x = w.slot(a.at(0)), &y = w.good(a.at(1)); e_assign(x.e(), y.e()); w.set(x, P(y.v), {string(y.F)}); };
  table["e_massign"] = [](World &w, const vector<string> &a) { Slot &x = w.slot(a.at(0)), &y = w.good(a.at(1)); e_massign(x.e(), y.e()); P v = y.v; string F = y.F; if (&x != &y) y.moved = true; w.set(x, v, {F}); };
  table["e_swap"] = [](World &w, const vector<string> &a) { Slot &x = w.slot(a.at(0)), &y = w.slot(a.at(1)); e_swap(x.e(), y.e()); std::swap(x.v, y.v); std::swap(x.F, y.F); std::swap(x.moved, y.moved); };
  table["e_free"] = [](World &w, const vector<string> &a) { Slot &x = w.slot(a.at(0)); e_free(x.e()); x.live = false; };
  table["hash"] = [](World &w, const vector<string> &a) { Slot &x = w.good(a.at(0)), &y = w.good(a.at(1)); Val vx = w.val(x), vy = w.val(y);
    bool same = (x.F == y.F || (vx.rational() && vy.rational())) && fmpq_poly_equal(x.v.v, y.v.v);
    if (!same) invalid("elements are not equal");
    need(u_hash(x.e()) == u_hash(y.e()), "value", "equal elements have different hashes"); };
  table["khash"] = [](World &w, const vector<string> &a) { FX &q = w.field(a.at(0)); if (!q.rf) invalid("field");
    Sc c; auto t = split(get(w.s, a.at(0)), ';'); c["pol"] = t.at(0); c["iv"] = t.at(1); c["prec"] = "200"; RF g(c);
    K k = renf_class::make(g.nf, a.at(0) == "K" ? "k" : "l");
    need(k.get() == q.p, "value", "an equal field is not identical"); need(k_hash(k.get()) == k_hash(q.p), "value", "equal fields have different hashes");
    need(k_equal(k.get(), q.p) && !k_unequal(k.get(), q.p), "value", "a field is not equal to itself");
    for (auto &i : w.f) if (i.first != a.at(0)) need(!k_equal(i.second.p, q.p) && k_unequal(i.second.p, q.p), "value", "different fields are equal"); };
}

void run(const Sc &s) {
  init();
  World w(s);
  w.verify("set-up");
  for (auto &st : split(get(s, "prog"), ';')) {
    auto a = split(st, ','); string n = a.at(0); a.erase(a.begin());
    auto i = table.find(n); if (i == table.end()) invalid("step " + n);
    i->second(w, a);
    w.verify(n);
  }
}
Reg reg("cxx", run);
}
