// Replays reading from streams and round trips of elements and fields through streams, strings and archives.
#include "field.h"
#include <sstream>
#include "../cxx/ops.cpp"
#include <cereal/archives/json.hpp>
#include <cereal/archives/binary.hpp>
#include <cereal/archives/xml.hpp>
#include <cereal/types/string.hpp>
#include <e-antic/cereal.hpp>

namespace {
string unhex(const string &h) { string r; if (h == "-") return r; for (size_t i = 0; i + 1 < h.size(); i += 2) r += (char) strtol(h.substr(i, 2).c_str(), NULL, 16); return r; }
void poly_of(P &p, const string &t) {
  fmpq_poly_zero(p.v);
  if (t == "0") return;
  for (auto &m : split(t, '+')) { auto x = split(m, '*'); Q c(x.at(0)); fmpq_poly_set_coeff_fmpq(p.v, atol(x.at(1).c_str()), c.v); }
}
// a field made from the polynomial and a ball around one of its roots only
K field(const Sc &s, const string &var) {
  P pol(get(s, "pol")); auto iv = split(get(s, "iv"), ':'); Root r(pol, Q(iv.at(0)), Q(iv.at(1)));
  slong prec = atol(get(s, "prec", "64").c_str()); if (prec < 2) invalid("prec");
  B e; slong p = 64;
  for (;; p *= 2) { if (p > 20000) invalid("root"); r.enclosure(e.v, p); if (fmpq_poly_degree(pol.v) == 1 || fmpq_poly_check_unique_real_root(pol.v, e.v, p)) break; }
  renf_t nf; renf_init(nf, pol.v, e.v, prec);
  struct G { renf *nf; ~G() { renf_clear(nf); } } g{nf};
  return renf_class::make(nf, var);
}
void set(E &e, const K &k, const string &a) { P p(a); fmpz_poly_t z; (void) z; P q; fmpq_poly_set(q.v, p.v); if (fmpq_poly_length(q.v) > k->degree()) fmpq_poly_rem(q.v, q.v, k->renf_t()->nf->pol); e = E(*k); renf_elem_set_fmpq_poly(e.renf_elem_t(), q.v, k->renf_t()); }

void read(const Sc &s) {
  string str = unhex(get(s, "str")), var = unhex(get(s, "var")), want = get(s, "want");
  P w; poly_of(w, get(s, "poly"));
  slong deg = atol(get(s, "deg", "3").c_str());
  string pol = "-2"; for (slong i = 1; i < deg; i++) pol += ",0"; pol += ",1";
  Sc c; c["pol"] = pol; c["iv"] = deg == 1 ? "1:3" : "1:2"; c["prec"] = "64"; RF f(c);
  K k = renf_class::make(f.nf, var);
  std::istringstream is(str); i_pword(&is, k.get());
  E e(17); bool threw = false; string what;
  try { i_elem(&is, &e); } catch (std::invalid_argument &x) { threw = true; what = x.what(); }
  if (want == "any") return;
  if (threw || (is.fail() && want != "must")) { need(want != "must", "value", "an element cannot be read: " + what); need(!threw || e == 17, "value", "the element is changed although nothing could be read"); return; }
  need(want != "throw" && want != "bad", "value", "an element is read although there is none");
  need(!is.fail(), "value", "the stream reports a failure although an element was read");
  is.clear();
  need(is.tellg() == std::streampos(atol(get(s, "end").c_str())), "value", "the stream is not left behind the element");
  need(&e.parent() == k.get(), "value", "the element is read in another field");
  Val v(&f.root, w); P p; nf_elem_get_fmpq_poly(p.v, e.renf_elem_t()->elem, k->renf_t()->nf);
  need(Val(&f.root, p).eq(v), "value", "wrong element " + show(p));
  need(ball_has(e.renf_elem_t()->emb, v), "encl", "wrong enclosure");
}

template <class O, class I> void archive(const E &a, const E &b, const K &k, std::vector<E> &out, K &l) {
  std::stringstream st;
  { O o(st); o(cereal::make_nvp("a", a), cereal::make_nvp("k", k), cereal::make_nvp("b", b), cereal::make_nvp("c", a)); }
  I i(st); E x, y, z; i(x, l, y, z); out = {x, y, z};
}
void same(const E &x, const E &a, const string &how) {
  need(&x.parent() == &a.parent(), "value", how + ": the element is read in another field");
  need(nf_elem_equal(x.renf_elem_t()->elem, a.renf_elem_t()->elem, a.parent().renf_t()->nf), "value", how + ": another element is read than was written");
  need(arb_overlaps(x.renf_elem_t()->emb, a.renf_elem_t()->emb), "encl", how + ": wrong enclosure");
}
void rt(const Sc &s) {
  string var = get(s, "var", "a"), how = get(s, "how");
  K k = field(s, var); E a, b; set(a, k, get(s, "A")); set(b, k, get(s, "B"));
  // an element of another field in between
  Sc c; c["pol"] = "-7,0,1"; c["iv"] = "2:3"; K other = field(c, "w"); E o; set(o, other, "1,2/3");
  try {
  if (how == "stream") {
    std::stringstream st; st << a << " " << b << "\n" << a; i_pword(&st, k.get());
    E x, y, z; st >> x; same(x, a, how); st >> y; same(y, b, how); st >> z; same(z, a, how);
    need(!st.fail(), "value", "the stream reports a failure although an element was read");
  } else if (how == "string") {
    for (int fl : {EANTIC_STR_ALG, EANTIC_STR_ALG | EANTIC_STR_D, EANTIC_STR_ALG | EANTIC_STR_ARB}) {
      string t = a.to_string(fl); if (fl != EANTIC_STR_ALG) t = t.substr(1, t.size() - 2);
      same(E(*k, t), a, how);
    }
  } else {
    std::vector<E> v; K l;
    E &second = get(s, "A").size() % 2 ? b : o;
    if (how == "json") archive<cereal::JSONOutputArchive, cereal::JSONInputArchive>(a, second, k, v, l);
    else if (how == "binary") archive<cereal::BinaryOutputArchive, cereal::BinaryInputArchive>(a, second, k, v, l);
    else archive<cereal::XMLOutputArchive, cereal::XMLInputArchive>(a, second, k, v, l);
    need(l.get() == k.get(), "value", how + ": another field is read than was written");
    same(v[0], a, how); same(v[1], second, how); same(v[2], a, how);
  }
  } catch (std::exception &x) { need(false, "value", how + ": what was written cannot be read: " + x.what()); }
}
void again(const Sc &s) {
  string var = get(s, "var", "a");
  K k = field(s, var); slong prec = k->renf_t()->prec;
  renf_t copy; renf_init_set(copy, k->renf_t());
  struct G { renf *nf; ~G() { renf_clear(nf); } } g{copy};
  auto try_ = [&](const string &when) {
    K l;
    try { alignas(K) char mem[sizeof(K)]; K *r = reinterpret_cast<K *>(mem); k_again(r, k.get()); l = *r; r->~K(); }
    catch (std::exception &x) { need(false, "value", when + "the description of a field does not describe a field: " + x.what()); }
    need(l.get() == k.get(), "value", when + "another field is made from the description of a field");
  };
  try_("");
  need(k->renf_t()->prec == prec && k->renf_t()->immutable == 0, "value", "describing a field changes it");
  // when the field is gone
  auto c = k->construction(); k = K();
  try { k = renf_class::make(std::get<0>(c), std::get<1>(c), std::get<2>(c), std::get<3>(c)); } catch (std::exception &x) { need(false, "value", string("the description of a field does not describe a field: ") + x.what()); }
  need(renf_equal(k->renf_t(), copy) && k->gen_name() == var, "value", "the description of a field describes another field");
  renf_refine_embedding(k->renf_t(), 2 * prec + 40);
  try_("after refinement: ");
  renf_set_immutable(k->renf_t(), 1); try_("immutable: "); renf_set_immutable(k->renf_t(), 0);
}
struct Init { Init() { ops()["read"] = read; ops()["rt"] = rt; ops()["again"] = again; } } init_;
}
