// Thin entry points into the C++ interface; compiled both for the symbolic executor and for the replay driver.
// x, y: existing elements, r: raw storage in which a result is constructed.
#include <new>
#include <string>
#include <vector>
#include <gmpxx.h>
#include <e-antic/renf_class.hpp>
#include <e-antic/renf_elem_class.hpp>

using eantic::renf_class;
typedef eantic::renf_elem_class E;
typedef boost::intrusive_ptr<const renf_class> K;

#ifdef VP_CPPYY
// the operators as Python reaches them
#include <e-antic/cppyy.hpp>
namespace { namespace op = eantic::cppyy;
#define PY(N, M) template <class S, class T> auto py_##N(const S &a, const T &b) { return op::M(a, b); }
PY(add, add) PY(sub, sub) PY(mul, mul) PY(div, truediv) }
#define BIN(N, O, A, B) py_##N(A, B)
#else
#define BIN(N, O, A, B) A O B
#endif
#define OP(N, O, T, S) \
extern "C" void c_##N##_##S(E *, E *x, T y) { *x O##= y; } \
extern "C" void l_##N##_##S(E *r, E *x, T y) { new (r) E(BIN(N, O, *x, y)); } \
extern "C" void r_##N##_##S(E *r, E *x, T y) { new (r) E(BIN(N, O, y, *x)); }
#define REL(N, O, T, S) \
extern "C" bool l_##N##_##S(E *x, T y) { return *x O y; } \
extern "C" bool r_##N##_##S(E *x, T y) { return y O *x; }
#define SCALAR(T, S) \
OP(add, +, T, S) OP(sub, -, T, S) OP(mul, *, T, S) OP(div, /, T, S) \
REL(eq, ==, T, S) REL(ne, !=, T, S) REL(lt, <, T, S) REL(gt, >, T, S) REL(le, <=, T, S) REL(ge, >=, T, S) \
extern "C" void make_##S(E *r, const renf_class *k, T y) { new (r) E(*k, y); } \
extern "C" void makeq_##S(E *r, T y) { new (r) E(y); } \
extern "C" void assign_##S(E *x, T y) { *x = y; }
SCALAR(short, sh) SCALAR(unsigned short, us) SCALAR(int, i) SCALAR(unsigned int, ui) SCALAR(long, l) SCALAR(unsigned long, ul) SCALAR(long long, ll)
SCALAR(unsigned long long, ull) SCALAR(const mpz_class &, z) SCALAR(const mpq_class &, q)
extern "C" void make_fz(E *r, const renf_class *k, fmpz_t y) { new (r) E(*k, y); }
extern "C" void makeq_fz(E *r, fmpz_t y) { new (r) E(y); }
extern "C" void assign_fz(E *x, fmpz_t y) { *x = y; }
extern "C" void make_fq(E *r, const renf_class *k, fmpq_t y) { new (r) E(*k, y); }
extern "C" void makeq_fq(E *r, fmpq_t y) { new (r) E(y); }
extern "C" void assign_fq(E *x, fmpq_t y) { *x = y; }

#define EOP(N, O) \
extern "C" void c_##N##_e(E *, E *x, E *y) { *x O##= *y; } \
extern "C" void l_##N##_e(E *r, E *x, E *y) { new (r) E(BIN(N, O, *x, *y)); }
#define EREL(N, O) extern "C" bool l_##N##_e(E *x, E *y) { return *x O *y; }
EOP(add, +) EOP(sub, -) EOP(mul, *) EOP(div, /)
EREL(eq, ==) EREL(ne, !=) EREL(lt, <) EREL(gt, >) EREL(le, <=) EREL(ge, >=)

#ifdef VP_CPPYY
extern "C" void u_neg(E *r, E *x) { new (r) E(eantic::cppyy::neg(*x)); }
extern "C" void q_mpq(mpq_class *q, E *x) { new (q) mpq_class(eantic::cppyy::rational(*x)); }
#else
extern "C" void u_neg(E *r, E *x) { new (r) E(-*x); }
extern "C" void q_mpq(mpq_class *q, E *x) { new (q) mpq_class(static_cast<mpq_class>(*x)); }
#endif
extern "C" void u_pos(E *r, E *x) { new (r) E(+*x); }
extern "C" bool u_bool(E *x) { return static_cast<bool>(*x); }
extern "C" void u_pow(E *r, E *x, int n) { new (r) E(x->pow(n)); }
extern "C" void u_powf(E *r, E *x, int n) { new (r) E(eantic::pow(*x, n)); }
extern "C" void z_floordiv(mpz_class *z, E *x, E *y) { new (z) mpz_class(x->floordiv(*y)); }
extern "C" void z_floor(mpz_class *z, E *x) { new (z) mpz_class(x->floor()); }
extern "C" void z_floorf(mpz_class *z, E *x) { new (z) mpz_class(eantic::floor(*x)); }
extern "C" void z_ceil(mpz_class *z, E *x) { new (z) mpz_class(x->ceil()); }
extern "C" void z_ceilf(mpz_class *z, E *x) { new (z) mpz_class(eantic::ceil(*x)); }
extern "C" void z_num(mpz_class *z, E *x) { new (z) mpz_class(x->num()); }
extern "C" void z_den(mpz_class *z, E *x) { new (z) mpz_class(x->den()); }
extern "C" void z_content(mpz_class *z, E *x) { new (z) mpz_class(x->num_content()); }
extern "C" void z_mpz(mpz_class *z, E *x) { new (z) mpz_class(static_cast<mpz_class>(*x)); }
extern "C" void v_num(std::vector<mpz_class> *v, E *x) { new (v) std::vector<mpz_class>(x->num_vector()); }
extern "C" size_t v_size(std::vector<mpz_class> *v) { return v->size(); }
extern "C" mpz_class *v_at(std::vector<mpz_class> *v, size_t i) { return &(*v)[i]; }
extern "C" void v_free(std::vector<mpz_class> *v) { v->~vector(); }
extern "C" void z_free(mpz_class *z) { z->~mpz_class(); }
extern "C" void q_free(mpq_class *q) { q->~mpq_class(); }
extern "C" int u_sgn(E *x) { return x->sgn(); }
extern "C" bool u_is_zero(E *x) { return x->is_zero(); }
extern "C" bool u_is_one(E *x) { return x->is_one(); }
extern "C" bool u_is_integer(E *x) { return x->is_integer(); }
extern "C" bool u_is_rational(E *x) { return x->is_rational(); }
extern "C" double u_double(E *x) { return static_cast<double>(*x); }
extern "C" size_t u_hash(E *x) { return std::hash<E>()(*x); }
extern "C" size_t k_hash(const renf_class *k) { return std::hash<renf_class>()(*k); }
extern "C" long k_degree(const renf_class *k) { return k->degree(); }
extern "C" bool k_equal(const renf_class *k, const renf_class *l) { return *k == *l; }
extern "C" bool k_unequal(const renf_class *k, const renf_class *l) { return *k != *l; }
extern "C" const E *k_gen(const renf_class *k) { return &k->gen(); }
extern "C" const E *k_zero(const renf_class *k) { return &k->zero(); }
extern "C" const E *k_one(const renf_class *k) { return &k->one(); }

// coefficient vectors
#define VEC(T, S) \
extern "C" void vec_##S(E *r, const renf_class *k, const T *c, size_t n) { std::vector<T> v; v.reserve(n); for (size_t i = 0; i < n; i++) v.push_back(c[i]); new (r) E(*k, v); }
VEC(int, i) VEC(unsigned int, ui) VEC(long, l) VEC(unsigned long, ul) VEC(mpz_class, z) VEC(mpq_class, q)

// life cycle
extern "C" void e_zero(E *r, const renf_class *k) { new (r) E(*k); }
extern "C" void e_default(E *r) { new (r) E(); }
extern "C" void e_copy(E *r, E *y) { new (r) E(*y); }
extern "C" void e_move(E *r, E *y) { new (r) E(std::move(*y)); }
extern "C" void e_coerce(E *r, const renf_class *k, E *y) { new (r) E(*k, *y); }
extern "C" void e_assign(E *x, E *y) { *x = *y; }
extern "C" void e_massign(E *x, E *y) { *x = std::move(*y); }
extern "C" void e_swap(E *x, E *y) { using std::swap; swap(*x, *y); }
extern "C" void e_free(E *x) { x->~E(); }
extern "C" const renf_class *e_parent(E *x) { return &x->parent(); }
extern "C" renf_elem *e_data(E *x) { return x->renf_elem_t(); }
extern "C" unsigned long e_sizeof() { return sizeof(E); }

// fields
extern "C" void k_make(K *r, renf_t nf, const char *name) { new (r) K(renf_class::make(nf, name)); }
extern "C" const renf_class *k_rational() { return &renf_class::make(); }
extern "C" void k_copy(K *r, K *k) { new (r) K(*k); }
extern "C" void k_free(K *k) { k->~K(); }
extern "C" const renf_class *k_get(K *k) { return k->get(); }
extern "C" renf *k_data(const renf_class *k) { return k->renf_t(); }

// deprecated names
#pragma clang diagnostic push
#pragma clang diagnostic ignored "-Wdeprecated-declarations"
extern "C" void z_gnum(mpz_class *z, E *x) { new (z) mpz_class(x->get_num()); }
extern "C" void z_gden(mpz_class *z, E *x) { new (z) mpz_class(x->get_den()); }
extern "C" void q_grat(mpq_class *q, E *x) { new (q) mpq_class(x->get_rational()); }
extern "C" void v_gnum(std::vector<mpz_class> *v, E *x) { new (v) std::vector<mpz_class>(x->get_num_vector()); }
extern "C" double u_getd(E *x) { return x->get_d(); }
#pragma clang diagnostic pop

extern "C" void e_str(E *r, const renf_class *k, const char *s) { new (r) E(*k, std::string(s)); }
extern "C" void k_make_str(K *r, const char *pol, const char *gen, const char *emb, slong prec) { new (r) K(renf_class::make(pol, gen, emb, prec)); }
extern "C" void s_elem(std::string *r, E *x, int flags) { new (r) std::string(x->to_string(flags)); }
extern "C" void s_get(std::string *r, E *x, int flags) { new (r) std::string(x->get_str(flags)); }
extern "C" void s_conv(std::string *r, E *x) { new (r) std::string(static_cast<std::string>(*x)); }
extern "C" void s_field(std::string *r, const renf_class *k) { new (r) std::string(k->to_string()); }
extern "C" void s_free(std::string *r) { r->~basic_string(); }
extern "C" void o_elem(std::ostream *o, E *x) { *o << *x; }
extern "C" void o_field(std::ostream *o, const renf_class *k) { *o << *k; }
extern "C" void i_elem(std::istream *i, E *x) { *i >> *x; }
extern "C" void i_pword(std::istream *i, const renf_class *k) { k->set_pword(*i); }
extern "C" void i_istream(std::istream *i, const renf_class *k) { k->set_istream(*i); }
// the field made from its own description
extern "C" void k_again(K *r, const renf_class *k) { auto c = k->construction(); new (r) K(renf_class::make(std::get<0>(c), std::get<1>(c), std::get<2>(c), std::get<3>(c))); }
