// An archive that keeps what is written in memory; compiled for the symbolic executor.
#include <new>
#include <string>
#include <cstring>
#include <stdexcept>
#include <e-antic/renf_class.hpp>
#include <e-antic/renf_elem_class.hpp>
#include <e-antic/cereal.hpp>

using eantic::renf_class;
typedef eantic::renf_elem_class E;
typedef boost::intrusive_ptr<const renf_class> K;

namespace {
struct Cell { int tag; const char *name; uint32_t id; slong n; std::string s; };
constexpr int SIZE = 24;
struct Store { int n = 0; Cell cell[SIZE]; };

struct Out {
  Store *st; int known = 0; const void *seen[4];
  Cell &next(int tag, const char *name) { if (st->n == SIZE) throw std::logic_error("archive"); Cell &c = st->cell[st->n++]; c.tag = tag; c.name = name; return c; }
  void one(const uint32_t &v, const char *name) { next(1, name).id = v; }
  void one(const std::string &v, const char *name) { next(2, name).s = v; }
  void one(const slong &v, const char *name) { next(3, name).n = v; }
  void one(const K &v, const char *name) { next(4, name); eantic::save(*this, v); next(5, nullptr); }
  void one(const E &v, const char *name) { next(6, name); eantic::save(*this, v); next(7, nullptr); }
  template <class T> void item(const cereal::NameValuePair<T> &v) { one(v.value, v.name); }
  template <class T> void item(const T &v) { one(v, nullptr); }
  template <class... T> void operator()(T &&...v) { (item(v), ...); }
  template <class P> uint32_t registerSharedPointer(const P &p) {
    const void *a = &*p;
    for (int i = 0; i < known; i++) if (seen[i] == a) return i + 1;
    seen[known++] = a;
    return static_cast<uint32_t>(known) | static_cast<uint32_t>(cereal::detail::msb_32bit);
  }
};

struct In {
  Store *st; int pos = 0; std::shared_ptr<void> kept[4];
  Cell &next(int tag, const char *name) {
    if (pos == st->n) throw std::logic_error("archive");
    Cell &c = st->cell[pos++];
    // a value that is asked for by name is the one stored under that name
    if (c.tag != tag || name && (!c.name || strcmp(name, c.name))) throw std::logic_error("archive");
    return c;
  }
  void one(uint32_t &v, const char *name) { v = next(1, name).id; }
  void one(std::string &v, const char *name) { v = next(2, name).s; }
  void one(slong &v, const char *name) { v = next(3, name).n; }
  void one(K &v, const char *name) { next(4, name); eantic::load(*this, v); next(5, nullptr); }
  void one(E &v, const char *name) { next(6, name); eantic::load(*this, v); next(7, nullptr); }
  template <class T> void item(cereal::NameValuePair<T> &v) { one(v.value, v.name); }
  template <class T> void item(cereal::NameValuePair<T> &&v) { one(v.value, v.name); }
  template <class T> void item(T &v) { one(v, nullptr); }
  template <class... T> void operator()(T &&...v) { (item(v), ...); }
  void registerSharedPointer(uint32_t id, const std::shared_ptr<void> &p) { kept[(id & ~static_cast<uint32_t>(cereal::detail::msb_32bit)) - 1] = p; }
  std::shared_ptr<void> getSharedPointer(uint32_t id) {
    if (id == 0 || id > 4 || !kept[id - 1]) throw std::logic_error("archive");
    return kept[id - 1];
  }
};
}

extern "C" size_t a_sizeof() { return sizeof(Store); }
extern "C" void a_new(Store *s) { new (s) Store; }
extern "C" void a_free(Store *s) { s->~Store(); }
// n elements in one archive
extern "C" void a_save(Store *s, E *x, E *y) { Out o{s}; o(*x); if (y) o(*y); }
extern "C" void a_load(Store *s, E *x, E *y) { In i{s}; i(*x); if (y) i(*y); }
// fields and elements mixed
extern "C" void a_save_field(Store *s, const renf_class *k, E *x) { Out o{s}; o(K(k)); if (x) o(*x); }
extern "C" void a_load_field(Store *s, K *k, E *x) { In i{s}; i(*k); if (x) i(*x); }
