// Replays histories of threads that create, copy and drop fields.
// With VP_SHIM: deterministic, the schedule is part of the scenario. Without: threads run freely (under ThreadSanitizer).
#include "field.h"
#include "../cxx/ops.cpp"
#include <memory>
#include <array>
#include <pthread.h>
#include <sys/time.h>

typedef std::vector<std::vector<string>> Steps;
static Steps parse(const string &t) { Steps r; if (t.empty() || t == "-") return r; for (auto &s : split(t, '|')) r.push_back(split(s, ':')); return r; }

struct TW {
  const Sc &s;
  bool checked;
  std::map<string, std::unique_ptr<RF>> in;
  struct H { string F; const renf_class *p; };
  std::map<string, H> held;
  std::map<string, std::unique_ptr<K>> cell;
  std::map<string, std::unique_ptr<E>> elem;
  std::map<string, string> names;
  pthread_mutex_t mu;
  TW(const Sc &s_, bool c) : s(s_), checked(c) {
    pthread_mutex_init(&mu, nullptr);
    for (string n : {"K", "L", "R", "S", "H"}) { auto t = split(get(s, n == "H" ? "K" : n, "-2,0,1;1/1:2/1"), ';'); if (t.size() != 2) invalid("field"); Sc c; c["pol"] = t[0]; c["iv"] = t[1]; c["prec"] = n == "H" ? "300" : get(s, "prec", "64"); in[n].reset(new RF(c)); }
  }
  static string gen(const string &F) { return F == "M" ? "l" : F == "N" ? "kk" : "k"; }
  static string base(const string &F) { return F == "M" || F == "N" || F == "H" ? "K" : F; }
  ~TW() { pthread_mutex_destroy(&mu); }
  // slots are made before the threads start, so that the bookkeeping itself is not shared
  void prepare(const Steps &ss) { for (auto &t : ss) if (t.at(0) == "make" || t[0] == "copy") cell[t.at(1)]; else if (t[0] == "elem") elem[t.at(1)]; }
  void hold(const string &h, const string &F, const renf_class *p) {
    pthread_mutex_lock(&mu);
    string bad;
    if (checked) for (auto &i : held) { bool eq = gen(i.second.F) == gen(F) && get(s, base(F)) == get(s, base(i.second.F)); if (eq && i.second.p != p) bad = "two objects for the same field"; if (!eq && i.second.p == p) bad = "one object for two different fields"; }
    held[h] = H{F, p};
    pthread_mutex_unlock(&mu);
    need(bad.empty(), "value", bad);
  }
  H take(const string &h, bool erase) { pthread_mutex_lock(&mu); auto i = held.find(h); bool ok = i != held.end(); H r; if (ok) { r = i->second; if (erase) held.erase(i); } pthread_mutex_unlock(&mu); if (!ok) invalid("reference " + h); return r; }
  void step(const vector<string> &a) {
    const string &f = a.at(0);
    if (f == "make") { RF &r = *in[a.at(2) == "H" ? "H" : base(a[2])]; cell.at(a[1]).reset(new K(renf_class::make(r.nf, gen(a[2])))); hold(a[1], a[2], cell.at(a[1])->get()); }
    else if (f == "copy") { H h = take(a.at(2), false); cell.at(a[1]).reset(new K(*cell.at(a[2]))); hold(a[1], h.F, cell.at(a[1])->get()); }
    else if (f == "drop") { take(a.at(1), true); cell.at(a[1]).reset(); }
    else if (f == "use") { H h = take(a.at(1), false); need(h.p->degree() == in[base(h.F)]->deg(), "value", "degree of a field changed"); need(&h.p->gen().parent() == h.p, "value", "parent of the generator is not the field"); }
    else if (f == "elem") { H h = take(a.at(2), false); elem.at(a[1]).reset(new E(*h.p)); pthread_mutex_lock(&mu); held[a[1]] = h; pthread_mutex_unlock(&mu); }
    else if (f == "efree") { take(a.at(1), true); elem.at(a[1]).reset(); }
    else invalid("step " + f);
  }
  void finish() { elem.clear(); held.clear(); cell.clear(); }
};

#ifdef VP_SHIM
namespace {
struct Sched {
  struct T { pthread_cond_t c; int points = 0; bool done = true; void *blocked = nullptr; Steps ss; };
  std::vector<T> t;                 // 0 is unused
  pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
  pthread_cond_t main_c = PTHREAD_COND_INITIALIZER;
  int cur = 0;                      // running thread, 0: none
  bool on = false, over = false;
  std::vector<std::array<int, 3>> plan; size_t pos = 0;
  std::vector<std::array<int, 3>> log;   // preemptions possible after the plan is used up
  std::set<void *> owner;
  Viol *bad = nullptr; Invalid *inv = nullptr;
  TW *w = nullptr;
} S;
thread_local int me = 0;

void hand(int n) { S.cur = n; if (n) pthread_cond_signal(&S.t[n].c); else pthread_cond_signal(&S.main_c); }
void wait_me() { while (S.cur != me && !S.over) pthread_cond_wait(&S.t[me].c, &S.mu); if (S.over) { pthread_mutex_unlock(&S.mu); pthread_exit(nullptr); } }
std::vector<int> runnable(bool self) { std::vector<int> r; for (size_t i = 1; i < S.t.size(); i++) if (!S.t[i].done && ((int)i != me || self) && (!S.t[i].blocked || !S.owner.count(S.t[i].blocked))) r.push_back((int)i); return r; }
// the current thread cannot go on: somebody else
void forced() {
  auto r = runnable(true); int n = 0;
  if (!r.empty()) { n = r[0]; if (S.pos < S.plan.size() && S.plan[S.pos][0] == me && S.plan[S.pos][1] == S.t[me].points) { for (int x : r) if (x == S.plan[S.pos][2]) n = x; S.pos++; } }
  hand(n);
}
void point_locked() {
  S.t[me].points++;
  if (S.pos < S.plan.size()) {
    auto &e = S.plan[S.pos];
    if (e[0] == me && e[1] == S.t[me].points) { for (int x : runnable(false)) if (x == e[2]) { S.pos++; hand(x); wait_me(); return; } }
  } else for (int x : runnable(false)) S.log.push_back({me, S.t[me].points, x});
}
void *body(void *a) {
  me = (int)(size_t)a;
  pthread_mutex_lock(&S.mu); wait_me(); pthread_mutex_unlock(&S.mu);
  try { for (auto &s : S.t[me].ss) S.w->step(s); } catch (Viol &v) { if (!S.bad) S.bad = new Viol(v); } catch (Invalid &v) { if (!S.inv) S.inv = new Invalid(v); } catch (std::exception &e) { if (!S.bad) S.bad = new Viol{"except", e.what()}; }
  pthread_mutex_lock(&S.mu); S.t[me].done = true; forced(); pthread_mutex_unlock(&S.mu);
  return nullptr;
}
}
extern "C" void vp_point(void) { if (!S.on || !me) return; pthread_mutex_lock(&S.mu); point_locked(); pthread_mutex_unlock(&S.mu); }
extern "C" void vp_lock(void *m) {
  if (!S.on || !me) { if (S.owner.count(m)) { fprintf(stderr, "ERROR: deadlock\n"); _exit(90); } S.owner.insert(m); return; }
  pthread_mutex_lock(&S.mu); point_locked();
  while (S.owner.count(m)) { S.t[me].blocked = m; forced(); wait_me(); }
  S.t[me].blocked = nullptr; S.owner.insert(m); pthread_mutex_unlock(&S.mu);
}
extern "C" bool vp_try_lock(void *m) { if (S.on && me) vp_point(); if (S.owner.count(m)) return false; S.owner.insert(m); return true; }
extern "C" void vp_unlock(void *m) { if (!S.on || !me) { S.owner.erase(m); return; } pthread_mutex_lock(&S.mu); S.owner.erase(m); point_locked(); pthread_mutex_unlock(&S.mu); }

static void run_schedule(const Sc &s, const std::vector<std::array<int, 3>> &plan) {
  TW w(s, true);
  Steps pre = parse(get(s, "pre")); w.prepare(pre);
  std::vector<Steps> ts; for (string n : {"t1", "t2", "t3", "t4"}) if (has(s, n)) { ts.push_back(parse(get(s, n))); w.prepare(ts.back()); }
  for (auto &a : pre) w.step(a);
  if (!ts.empty()) {
    S.t.clear(); S.t.resize(ts.size() + 1); S.w = &w; S.plan = plan; S.pos = 0; S.log.clear(); S.cur = 0; S.over = false; S.bad = nullptr; S.inv = nullptr;
    std::vector<pthread_t> th(ts.size() + 1);
    for (size_t i = 1; i <= ts.size(); i++) { pthread_cond_init(&S.t[i].c, nullptr); S.t[i].ss = ts[i - 1]; S.t[i].done = false; }
    S.on = true;
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 8 << 20);
    for (size_t i = 1; i <= ts.size(); i++) pthread_create(&th[i], &at, body, (void *)i);
    pthread_mutex_lock(&S.mu);
    int first = 1; if (!plan.empty() && plan[0][0] == 0) { first = plan[0][2]; S.pos = 1; } 
    hand(first);
    while (S.cur != 0) pthread_cond_wait(&S.main_c, &S.mu);
    bool stuck = false; for (size_t i = 1; i < S.t.size(); i++) stuck = stuck || !S.t[i].done;
    S.over = true; for (size_t i = 1; i < S.t.size(); i++) pthread_cond_signal(&S.t[i].c);
    pthread_mutex_unlock(&S.mu);
    if (stuck) { fprintf(stderr, "ERROR: deadlock\n"); _exit(90); }
    for (size_t i = 1; i <= ts.size(); i++) pthread_join(th[i], nullptr);
    S.on = false;
    if (S.bad) { Viol v = *S.bad; throw v; }
    if (S.inv) { Invalid v = *S.inv; throw v; }
  }
  w.finish();
}

static std::vector<std::array<int, 3>> plan_of(const string &t) {
  std::vector<std::array<int, 3>> r; if (t.empty() || t == "-") return r;
  for (auto &x : split(t, ',')) { auto p = split(x, '.'); if (p.size() != 3) invalid("schedule"); r.push_back({atoi(p[0].c_str()), atoi(p[1].c_str()), atoi(p[2].c_str())}); }
  return r;
}
static string text_of(const std::vector<std::array<int, 3>> &p) { string r; for (auto &e : p) { char b[64]; snprintf(b, sizeof b, "%s%d.%d.%d", r.empty() ? "" : ",", e[0], e[1], e[2]); r += b; } return r.empty() ? "-" : r; }

static void op_thr(const Sc &s) {
  renf_class::make();
  if (!has(s, "search")) { run_schedule(s, plan_of(get(s, "sched"))); return; }
  // all schedules with up to two preemptions, every one in a process of its own
  struct timeval t0, t1; gettimeofday(&t0, nullptr);
  std::vector<std::vector<std::array<int, 3>>> todo;
  int nt = 0; for (string n : {"t1", "t2", "t3", "t4"}) nt += has(s, n);
  for (int i = 1; i <= nt; i++) todo.push_back({{0, 0, i}});
  for (size_t k = 0; k < todo.size(); k++) {
    gettimeofday(&t1, nullptr); if (t1.tv_sec - t0.tv_sec > 20) return;
    auto plan = todo[k];
    int p[2]; if (pipe(p)) invalid("pipe");
    pid_t pid = fork();
    if (pid == 0) {
      close(p[0]); string r;
      try { run_schedule(s, plan); string l; for (auto &e : S.log) { char b[64]; snprintf(b, sizeof b, "%d.%d.%d,", e[0], e[1], e[2]); l += b; } if (!l.empty()) l.pop_back(); r = "OK " + (l.empty() ? string("-") : l); }
      catch (Viol &v) { r = "VIOL " + v.kind + "\n" + v.msg; } catch (Invalid &v) { r = "INVALID"; }
      if (write(p[1], r.c_str(), r.size()) < 0) _exit(4);
      _exit(0);
    }
    close(p[1]); string r; char b[4096]; ssize_t n; while ((n = read(p[0], b, sizeof b)) > 0) r.append(b, n); close(p[0]);
    int st; waitpid(pid, &st, 0);
    if (r.compare(0, 5, "VIOL ") == 0) { auto q = split(r.substr(5), '\n'); viol(q[0], q.at(1) + " with schedule " + text_of(plan)); }
    if (r.empty() && WIFEXITED(st) && WEXITSTATUS(st) == 90) viol("deadlock", "deadlock with schedule " + text_of(plan));
    if (r.empty()) viol("san", "crash with schedule " + text_of(plan));
    if (r.compare(0, 3, "OK ") == 0 && plan.size() < 3) for (auto &e : plan_of(r.substr(3))) { auto q = plan; q.push_back(e); todo.push_back(q); }
  }
}
#else
namespace {
struct Arg { TW *w; Steps *ss; pthread_barrier_t *b; };
void *body(void *p) { Arg *a = (Arg *)p; pthread_barrier_wait(a->b); for (auto &s : *a->ss) a->w->step(s); return nullptr; }
}
static void op_thr(const Sc &s) {
  renf_class::make();
  struct timeval t0, t1; gettimeofday(&t0, nullptr);
  for (int k = 0; k < 4000; k++) {
    gettimeofday(&t1, nullptr); if (t1.tv_sec - t0.tv_sec > 8) return;
    TW w(s, false);
    Steps pre = parse(get(s, "pre")); w.prepare(pre);
    std::vector<Steps> ts; for (string n : {"t1", "t2", "t3", "t4"}) if (has(s, n)) { ts.push_back(parse(get(s, n))); w.prepare(ts.back()); }
    for (auto &a : pre) w.step(a);
    pthread_barrier_t b; pthread_barrier_init(&b, nullptr, ts.size());
    std::vector<pthread_t> th(ts.size()); std::vector<Arg> as(ts.size());
    for (size_t i = 0; i < ts.size(); i++) { as[i] = Arg{&w, &ts[i], &b}; pthread_create(&th[i], nullptr, body, &as[i]); }
    for (auto &t : th) pthread_join(t, nullptr);
    pthread_barrier_destroy(&b);
    w.finish();
  }
}
#endif
static Reg reg("thr", op_thr);
