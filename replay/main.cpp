// Replay driver: reads scenarios (one per line, key=value tokens), runs each on the real library in a child process.
#include "driver.h"
std::map<string, OpFn> &ops() { static std::map<string, OpFn> m; return m; }

static void limited_sleep_alarm(int s) { alarm(s); }

static string once(const Sc &s) {
  auto i = ops().find(get(s, "op"));
  if (i == ops().end()) return "INVALID unknown op";
  try { i->second(s); } catch (Viol &v) { return "VIOL " + v.kind + " " + v.msg; } catch (Invalid &v) { return "INVALID " + v.why; }
  catch (std::exception &e) { return string("VIOL except unexpected exception ") + e.what(); }
  return "OK";
}

static string leak(const Sc &s) {
  // memory growth over many repetitions of set-up, call and tear-down
  size_t b[4];
  for (int k = 0; k < 4; k++) {
    for (int i = 0; i < (k == 0 ? 60 : 80); i++) {
      string r = once(s);
      if (r.compare(0, 4, "VIOL") == 0) return r;
      if (r != "OK") return r;
    }
    flint_cleanup();
    b[k] = __sanitizer_get_current_allocated_bytes();
  }
  // by at least 8 bytes per call, or by the same number of bytes in each of the three rounds
  if (b[1] > b[0] && b[2] > b[1] && b[3] > b[2] && (b[3] - b[0] >= 240 * 8 || (b[1] - b[0] >= 80 && b[1] - b[0] == b[2] - b[1] && b[2] - b[1] == b[3] - b[2]))) {
    char t[200]; snprintf(t, sizeof t, "VIOL leak allocated memory grows with every call: %zu %zu %zu %zu bytes", b[0], b[1], b[2], b[3]);
    return t;
  }
  return "OK";
}

int main() {
  setvbuf(stdout, NULL, _IOLBF, 0);
  string line; int c; long idx = 0;
  vector<string> lines; string cur;
  while ((c = getchar()) != EOF) { if (c == '\n') { lines.push_back(cur); cur.clear(); } else cur += (char)c; }
  if (!cur.empty()) lines.push_back(cur);
  for (auto &l : lines) {
    Sc s; for (auto &t : split(l, ' ')) { if (t.empty()) continue; size_t e = t.find('='); if (e == string::npos) continue; s[t.substr(0, e)] = t.substr(e + 1); }
    int pfd[2], efd[2]; if (pipe(pfd) || pipe(efd)) return 3;
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
      close(pfd[0]); close(efd[0]); dup2(efd[1], 2);
      int dn = open("/dev/null", 1); if (dn >= 0) dup2(dn, 1);
      struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
      limited_sleep_alarm(atoi(get(s, "timeout", has(s, "leak") ? "20" : "10").c_str()));
      string r = has(s, "leak") ? leak(s) : once(s);
      r += "\n"; if (write(pfd[1], r.c_str(), r.size()) < 0) _exit(4);
      _exit(0);
    }
    close(pfd[1]); close(efd[1]);
    string r, e; char buf[4096]; ssize_t n;
    // stderr first may block the child only if it fills the result pipe, which is short
    while ((n = read(efd[0], buf, sizeof buf)) > 0) if (e.size() < 20000) e.append(buf, n);
    while ((n = read(pfd[0], buf, sizeof buf)) > 0) r.append(buf, n);
    close(pfd[0]); close(efd[0]);
    int st; waitpid(pid, &st, 0);
    string res;
    if (!r.empty()) { res = r; while (!res.empty() && res.back() == '\n') res.pop_back(); }
    else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) res = "VIOL hang no result within the time limit";
    else {
      string first;
      for (auto &x : split(e, '\n')) if (x.find("ERROR: ") != string::npos || x.find("runtime error") != string::npos || x.find("ssert") != string::npos || x.find("xception") != string::npos || x.find("terminate") != string::npos) { first = x; break; }
      if (first.empty()) first = e.substr(0, 200);
      string kind = e.find("Sanitizer") != string::npos || e.find("runtime error") != string::npos ? "san" : "abort";
      if (e.find("out of memory") != string::npos || e.find("allocation-size-too-big") != string::npos) kind = "san";
      if (e.find("PRECISION ERROR: ") != string::npos) kind = "prec";
      if (e.find("ThreadSanitizer") != string::npos) { kind = "race"; for (auto &x : split(e, '\n')) if (x.find("SUMMARY: ") != string::npos) first = x; }
      if (e.find("ERROR: deadlock") != string::npos) kind = "deadlock";
      char t[64]; snprintf(t, sizeof t, " (status %x)", st);
      res = "VIOL " + kind + " " + first + t;
    }
    for (auto &ch : res) if (ch == '\n') ch = ' ';
    printf("%ld %s\n", idx++, res.c_str());
  }
  return 0;
}
