// Support for the bounded replay harnesses: every check is made against an
// independent reference, the input being tried is always known, and a crash,
// sanitizer report or hang is reported with that input.
#ifndef VH_H
#define VH_H
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <fcntl.h>
#include <unistd.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sstream>
#include <string>
#include <vector>
#include <random>
#include <stdexcept>
#include <typeinfo>
#include <algorithm>
#include <set>
#include <map>
extern "C" void __sanitizer_set_death_callback(void (*)(void));
extern "C" const char *__asan_default_options() { return "handle_abort=1:detect_leaks=0:exitcode=99:hard_rss_limit_mb=6000:detect_stack_use_after_return=0:allocator_may_return_null=0"; }
extern "C" const char *__ubsan_default_options() { return "print_stacktrace=1:abort_on_error=1"; }
namespace vh {
inline void sample();
struct Scope0 { Scope0 *prev; virtual std::string str() = 0; virtual ~Scope0() {} };
inline Scope0 *&top() { static Scope0 *t = 0; return t; }
inline unsigned long &progress() { static unsigned long p = 0; return p; }
inline unsigned long &checks() { static unsigned long p = 0; return p; }
inline int &fails() { static int f = 0; return f; }
inline const char *&secname() { static const char *s = ""; return s; }
template <class F> struct Scope : Scope0 {
  F f; explicit Scope(F f) : f(f) { prev = top(); top() = this; unsigned long n = ++progress(); if (n == 2 || n == 60 || n == 900) sample(); }
  ~Scope() { top() = prev; }
  std::string str() { return f(); }
};
inline std::string inputs() {
  std::string s; std::vector<std::string> v;
  for (Scope0 *p = top(); p; p = p->prev) { try { v.push_back(p->str()); } catch (...) { v.push_back("?"); } }
  for (size_t i = v.size(); i--; ) { if (!s.empty()) s += "; "; s += v[i]; }
  for (size_t i = 0; i < s.size(); ++i) if (s[i] == '\n') s[i] = ' ';
  return s;
}
inline void sample() { std::string s = inputs(); if (s.size() > 300) s.resize(300); for (size_t i = 0; i < s.size(); ++i) if ((unsigned char)s[i] < 32) s[i] = ' '; printf("SAMPLE %s: %s\n", secname(), s.c_str()); fflush(stdout); }
inline bool &thorough() { static bool t = false; return t; }
inline bool &dead() { static bool d = false; return d; }
inline void report(const std::string &what) {
  std::string s = std::string("FAIL ") + secname() + ": " + what + " | input: " + inputs();
  for (size_t i = 0; i < s.size(); ++i) if ((unsigned char)s[i] < 32) s[i] = ' ';
  printf("%s\n", s.c_str()); fflush(stdout);
}
inline void fail(int line, const char *cond, const std::string &more) {
  std::ostringstream o; o << cond << " is false (line " << line << ")"; if (!more.empty()) o << " " << more;
  report(o.str());
  if (++fails() >= 4) { dead() = true; _exit(1); }
}
inline void death() { if (dead()) return; dead() = true; report("crash or sanitizer report"); }
inline void tick(int) {
  static unsigned long last = 0; static int same = 0;
  if (progress() == last) { if (++same >= 10) { if (!dead()) { dead() = true; report("does not terminate (no progress for 20 s)"); } _exit(1); } }
  else { last = progress(); same = 0; }
}
struct Section { const char *prop, *name; void (*fn)(); };
inline std::vector<Section> &sections() { static std::vector<Section> s; return s; }
struct Reg { Reg(const char *p, const char *n, void (*f)()) { Section s = {p, n, f}; sections().push_back(s); } };
inline std::mt19937 &rng() { static std::mt19937 g; return g; }
inline unsigned rnd(unsigned n) { return rng()() % n; }
inline std::string q(const std::string &s) { std::string r = "\""; for (size_t i = 0; i < s.size(); ++i) { char b[8]; if ((unsigned char)s[i] < 32 || (unsigned char)s[i] > 126) { sprintf(b, "\\x%02x", (unsigned char)s[i]); r += b; } else r += s[i]; } return r + "\""; }
inline int main_(int argc, char **argv) {
  const char *prop = argc > 1 ? argv[1] : "";
  thorough() = argc > 2 && !strcmp(argv[2], "thorough");
  int limit = argc > 3 ? atoi(argv[3]) : 300;
  const char *only = argc > 4 ? argv[4] : 0;
  unsigned seed = getenv("VERIF_SEED") ? atoi(getenv("VERIF_SEED")) : 1;
  std::vector<Section> run;
  for (auto &s : sections()) if (!strcmp(s.prop, prop) && (!only || !strcmp(only, s.name))) run.push_back(s);
  std::map<pid_t, std::pair<std::string, int> > live; size_t next = 0; int rc = 0; time_t t0 = time(0);
  while (next < run.size() || !live.empty()) {
    while (next < run.size() && live.size() < 8) {
      int fd[2]; if (pipe(fd)) return 2;
      char tmpl[] = "/tmp/vhXXXXXX"; int out = mkstemp(tmpl);
      fflush(stdout);
      pid_t p = fork();
      if (!p) {
        dup2(out, 1); dup2(out, 2);
        setvbuf(stdout, 0, _IOLBF, 0);
        Section &s = run[next]; secname() = s.name; rng().seed(seed * 7919u + next);
        __sanitizer_set_death_callback(death);
        struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = tick; sa.sa_flags = SA_RESTART; sigaction(SIGPROF, &sa, 0);
        struct itimerval it = {{2, 0}, {2, 0}}; setitimer(ITIMER_PROF, &it, 0);
        try { s.fn(); }
        catch (std::exception &e) { report(std::string("unexpected exception ") + typeid(e).name() + ": " + e.what()); ++fails(); }
        catch (...) { report("unexpected exception"); ++fails(); }
        printf("SECTION %s %s checks=%lu inputs=%lu fails=%d\n", s.prop, s.name, checks(), progress(), fails());
        fflush(stdout); dead() = true; _exit(fails() ? 1 : 0);
      }
      close(fd[0]); close(fd[1]); close(out);
      live[p] = std::make_pair(std::string(tmpl), (int)next); ++next;
    }
    int st; pid_t p = waitpid(-1, &st, WNOHANG);
    if (p <= 0) {
      if (time(0) - t0 > limit) {
        for (auto &l : live) { kill(l.first, SIGKILL); printf("UNFINISHED %s\n", run[l.second.second].name); }
        for (auto &l : live) unlink(l.second.first.c_str());
        return rc;
      }
      usleep(10000); continue;
    }
    if (!live.count(p)) continue;
    FILE *f = fopen(live[p].first.c_str(), "r"); std::string txt; char b[4096]; size_t n; bool any = false;
    while (f && (n = fread(b, 1, sizeof b, f)) > 0) txt.append(b, n);
    if (f) fclose(f);
    unlink(live[p].first.c_str());
    any = txt.find("FAIL ") != std::string::npos;
    fputs(txt.substr(0, 20000).c_str(), stdout);
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
      if (!any) {
        // a death the section could not report itself
        bool killed = WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL;
        printf("%s %s: ended abnormally (status %d)\n", killed ? "UNFINISHED" : "FAIL", run[live[p].second].name, st);
        if (!killed) rc = 1;
      } else rc = 1;
    } else if (any) rc = 1;
    live.erase(p);
  }
  fflush(stdout);
  return rc;
}
}
#define VH_CAT2(a, b) a##b
#define VH_CAT(a, b) VH_CAT2(a, b)
#define SECTION(prop, name) static void VH_CAT(sec_, __LINE__)(); static vh::Reg VH_CAT(reg_, __LINE__)(prop, name, VH_CAT(sec_, __LINE__)); static void VH_CAT(sec_, __LINE__)()
template <class F> vh::Scope<F> vh_scope(F f) { return vh::Scope<F>(f); }
#define INPUT(expr) auto VH_CAT(inlam_, __LINE__) = [&] { std::ostringstream o_; o_ << expr; return o_.str(); }; vh::Scope<decltype(VH_CAT(inlam_, __LINE__))> VH_CAT(insc_, __LINE__)(VH_CAT(inlam_, __LINE__))
#define CHECK(cond) do { ++vh::checks(); if (!(cond)) vh::fail(__LINE__, #cond, ""); } while (0)
#define CHECKM(cond, expr) do { ++vh::checks(); if (!(cond)) { std::ostringstream o_; o_ << expr; vh::fail(__LINE__, #cond, o_.str()); } } while (0)
#define THROWS(type, stmt) do { ++vh::checks(); bool th_ = false; try { stmt; } catch (const type &) { th_ = true; } if (!th_) vh::fail(__LINE__, "throws " #type ": " #stmt, ""); } while (0)
#define NOTHROW(stmt) do { ++vh::checks(); try { stmt; } catch (const std::exception &e_) { vh::fail(__LINE__, "no exception from: " #stmt, e_.what()); } } while (0)
int main(int argc, char **argv) { return vh::main_(argc, argv); }
#endif
