// Runs one contract case at a time on the real code: arguments and results as text, one child process per case.
#pragma once
#include <tuple>
#include <vector>
#include <complex>
#include <string>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <csignal>
#include <exception>
#include <thread>
#include <atomic>
#include <unistd.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sanitizer/allocator_interface.h>

struct vc_entry { int id; void (*fn)(); };
static char* vc_arg[16];         // text of the arguments
static int vc_alias[16];
static void* vc_objv[16];
static void (*vc_del[16])(void*);
static char vc_out[1 << 24]; static size_t vc_n;
static long vc_live;
static void vc_mh(const volatile void*, size_t) { vc_live++; }
static void vc_fh(const volatile void* p) { if (p) vc_live--; }
static void vc_put(const char* f, ...) {
  va_list a; va_start(a, f);
  int k = vsnprintf(vc_out + vc_n, sizeof vc_out - vc_n, f, a); va_end(a);
  if (k > 0 && vc_n + k < sizeof vc_out) vc_n += k;
}
static char* vc_cur;
static long long vc_int() { char* e; long long v = strtoll(vc_cur, &e, 0); vc_cur = e; return v; }
static unsigned long long vc_uint() { while (*vc_cur == ' ') vc_cur++; char* e; unsigned long long v = strtoull(vc_cur, &e, 0); vc_cur = e; return v; }
static double vc_dbl() { char* e; double v = strtod(vc_cur, &e); vc_cur = e; return v; }
// bytes held by the objects reported so far (each once), compared with the memory tracker
static const void* vc_seen[32]; static int vc_nseen; static size_t vc_held; static bool vc_tracked;
static void vc_held_add(const void* p, size_t n) {
  vc_tracked = true;
  for (int k = 0; k < vc_nseen; k++) if (vc_seen[k] == p) return;
  vc_seen[vc_nseen++] = p; vc_held += n;
}
static void vc_balance() {
  if (!vc_tracked) return;
  unsigned long long v = 0; long l = vc_live;
  std::thread([&] { v = susa::memory_tacker::instance().read(); }).join();   // one tracker for all threads
  vc_live = l;
  vc_put("tracker %llu %llu\n", v, (unsigned long long)vc_held);
}
// balanced changes by several threads at once leave the tracker as it was
template <class T> static void vc_threads(T& t) {
  long l = vc_live;
  {
    std::thread th[4]; std::atomic<int> go(0);
    for (auto& x : th) x = std::thread([&] { go++; while (go < 4) {} for (int k = 0; k < 500; k++) { t.add(1); t.sub(1); } });
    for (auto& x : th) x.join();
  }
  vc_live = l;
}
// ------------------------------------------------------------- reading
template <class T> struct vc_io {
  static T* rd() { return new T((T)vc_int()); }
  static void wr(const T& v) { if (std::is_unsigned<T>::value) vc_put(" %llu", (unsigned long long)v); else vc_put(" %lld", (long long)v); }
};
template <> struct vc_io<unsigned long> { static unsigned long* rd() { return new unsigned long(vc_uint()); } static void wr(unsigned long v) { vc_put(" %lu", v); } };
template <> struct vc_io<double> { static double* rd() { return new double(vc_dbl()); } static void wr(double v) { vc_put(" %a", v); } };
template <> struct vc_io<float> { static float* rd() { return new float((float)vc_dbl()); } static void wr(float v) { vc_put(" %a", (double)v); } };
template <class T> struct vc_io<std::complex<T>> {
  static std::complex<T>* rd() { T* a = vc_io<T>::rd(); T* b = vc_io<T>::rd(); auto r = new std::complex<T>(*a, *b); delete a; delete b; return r; }
  static void wr(const std::complex<T>& v) { vc_io<T>::wr(v.real()); vc_io<T>::wr(v.imag()); }
};
template <class T> static T vc_val() { T* p = vc_io<T>::rd(); T v = *p; delete p; return v; }
template <class T> struct vc_bal { static void add(const void*, size_t) {} };
template <class T> struct vc_bal<susa::allocator_log<T>> { static void add(const void* p, size_t n) { vc_held_add(p, n * sizeof(T)); } };
template <class T, class A> struct vc_io<susa::matrix<T, A>> {
  static susa::matrix<T, A>* rd() {
    size_t r = vc_uint(), c = vc_uint();
    if (!r) return new susa::matrix<T, A>();
    auto m = new susa::matrix<T, A>(r, c);
    for (size_t k = 0; k < r * c; k++) (*m)(k) = vc_val<T>();
    return m;
  }
  static void wr(const susa::matrix<T, A>& m) {
    vc_bal<A>::add(&m, m.size());
    vc_put(" %zu %zu", m.no_rows(), m.no_cols());
    if (m.no_rows() * m.no_cols() != m.size()) vc_put(" inconsistent");
    for (size_t k = 0; k < m.size(); k++) vc_io<T>::wr(m.get(k));
  }
};
template <class T> struct vc_io<susa::allocator_log<T>> {
  static susa::allocator_log<T>* rd() { return new susa::allocator_log<T>(); }
  static void wr(const susa::allocator_log<T>&) {}
};
template <class T> struct vc_io<std::vector<T>> {
  static std::vector<T>* rd() { size_t n = vc_uint(); auto v = new std::vector<T>(); v->reserve(n); for (size_t k = 0; k < n; k++) v->push_back(vc_val<T>()); return v; }
  static void wr(const std::vector<T>& v) { vc_put(" %zu", v.size()); for (const auto& x : v) vc_io<T>::wr(x); }
};
template <> struct vc_io<std::string> {
  static std::string* rd() { size_t n = vc_uint(); auto s = new std::string(); for (size_t k = 0; k < n; k++) s->push_back((char)vc_int()); return s; }
  static void wr(const std::string& s) { vc_put(" %zu", s.size()); for (unsigned char c : s) vc_put(" %d", (int)c); }
};
template <> struct vc_io<std::tuple<size_t, size_t>> {
  static std::tuple<size_t, size_t>* rd() { size_t a = vc_uint(), b = vc_uint(); return new std::tuple<size_t, size_t>(a, b); }
  static void wr(const std::tuple<size_t, size_t>& t) { vc_put(" %zu %zu", std::get<0>(t), std::get<1>(t)); }
};
template <class T> T& vc_ref(int k) {
  if (vc_alias[k] >= 0) k = vc_alias[k];
  if (!vc_objv[k]) {
    vc_cur = vc_arg[k]; vc_objv[k] = vc_io<T>::rd();
    vc_del[k] = [](void* p) { delete (T*)p; };
  }
  return *(T*)vc_objv[k];
}
// ------------------------------------------------------------- writing
template <class T> void vc_res(const T& v) { vc_put("ret"); vc_io<T>::wr(v); vc_put("\n"); }
template <class T> void vc_res(T* p) { vc_put("ret"); vc_io<T>::wr(*p); vc_put("\n"); }
template <class T> void vc_post(const char* n, const T& v) { vc_put("post %s", n); vc_io<T>::wr(v); vc_put("\n"); }

extern vc_entry vc_table[];
static void vc_term() { _exit(87); }
int main() {
  std::ios_base::Init ini;
  char* line = nullptr; size_t cap = 0;
  // each case: id nargs, then one line per argument ("@k" = same object as argument k)
  while (getline(&line, &cap, stdin) > 0) {
    int id, n; if (sscanf(line, "%d %d", &id, &n) != 2) break;
    static char* keep[16];
    for (int k = 0; k < n; k++) {
      char* l = nullptr; size_t c = 0; ssize_t len = getline(&l, &c, stdin);
      if (len <= 0) return 2;
      free(keep[k]); keep[k] = l; vc_arg[k] = l; vc_alias[k] = l[0] == '@' ? atoi(l + 1) : -1;
    }
    fflush(stdout);
    pid_t p = fork();
    if (p == 0) {
      alarm(10);
      std::set_terminate(vc_term);
      struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
      fclose(stdin);
      __sanitizer_install_malloc_and_free_hooks(vc_mh, vc_fh);
      for (vc_entry* e = vc_table; e->fn; e++) if (e->id == id) {
        vc_live = 0;
        e->fn();
        for (int k = 0; k < 16; k++) if (vc_objv[k]) vc_del[k](vc_objv[k]);
        vc_put("live %ld\n", vc_live);
        vc_put("tracker %llu 0\n", (unsigned long long)susa::memory_tacker::instance().read());
      }
      size_t o = 0; while (o < vc_n) { ssize_t w = write(1, vc_out + o, vc_n - o); if (w <= 0) break; o += w; }
      _exit(0);
    }
    int st; waitpid(p, &st, 0);
    if (WIFEXITED(st)) printf("end exit %d\n", WEXITSTATUS(st));
    else printf("end signal %d\n", WTERMSIG(st));
    fflush(stdout);
  }
  return 0;
}
