// Interpreter of call scripts: drives the public C++ API of Booz_xform exactly as a client would.
//
// Usage: exec SCRIPT LOG
// One command per line. The outcome of every API command is logged as "<line> OK" or
// "<line> EXC <what>". Dumps go to files named in the script.
#include <algorithm>
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <mutex>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <unistd.h>
#include <sys/resource.h>
#include <signal.h>
#include <vector>
#ifdef OPENMP
#include <omp.h>
#endif
#include "booz_xform.hpp"
#ifdef WITH_VALGRIND
#include <valgrind/memcheck.h>
#endif
#ifdef WITH_FAULTS
extern "C" {
  extern long ncfault_target;   // fail the call with this 1-based index (0: never)
  extern int ncfault_error;
  extern long ncfault_count;
  extern const char* ncfault_last;  // name of the function made to fail
  extern long sysfault_target, sysfault_count, sysfault_active;
  extern int sysfault_errno, sysfault_short;
  extern const char* sysfault_last;
  extern std::atomic<long> memfault_count, memfault_hits;
  extern long memfault_target, memfault_more;
  extern std::atomic<int> memfault_active;
}
static bool memfault_armed = false;
struct MemGuard { MemGuard() { if (memfault_armed) memfault_active = 1; } ~MemGuard() { memfault_active = 0; } };
#else
struct MemGuard { MemGuard() {} ~MemGuard() {} };
#endif

using namespace booz_xform;
typedef Booz_xform B;

#define INTS(X) X(verbose) X(nfp) X(mpol) X(ntor) X(mnmax) X(mpol_nyq) X(ntor_nyq) X(mnmax_nyq) X(ns_in) X(mboz) X(nboz) X(ns_b) X(mnboz)
#define DBLS(X) X(aspect) X(toroidal_flux)
#define IVECS(X) X(xm) X(xn) X(xm_nyq) X(xn_nyq) X(compute_surfs) X(xm_b) X(xn_b)
#define VECS(X) X(s_in) X(iota) X(s_b) X(Boozer_G) X(Boozer_G_all) X(Boozer_I) X(Boozer_I_all) X(phi) X(phip) X(chi) X(pres)
#define MATS(X) X(rmnc) X(rmns) X(zmnc) X(zmns) X(lmnc) X(lmns) X(bmnc) X(bmns) X(bsubumnc) X(bsubumns) X(bsubvmnc) X(bsubvmns) \
  X(bmnc_b) X(bmns_b) X(gmnc_b) X(gmns_b) X(rmnc_b) X(rmns_b) X(zmnc_b) X(zmns_b) X(numnc_b) X(numns_b)

static std::map<int, std::unique_ptr<B>> objs;
static std::map<std::string, Matrix> store;
static std::mutex logm;
static std::ofstream logf_;
static long undefined_reports = 0;

static bool hold = false;  // the size of files is limited now: keep what is logged
static std::string held;

static void logline(const std::string& s) {
  std::lock_guard<std::mutex> g(logm);
  if (hold) { held += s + "\n"; return; }
  logf_ << s << std::endl;
}

static void def(const void* p, size_t n, const std::string& what) {
#ifdef WITH_VALGRIND
  if (n > 0 && VALGRIND_CHECK_MEM_IS_DEFINED(p, n)) {
    undefined_reports++;
    logline("UNDEF " + what);
    VALGRIND_MAKE_MEM_DEFINED(p, n);
  }
#endif
}

static void dump(B& b, const std::string& file) {
  FILE* f = fopen(file.c_str(), "w");
  if (!f) { perror(file.c_str()); exit(90); }
#define X(n) def(&b.n, sizeof(b.n), #n); fprintf(f, #n " i %d\n", b.n);
  INTS(X)
#undef X
  { int a; def(&b.asym, sizeof(b.asym), "asym"); a = b.asym ? 1 : 0; fprintf(f, "asym i %d\n", a); }
#define X(n) def(&b.n, sizeof(b.n), #n); fprintf(f, #n " d %a\n", b.n);
  DBLS(X)
#undef X
#define X(n) if (b.n.size()) def(b.n.data(), sizeof(int) * b.n.size(), #n); fprintf(f, #n " iv %ld", (long)b.n.size()); for (long k = 0; k < b.n.size(); k++) fprintf(f, " %d", b.n.data()[k]); fprintf(f, "\n");
  IVECS(X)
#undef X
#define X(n) if (b.n.size()) def(b.n.data(), sizeof(double) * b.n.size(), #n); fprintf(f, #n " v %ld", (long)b.n.size()); for (long k = 0; k < b.n.size(); k++) fprintf(f, " %a", b.n.data()[k]); fprintf(f, "\n");
  VECS(X)
#undef X
#define X(n) if (b.n.size()) def(b.n.data(), sizeof(double) * b.n.size(), #n); fprintf(f, #n " m %ld %ld", (long)b.n.rows(), (long)b.n.cols()); for (long k = 0; k < b.n.size(); k++) fprintf(f, " %a", b.n.data()[k]); fprintf(f, "\n");
  MATS(X)
#undef X
  if (fclose(f)) { perror(file.c_str()); exit(90); }
}

static double rd(std::istringstream& s) { std::string t; s >> t; return strtod(t.c_str(), 0); }

static void setvar(B& b, std::istringstream& s) {
  std::string n; s >> n;
#define X(v) if (n == #v) { s >> b.v; return; }
  INTS(X)
#undef X
  if (n == "asym") { int a; s >> a; b.asym = a; return; }
#define X(v) if (n == #v) { b.v = rd(s); return; }
  DBLS(X)
#undef X
#define X(v) if (n == #v) { long k; s >> k; b.v.resize(k); for (long i = 0; i < k; i++) { int a; s >> a; b.v[i] = a; } return; }
  IVECS(X)
#undef X
#define X(v) if (n == #v) { long k; s >> k; b.v.resize(k); for (long i = 0; i < k; i++) b.v[i] = rd(s); return; }
  VECS(X)
#undef X
#define X(v) if (n == #v) { long r, c; s >> r >> c; b.v.resize(r, c); for (long i = 0; i < r * c; i++) b.v.data()[i] = rd(s); return; }
  MATS(X)
#undef X
  fprintf(stderr, "unknown variable %s\n", n.c_str()); exit(91);
}

static int open_fds() {
  int n = 0; DIR* d = opendir("/proc/self/fd");
  if (!d) return -1;
  while (readdir(d)) n++;
  closedir(d);
  return n;
}

static std::vector<std::string> lines;
static void exec_line(size_t ln);

// Executes lines [a, b), each on this thread
static void exec_range(size_t a, size_t b) { for (size_t i = a; i < b; i++) exec_line(i); }

static B& obj(int k) {
  std::map<int, std::unique_ptr<B>>::iterator it = objs.find(k);
  if (it == objs.end()) { fprintf(stderr, "no object %d\n", k); exit(91); }
  return *it->second;
}

static void exec_line(size_t ln) {
  std::istringstream s(lines[ln]);
  std::string c; s >> c;
  if (c.empty() || c[0] == '#') return;
  std::ostringstream tag; tag << ln << " ";
  try {
    int k;
    if (c == "new") { s >> k; objs[k].reset(new B()); }
    else if (c == "del") { s >> k; objs.erase(k); }
    else if (c == "copy") { int j; s >> k >> j; objs[k].reset(new B(obj(j))); }
    else if (c == "assign") { int j; s >> k >> j; obj(k) = obj(j); }
    else if (c == "set") { s >> k; setvar(obj(k), s); return; }
    else if (c == "smat") { std::string n; long r, q; s >> n >> r >> q; Matrix& m = store[n]; m.resize(r, q); for (long i = 0; i < r * q; i++) m.data()[i] = rd(s); return; }
    else if (c == "run") { s >> k; B& b = obj(k); MemGuard g; b.run(); }
    else if (c == "wout") { std::string f; int fl; s >> k >> f >> fl; B& b = obj(k); MemGuard g; b.read_wout(f, fl); }
    else if (c == "write") { std::string f; s >> k >> f; B& b = obj(k); MemGuard g; b.write_boozmn(f); }
    else if (c == "rd") { std::string f; s >> k >> f; B& b = obj(k); MemGuard g; b.read_boozmn(f); }
    else if (c == "vmec") {
      int ns, flux; s >> k >> ns >> flux;
      Vector iotas = store["iotas"].col(0);
      if (flux) {
        Matrix* m[12]; const char* names[12] = {"rmnc", "rmns", "zmnc", "zmns", "lmnc", "lmns", "bmnc", "bmns", "bsubumnc", "bsubumns", "bsubvmnc", "bsubvmns"};
        for (int i = 0; i < 12; i++) m[i] = &store[names[i]];
        Vector p = store["phips"].col(0), ch = store["chi"].col(0), pr = store["pres"].col(0), ph = store["phi"].col(0);
        B& b = obj(k);
        MemGuard g;
        b.init_from_vmec(ns, iotas, *m[0], *m[1], *m[2], *m[3], *m[4], *m[5], *m[6], *m[7], *m[8], *m[9], *m[10], *m[11], p, ch, pr, ph);
      } else
        obj(k).init_from_vmec(ns, iotas, store["rmnc"], store["rmns"], store["zmnc"], store["zmns"], store["lmnc"], store["lmns"],
          store["bmnc"], store["bmns"], store["bsubumnc"], store["bsubumns"], store["bsubvmnc"], store["bsubvmns"]);
    }
    else if (c == "dump") { std::string f; s >> k >> f; dump(obj(k), f); return; }
    else if (c == "fds") { std::ostringstream o; o << ln << " FDS " << open_fds(); logline(o.str()); return; }
    else if (c == "threads") { s >> k;
#ifdef OPENMP
      omp_set_num_threads(k);
#endif
      return; }
    else if (c == "dynamic") { s >> k;
#ifdef OPENMP
      omp_set_dynamic(k);
#endif
      return; }
    else if (c == "keep") { std::string f, g; s >> f >> g; std::ifstream i(f, std::ios::binary); if (i) { std::ofstream o(g, std::ios::binary); o << i.rdbuf(); } return; }
    else if (c == "unlink") { std::string f; s >> f; unlink(f.c_str()); return; }
    else if (c == "mark") { std::cout << "@@MARK " << ln << std::endl; return; }
    else if (c == "fsize") { long v; s >> v; signal(SIGXFSZ, SIG_IGN); struct rlimit r; getrlimit(RLIMIT_FSIZE, &r); r.rlim_cur = v < 0 ? r.rlim_max : (rlim_t)v; if (setrlimit(RLIMIT_FSIZE, &r)) { perror("setrlimit"); exit(92); } hold = v >= 0; if (!hold) { logf_ << held << std::flush; held = ""; } return; }
    else if (c == "nofile") { long v; s >> v; struct rlimit r; getrlimit(RLIMIT_NOFILE, &r); r.rlim_cur = v < 0 ? r.rlim_max : (rlim_t)v; if (setrlimit(RLIMIT_NOFILE, &r)) { perror("setrlimit"); exit(92); } return; }
#ifdef WITH_FAULTS
    else if (c == "fault") { s >> ncfault_target >> ncfault_error; ncfault_count = 0; ncfault_last = 0; return; }
    else if (c == "nofault") { std::ostringstream o; o << ln << " FAULT " << ncfault_count << " " << (ncfault_last ? ncfault_last : "-"); ncfault_target = 0; logline(o.str()); return; }
    else if (c == "memfault") { s >> memfault_target >> memfault_more; memfault_count = 0; memfault_hits = 0; memfault_armed = true; return; }
    else if (c == "nomemfault") { memfault_armed = false; std::ostringstream o; o << ln << " FAULT " << memfault_count << " " << memfault_hits; logline(o.str()); return; }
    else if (c == "sysfault") { hold = true; s >> sysfault_target >> sysfault_errno >> sysfault_short; sysfault_count = 0; sysfault_last = 0; sysfault_active = 1; return; }
    else if (c == "nosysfault") { sysfault_active = 0; sysfault_target = 0; hold = false; logf_ << held << std::flush; held = ""; std::ostringstream o; o << ln << " FAULT " << sysfault_count << " " << (sysfault_last ? sysfault_last : "-"); logline(o.str()); return; }
#endif
    else { fprintf(stderr, "unknown command %s\n", c.c_str()); exit(91); }
    logline(tag.str() + "OK");
  } catch (std::exception& e) {
    std::string w = e.what();
    std::replace(w.begin(), w.end(), '\n', ' ');
    logline(tag.str() + "EXC " + w);
  }
}

// With EXEC_SLOWOUT, each piece printed through std::cout goes to stdout separately, with random delays
// between the pieces, so that unsynchronised printing is interleaved.
struct SlowBuf : public std::streambuf {
  unsigned seed;
  SlowBuf(unsigned s) : seed(s) {}
  void pause() {
    static std::mutex m;
    unsigned r;
    { std::lock_guard<std::mutex> g(m); seed = seed * 1103515245u + 12345u; r = (seed >> 16) & 63; }
    if (r < 32) std::this_thread::yield();
    else if (r < 40) usleep(r * 4);
  }
  std::streamsize xsputn(const char* s, std::streamsize n) { fwrite(s, 1, n, stdout); pause(); return n; }
  int overflow(int c) { if (c != EOF) putc(c, stdout); pause(); return c == EOF ? 0 : c; }
  int sync() { fflush(stdout); return 0; }
};

int main(int argc, char** argv) {
  if (getenv("EXEC_SLOWOUT")) std::cout.rdbuf(new SlowBuf(atoi(getenv("EXEC_SLOWOUT"))));
  if (argc != 3) { fprintf(stderr, "usage: exec SCRIPT LOG\n"); return 91; }
  std::ifstream f(argv[1]);
  std::string l;
  while (std::getline(f, l)) lines.push_back(l);
  logf_.open(argv[2]);
  size_t i = 0;
  while (i < lines.size()) {
    if (lines[i] == "par") {
      // par / commands / --- / commands / endpar: each part on its own thread.
      std::vector<std::pair<size_t, size_t>> parts;
      size_t a = i + 1, j = a;
      for (;; j++) {
        if (j >= lines.size()) { fprintf(stderr, "no endpar\n"); return 91; }
        if (lines[j] == "---" || lines[j] == "endpar") { parts.push_back(std::make_pair(a, j)); a = j + 1; if (lines[j] == "endpar") break; }
      }
      std::vector<std::thread> ts;
      for (size_t p = 0; p < parts.size(); p++) ts.push_back(std::thread(exec_range, parts[p].first, parts[p].second));
      for (size_t p = 0; p < ts.size(); p++) ts[p].join();
      i = j + 1;
    } else { exec_line(i); i++; }
  }
  objs.clear();
  store.clear();
  logline("END");
  return 0;
}
