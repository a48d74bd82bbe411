// Harness base: seeded RNG, result stream, case loop.
#pragma once
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <algorithm>
#include <unistd.h>

namespace mon {
typedef std::vector<double> Vec;

struct Rng {
   uint64_t s;
   explicit Rng(uint64_t seed = 1) : s(seed) { for( int i = 0; i < 4; ++i ) u64(); }
   uint64_t u64() {
      uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
      z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
      z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
      return z ^ (z >> 31);
   }
   double u01() { return (u64() >> 11) * (1.0 / 9007199254740992.0); }
   double uni(double a, double b) { return a + (b - a) * u01(); }
   int ri(int a, int b) { return a + (int) (u64() % (uint64_t) (b - a + 1)); }
   bool chance(double p) { return u01() < p; }
   double gauss() {
      double a = 1e-300 + u01(), b = u01();
      return std::sqrt(-2 * std::log(a)) * std::cos(6.283185307179586 * b);
   }
   double logu(double a, double b) { return std::exp(uni(std::log(a), std::log(b))); }
   double sgn() { return chance(0.5) ? 1. : -1.; }
   template<class T> const T& pick(const std::vector<T>& v) { return v[ri(0, (int) v.size() - 1)]; }
   const char* pick(std::initializer_list<const char*> v) { return *(v.begin() + ri(0, (int) v.size() - 1)); }
   double pickd(std::initializer_list<double> v) { return *(v.begin() + ri(0, (int) v.size() - 1)); }
   int picki(std::initializer_list<int> v) { return *(v.begin() + ri(0, (int) v.size() - 1)); }
   template<class T> void shuffle(std::vector<T>& v) {
      for( int i = (int) v.size() - 1; i > 0; --i )
         std::swap(v[i], v[ri(0, i)]);
   }
};

inline uint64_t hmix(uint64_t h, uint64_t v) {
   h ^= v + 0x9E3779B97F4A7C15ULL + (h << 6) + (h >> 2);
   h *= 0xff51afd7ed558ccdULL;
   return h ^ (h >> 29);
}
inline uint64_t hstr(const std::string& s, uint64_t h = 77) {
   for( char c : s ) h = hmix(h, (unsigned char) c);
   return h;
}
inline uint64_t hdbl(double d) { uint64_t u; std::memcpy(&u, &d, 8); return u; }

inline std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char* f, ...) {
   va_list ap; va_start(ap, f);
   char b[4096]; vsnprintf(b, sizeof b, f, ap); va_end(ap);
   return b;
}
inline std::string esc(const std::string& s) {
   std::string r;
   for( char c : s )
      if( c == '\n' ) r += "\\n";
      else if( (unsigned char) c < 32 || (unsigned char) c > 126 ) r += fmt("\\x%02x", (unsigned char) c);
      else r += c;
   return r;
}

/// result stream read by lib/run.py
struct Out {
   FILE* f = nullptr;
   std::string prop;
   long cur = -1;
   int nviol = 0;
   std::map<std::string, double> stats;
   std::set<uint64_t> sigs;
   int nsamples = 0;
   void open(const char* p) { f = p ? fopen(p, "w") : stdout; if( !f ) { perror("out"); exit(7); } }
   void begin(long i) { cur = i; fprintf(f, "B %ld\n", i); fflush(f); }
   void end() { fprintf(f, "E %ld\n", cur); fflush(f); }
   /// violation of property p ("" = the main one); key identifies the monitor
   void viol(const std::string& p, const std::string& key, const std::string& msg) {
      if( ++nviol > 400 ) return;
      fprintf(f, "V %s %s %ld %s\n", (p.empty() ? prop : p).c_str(), key.c_str(), cur, esc(msg).substr(0, 1500).c_str());
      fflush(f);
   }
   void stat(const std::string& k, double v = 1) { stats[k] += v; }
   void maxstat(const std::string& k, double v) { double& s = stats["max:" + k]; if( v > s ) s = v; }
   void sig(uint64_t h) { sigs.insert(h); }
   void sample(const std::string& s) { if( nsamples++ < 3 ) { fprintf(f, "X %s\n", esc(s).substr(0, 900).c_str()); fflush(f); } }
   void done() {
      for( auto& k : stats ) fprintf(f, "S %s %.17g\n", k.first.c_str(), k.second);
      for( auto h : sigs ) fprintf(f, "H %016llx\n", (unsigned long long) h);
      fprintf(f, "DONE\n"); fflush(f);
   }
};
inline Out& out() { static Out o; return o; }

/// command line shared by all harness programs
struct Args {
   std::string mode, outf, tier = "quick", scratch = "/tmp";
   uint64_t seed = 1; long from = 0, to = 0; bool verbose = false;
   std::map<std::string, std::string> kv;
};
inline Args parse(int argc, char** argv) {
   Args a;
   for( int i = 1; i < argc; ++i ) {
      std::string s = argv[i];
      auto nx = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
      if( s == "--mode" ) a.mode = nx();
      else if( s == "--seed" ) a.seed = strtoull(nx().c_str(), 0, 10);
      else if( s == "--from" ) a.from = atol(nx().c_str());
      else if( s == "--to" ) a.to = atol(nx().c_str());
      else if( s == "--out" ) a.outf = nx();
      else if( s == "--tier" ) a.tier = nx();
      else if( s == "--prop" ) out().prop = nx();
      else if( s == "--scratch" ) a.scratch = nx();
      else if( s == "-v" ) a.verbose = true;
      else if( s.substr(0, 2) == "--" ) { std::string k = s.substr(2); a.kv[k] = nx(); }
      else { fprintf(stderr, "bad argument %s\n", s.c_str()); exit(7); }
   }
   out().open(a.outf.empty() ? nullptr : a.outf.c_str());
   return a;
}
} // namespace mon
// leaks, checked after every case where a leak checker is linked in (MON_LEAKS=1)
extern "C" int __lsan_do_recoverable_leak_check(void) __attribute__((weak));
namespace mon {
inline void leakCheck() {
   static const bool on = getenv("MON_LEAKS") && __lsan_do_recoverable_leak_check;
   if( !on ) return;
   out().stat("leak_checks");
   char fn[] = "/tmp/mon_leak_XXXXXX"; int fd = mkstemp(fn); if( fd < 0 ) return;
   fflush(stderr); int old = dup(2); dup2(fd, 2);
   int l = __lsan_do_recoverable_leak_check();
   dup2(old, 2); close(old);
   std::string t; char b[4096]; lseek(fd, 0, SEEK_SET); ssize_t k; while( t.size() < 200000 && (k = read(fd, b, sizeof b)) > 0 ) t.append(b, k); close(fd); unlink(fn);
   if( !l ) return;
   if( t.find("LeakSanitizer has encountered a fatal error") != std::string::npos ) { out().stat("leak_check_impossible"); return; }
   std::string fr; size_t pos = 0; int nf = 0; while( nf < 6 && (pos = t.find(" in ", pos)) != std::string::npos ) { size_t e = t.find('\n', pos); std::string l1 = t.substr(pos + 4, e - pos - 4); pos = e; if( l1.find("operator new") != std::string::npos || l1.find("malloc") == 0 ) continue; size_t q = l1.find('('); fr += l1.substr(0, std::min(q, (size_t) 90)) + " < "; ++nf; }
   out().viol("", "leak", "memory leak: " + fr);
}
} // namespace mon
namespace mon {
inline uint64_t caseSeed(const Args& a, long i) { return hmix(hmix(hstr(a.mode), a.seed), (uint64_t) i * 2654435761ULL + 17); }
inline void runCases(const Args& a, const std::function<void(Rng&, long)>& fn) {
   for( long i = a.from; i < a.to; ++i ) {
      out().begin(i);
      Rng r(caseSeed(a, i));
      fn(r, i);
      leakCheck();
      out().end();
   }
   out().done();
}
} // namespace mon
