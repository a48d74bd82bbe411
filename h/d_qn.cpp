// C18 quasi-Newton: every matrix used is compared with a dense evaluation of the documented update formula on the observed iterates.
// C18 finite differences: derivatives used by the algorithm against the analytic ones, evaluation points against the bounds.
#include "kkt.hpp"
#include "IpAlgBuilder.hpp"
#include "IpHessianUpdater.hpp"
#include "IpTripletHelper.hpp"
#include "IpLowRankUpdateSymMatrix.hpp"
#include "IpCompoundSymMatrix.hpp"
#include "IpCompoundMatrix.hpp"
#include "IpCompoundVector.hpp"
#include "IpRestoIpoptNLP.hpp"
using namespace mon;
using namespace Ipopt;
extern "C" void dsyev_(const char*, const char*, const int*, double*, const int*, double*, double*, const int*, int*, int, int);
typedef long double ld; typedef std::vector<ld> LV;

static Vec vals(const Vector& v) { Vec r(v.Dim()); if( v.Dim() ) TripletHelper::FillValuesFromVector(v.Dim(), v, r.data()); return r; }
static void denseGen(const Matrix& A, const Vector& rowlike, const Vector& collike, std::vector<double>& D) {   // rows x cols
   int R = A.NRows(), C = A.NCols(); D.assign((size_t) R * C, 0.); SmartPtr<Vector> e = collike.MakeNew(), y = rowlike.MakeNew(); Vec v(R);
   for( int j = 0; j < C; ++j ) { Vec u(C, 0.); u[j] = 1; TripletHelper::PutValuesInVector(C, u.data(), *e); if( R ) { A.MultVector(1., *e, 0., *y); TripletHelper::FillValuesFromVector(R, *y, v.data()); } for( int i = 0; i < R; ++i ) D[(size_t) i * C + j] = v[i]; }
}
static bool symEig(int n, std::vector<double> A, Vec& w, std::vector<double>* Q = nullptr) {
   w.assign(n, 0.); if( !n ) return true; int lw = 40 * n, info = 0; Vec wk(lw); char N = Q ? 'V' : 'N', U = 'U'; dsyev_(&N, &U, &n, A.data(), &n, w.data(), wk.data(), &lw, &info, 1, 1); if( Q ) *Q = A; return info == 0;
}
// the documented update
struct QN {
   int N = 0, n = 0; std::vector<int> idx;       // full dimension, reduced dimension and positions
   int maxh = 6, maxskip = 2, init = 1; bool sr1 = false, resto = false, special = false; double initval = 1, smin = 1e-8, smax = 1e8;
   bool started = false, sure = true; int skipped = 0;
   Vec lx, lgf; std::vector<double> lJ; Vec DR;    // DR: full
   struct Pair { Vec s, yp; };                      // yp: y (resto: without the known objective part)
   struct State { std::vector<Pair> P; double sigma = -1; std::vector<double> B; } cur, old;
   double eta = 0; std::vector<double> W; double scaleW = 0, cond = 1, noise = 0; Vec lastS, lastY; bool updated = false; std::string why;
   Vec red(const Vec& v) { Vec r(n); for( int i = 0; i < n; ++i ) r[i] = v[idx[i]]; return r; }
   Vec yOf(const Pair& p) { Vec y = p.yp; if( resto ) { for( int i = 0; i < n; ++i ) y[i] += eta * DR[idx[i]] * p.s[i]; } return y; }
   static double dot(const Vec& a, const Vec& b) { ld s = 0; for( size_t i = 0; i < a.size(); ++i ) s += (ld) a[i] * b[i]; return (double) s; }
   double b0(int i) { return special && resto ? eta * DR[idx[i]] : cur.sigma; }
   void setW() {
      W.assign((size_t) N * N, 0.); for( int i = 0; i < n; ++i ) for( int j = 0; j < n; ++j ) W[(size_t) idx[i] * N + idx[j]] = cur.B[(size_t) i * n + j];
      if( special && resto ) { std::vector<char> in(N, 0); for( int i : idx ) in[i] = 1; for( int i = 0; i < N; ++i ) if( !in[i] ) W[(size_t) i * N + i] = eta * DR[i]; }
      scaleW = 0; for( double v : W ) scaleW = std::max(scaleW, std::fabs(v));
      double bmx = 1e-300; for( int i = 0; i < n; ++i ) bmx = std::max(bmx, std::fabs(b0(i))); cond *= std::max(1., scaleW / (1e4 * bmx));    // huge spread of curvatures
   }
   void diagB() { cur.B.assign((size_t) n * n, 0.); for( int i = 0; i < n; ++i ) cur.B[(size_t) i * n + i] = b0(i); }
   void reset() { cur.P.clear(); skipped = 0; cur.sigma = special && resto ? -1 : initval; diagB(); old = cur; setW(); sure = true; cond = 1; noise = 0; }
   void step(const Vec& x, const Vec& gf, const std::vector<double>& J, const Vec& y, double regu, double e) {   // J: rows of c then d
      updated = false; eta = e; why = "";
      bool first = !started;
      if( first || skipped >= maxskip ) { why = first ? "start" : "reset"; started = true; reset(); lx = x; lgf = gf; lJ = J; return; }
      int m = (int) y.size(); Vec s(N), yy(N);
      for( int i = 0; i < N; ++i ) { s[i] = x[i] - lx[i]; ld t = resto ? 0 : (ld) gf[i] - lgf[i]; for( int k = 0; k < m; ++k ) t += (ld) y[k] * ((ld) J[(size_t) k * N + i] - lJ[(size_t) k * N + i]); yy[i] = (double) t; }
      // size of the terms y is the difference of: its rounding error
      double ymag = 0; for( int i = 0; i < N; ++i ) { double t = resto ? 0 : std::fabs(gf[i]) + std::fabs(lgf[i]); for( int k = 0; k < m; ++k ) t += std::fabs(y[k]) * (std::fabs(J[(size_t) k * N + i]) + std::fabs(lJ[(size_t) k * N + i])); ymag = std::max(ymag, t); }
      lx = x; lgf = gf; lJ = J;
      Pair pr{red(s), red(yy)}; Vec yn = yOf(pr); bool skip = false, retro = false;
      double sm = 0; for( double v : pr.s ) sm = std::max(sm, std::fabs(v));
      const double eps = std::numeric_limits<double>::epsilon(); double thr = 100 * eps;
      if( std::fabs(sm - thr) < 1e-3 * thr ) sure = false;
      if( sm < thr ) { skip = true; why = "tiny"; }
      double sy = dot(pr.s, yn), ns = std::sqrt(dot(pr.s, pr.s)), ny = std::sqrt(dot(yn, yn)); double relY = ny > 0 ? 1e-15 * ymag * std::sqrt((double) n) / ny : ymag > 0 ? 1 : 0;
      if( !skip ) noise = std::max(noise, std::max(relY, 1e-16) * (sr1 || !(sy > 0) ? 1. : ns * ny / sy));
      if( (relY > 1e-10 || (!sr1 && sy > 0 && std::max(relY, 1e-15) * ns * ny > 1e-10 * sy)) && !skip ) sure = false;    // y is rounding noise
      if( !skip && !sr1 ) {
         double t = std::sqrt(eps) * ns * ny;
         if( std::fabs(sy - t) < (1e-9 + 10 * relY) * ns * ny ) sure = false;
         if( sy <= t ) { skip = true; why = "curvature"; }
         else {
            State bak = cur;
            if( maxh ) { cur.P.push_back(pr); if( (int) cur.P.size() > maxh ) cur.P.erase(cur.P.begin()); }
            if( resto && maxh ) { bool neg = false; for( auto& p : cur.P ) { Vec t2 = yOf(p); double d = dot(p.s, t2); if( std::fabs(d) < 1e-9 * std::sqrt(dot(p.s, p.s) * dot(t2, t2)) ) sure = false; if( d <= 0 ) neg = true; } if( neg ) { cur = bak; skip = true; why = "pairs"; } }
            if( !skip ) { setSigma(sy, ns, ny, false); bfgs(); updated = true; lastS = pr.s; lastY = yn; }
         }
      }
      else if( !skip ) {
         if( regu > 0 ) { cur = old; retro = true; }
         old = cur;
         if( maxh ) { cur.P.push_back(pr); if( (int) cur.P.size() > maxh ) cur.P.erase(cur.P.begin()); }
         if( !(special && resto) ) { if( maxh && cur.P.size() == 1 ) cur.sigma = initval; else if( maxh || true ) { if( !maxh && false ) {} else setSigma(std::max(1e-8, std::fabs(sy)), ns, ny, true); } }
         if( !maxh ) { diagB(); updated = true; }
         else { int q = doSR1(); if( q ) { cur = old; skip = true; why = "sr1"; } else { updated = true; lastS = pr.s; lastY = yn; } }
      }
      if( !skip ) { setW(); if( retro ) skipped++; else skipped = 0; }
      else skipped++;
   }
   void setSigma(double sy, double ns, double ny, bool isSr1) {
      if( special && resto ) return;
      double a = sy / (ns * ns), b = ny * ny / sy;
      switch( init ) { case 1: cur.sigma = a; break; case 2: cur.sigma = b; break; case 3: cur.sigma = (a + b) / 2; break; case 4: cur.sigma = std::sqrt(a * b); break; default: cur.sigma = initval; }
      if( !isSr1 ) cur.sigma = std::max(std::min(smax, cur.sigma), smin);
   }
   void bfgs() {
      std::vector<ld> B((size_t) n * n, 0); for( int i = 0; i < n; ++i ) B[(size_t) i * n + i] = b0(i);
      double mx = 0, gr = 1;
      for( auto& p : cur.P ) {
         Vec y = yOf(p); LV Bs(n, 0); ld sBs = 0, sy = 0; for( int i = 0; i < n; ++i ) { for( int j = 0; j < n; ++j ) Bs[i] += B[(size_t) i * n + j] * p.s[j]; } for( int i = 0; i < n; ++i ) { sBs += Bs[i] * p.s[i]; sy += (ld) y[i] * p.s[i]; }
         for( int i = 0; i < n; ++i ) for( int j = 0; j < n; ++j ) B[(size_t) i * n + j] += y[i] * (ld) y[j] / sy - Bs[i] * Bs[j] / sBs;
         double m2 = 0; for( auto v : B ) m2 = std::max(m2, (double) std::fabs(v)); mx = std::max(mx, m2);
      }
      cur.B.assign(B.begin(), B.end());
      // conditioning of the compact representation
      int k = (int) cur.P.size(); std::vector<double> M((size_t) k * k, 0.), SS((size_t) k * k), SY((size_t) k * k); cond = 1;
      if( k ) {
         for( int i = 0; i < k; ++i ) for( int j = 0; j < k; ++j ) { ld t = 0; for( int q = 0; q < n; ++q ) t += (ld) cur.P[i].s[q] * b0(q) * cur.P[j].s[q]; SS[i * k + j] = (double) t; SY[i * k + j] = dot(cur.P[i].s, yOf(cur.P[j])); }
         for( int i = 0; i < k; ++i ) for( int j = 0; j < k; ++j ) { double t = SS[i * k + j]; for( int q = 0; q < std::min(i, j); ++q ) t += SY[i * k + q] * SY[j * k + q] / SY[q * k + q]; M[i * k + j] = t; }
         Vec d(k); for( int i = 0; i < k; ++i ) d[i] = M[i * k + i] > 0 ? 1 / std::sqrt(M[i * k + i]) : 0; for( int i = 0; i < k; ++i ) for( int j = 0; j < k; ++j ) M[i * k + j] *= d[i] * d[j];
         Vec w; symEig(k, M, w); cond = w[0] > 0 ? w[k - 1] / w[0] : 1e300;
         // growth: terms of the sum compared with the result
         double vm = 0; for( int i = 0; i < k; ++i ) { Vec y = yOf(cur.P[i]); double ymx = 0; for( double v : y ) ymx = std::max(ymx, std::fabs(v)); vm = std::max(vm, ymx * ymx / SY[i * k + i]); }
         double bm = 1e-300; for( double v : cur.B ) bm = std::max(bm, std::fabs(v)); gr = std::max(1., vm / bm) * std::max(1., mx / bm); cond *= gr;
      }
   }
   int doSR1() {
      int k = (int) cur.P.size(); std::vector<double> Z((size_t) k * k); double zs = 0; std::vector<Vec> Y; for( auto& p : cur.P ) Y.push_back(yOf(p));
      for( int i = 0; i < k; ++i ) for( int j = 0; j <= i; ++j ) { ld t = 0; double a = 0; for( int q = 0; q < n; ++q ) { ld u = (ld) cur.P[i].s[q] * b0(q) * cur.P[j].s[q]; t += u; a += std::fabs((double) u); } double sy = dot(cur.P[i].s, Y[j]); Z[i * k + j] = Z[j * k + i] = (double) (sy - t); zs = std::max(zs, std::max(std::fabs(sy), a)); }
      Vec w; std::vector<double> Q; symEig(k, Z, w, &Q);
      double emax = std::max(std::fabs(w[0]), std::fabs(w[k - 1])), emin = 1e300; for( double v : w ) emin = std::min(emin, std::fabs(v));
      if( emax == 0 ) { sure = false; return 1; }
      double ratio = emin / emax; cond = zs / std::max(emin, 1e-300);
      if( std::fabs(ratio - 1e-12) < 1e-12 * 0.99 || (ratio < 1e-11 && ratio > 1e-14) || emin < 1e-13 * zs ) sure = false;
      if( ratio < 1e-12 ) return 1;
      std::vector<ld> B((size_t) n * n, 0); for( int i = 0; i < n; ++i ) B[(size_t) i * n + i] = b0(i);
      double tm = 0;
      for( int e = 0; e < k; ++e ) { LV u(n, 0); for( int i = 0; i < n; ++i ) for( int j = 0; j < k; ++j ) u[i] += ((ld) Y[j][i] - (ld) b0(i) * cur.P[j].s[i]) * Q[(size_t) e * k + j];
         for( int i = 0; i < n; ++i ) for( int j = 0; j < n; ++j ) { ld t = u[i] * u[j] / w[e]; B[(size_t) i * n + j] += t; tm = std::max(tm, (double) std::fabs(t)); } }
      cur.B.assign(B.begin(), B.end()); double bm = 1e-300; for( double v : cur.B ) bm = std::max(bm, std::fabs(v)); cond *= std::max(1., tm / bm);
      return 0;
   }
};

struct WatchQ { const Nlp* p; const Config* c; std::string ctx; QN q; bool setup = false, dead = false; long k = 0; int it = 0;
   void bad(const std::string& key, const std::string& m) { out().viol("", key, m + ctx); } };
static void fillOpts(QN& q, const Config& c) {
   q.maxh = c.i("limited_memory_max_history", 6); q.sr1 = c.s("limited_memory_update_type", "bfgs") == "sr1"; q.maxskip = c.i("limited_memory_max_skipping", 2);
   std::string s = c.s("limited_memory_initialization", "scalar1"); q.init = s == "scalar1" ? 1 : s == "scalar2" ? 2 : s == "scalar3" ? 3 : s == "scalar4" ? 4 : 5;
   q.initval = c.n("limited_memory_init_val", 1.); q.smin = c.n("limited_memory_init_val_min", 1e-8); q.smax = c.n("limited_memory_init_val_max", 1e8); q.special = c.s("limited_memory_special_for_resto", "no") == "yes";
}
/// positions (in the internal x) of the variables the approximation is restricted to
static std::vector<int> space(const Nlp& p, const Config& c, bool nonlin, int N) {
   std::vector<int> r; std::set<int> s; p.f.nonlinvars(s); for( auto& g : p.g ) g.nonlinvars(s);
   bool all = c.s("hessian_approximation_space", "nonlinear-variables") == "all-variables"; int lin = c.i("num_linear_variables", 0), k = 0;
   for( int j = 0; j < p.n; ++j ) { if( N < p.n && p.fixed(j) ) continue; bool in = all || (nonlin ? s.count(j) > 0 : j >= lin); if( in ) r.push_back(k); ++k; }
   return r;
}
static void judge(WatchQ& w, const SymMatrix& W, const Vector& like, const char* where) {
   QN& q = w.q; int N = q.N; std::vector<double> D; denseGen(W, like, like, D);
   out().stat("matrices_seen");
   for( int i = 0; i < N; ++i ) for( int j = 0; j < i; ++j ) if( std::isfinite(D[i * N + j]) && std::fabs(D[i * N + j] - D[j * N + i]) > 1e-10 * (std::fabs(D[i * N + j]) + 1e-300) + 1e-13 * q.scaleW * std::min(q.cond, 1e8) ) { w.bad("asymmetric", fmt("%s %d: entry (%d,%d) %.17g and %.17g", where, w.it, i, j, D[i * N + j], D[j * N + i])); i = N; break; }
   if( !q.sure || q.cond > 1e9 ) { out().stat("matrices_unsure"); if( !q.sure ) w.dead = true; return; }
   double tol = (1e-9 + (1e-14 + 30 * std::min(q.noise, 1e-10)) * q.cond) * q.scaleW, worst = 0; int wi = 0, wj = 0; for( int i = 0; i < N; ++i ) for( int j = 0; j < N; ++j ) { double e = std::fabs(D[i * N + j] - q.W[i * N + j]); if( !(e <= worst) ) { worst = e; wi = i; wj = j; } }
   out().stat("matrices_checked"); if( q.updated ) out().stat(q.cur.P.empty() ? "updates_diag" : "updates"); else out().stat("why:" + q.why); out().maxstat("pairs", q.cur.P.size());
   if( !(worst <= tol) ) { w.bad(q.resto ? "resto-matrix" : "matrix", fmt("%s %d: matrix entry (%d,%d) is %.12g, the formula gives %.12g (largest %g, %d pairs, sigma %g, cond %g, %s)", where, w.it, wi, wj, D[wi * N + wj], q.W[wi * N + wj], q.scaleW, (int) q.cur.P.size(), q.cur.sigma, q.cond, q.why.c_str())); w.dead = true; return; }
   if( q.updated && !q.cur.P.empty() ) {   // secant equation of the latest pair
      double e = 0, sc = 0; for( int i = 0; i < q.n; ++i ) { double t = 0, a = 0; for( int j = 0; j < q.n; ++j ) { double v = D[(size_t) q.idx[i] * N + q.idx[j]] * q.lastS[j]; t += v; a += std::fabs(v); } e = std::max(e, std::fabs(t - q.lastY[i])); sc = std::max(sc, std::max(a, std::fabs(q.lastY[i]))); }
      out().stat("secant_checked"); double sm = 0; for( double v : q.lastS ) sm = std::max(sm, std::fabs(v));
      if( !(e <= (1e-8 + (1e-13 + 30 * std::min(q.noise, 1e-10)) * q.cond) * (sc + q.scaleW * sm)) ) w.bad("secant", fmt("%s %d: secant equation violated by %g (scale %g, cond %g)", where, w.it, e, sc, q.cond));
   }
   if( !q.sr1 && q.n ) { std::vector<double> R((size_t) q.n * q.n); for( int i = 0; i < q.n; ++i ) for( int j = 0; j < q.n; ++j ) R[i * q.n + j] = D[(size_t) q.idx[i] * N + q.idx[j]]; Vec ev; symEig(q.n, R, ev); out().stat("definiteness_checked"); if( ev[0] < -(1e-10 + (1e-14 + 30 * std::min(q.noise, 1e-10)) * q.cond) * q.scaleW ) w.bad("not-positive-definite", fmt("%s %d: smallest eigenvalue %g (largest %g)", where, w.it, ev[0], ev[q.n - 1])); }
}
struct MonHess : public HessianUpdater {
   SmartPtr<HessianUpdater> in; WatchQ* w; bool nonlin;
   MonHess(SmartPtr<HessianUpdater> i, WatchQ* q, bool nl) : in(i), w(q), nonlin(nl) {}
   bool InitializeImpl(const OptionsList& o, const std::string& p) override { w->setup = false; w->dead = false; w->q = QN(); return in->Initialize(Jnlst(), IpNLP(), IpData(), IpCq(), o, p); }
   void UpdateHessian() override {
      double regu = IpData().info_regu_x(); in->UpdateHessian();
      if( w->dead ) return;
      const Vector& x = *IpData().curr()->x(); QN& q = w->q; w->it = IpData().iter_count();
      if( !w->setup ) { w->setup = true; fillOpts(q, *w->c); q.N = x.Dim(); q.idx = space(*w->p, *w->c, nonlin, q.N); q.n = (int) q.idx.size(); if( q.n < q.N ) out().stat("reduced_space"); }
      Vec xv = vals(x), gf = vals(*IpCq().curr_grad_f()), y = vals(*IpData().curr()->y_c()), yd = vals(*IpData().curr()->y_d()); y.insert(y.end(), yd.begin(), yd.end());
      std::vector<double> J, Jd; denseGen(*IpCq().curr_jac_c(), *IpData().curr()->y_c(), x, J); denseGen(*IpCq().curr_jac_d(), *IpData().curr()->y_d(), x, Jd); J.insert(J.end(), Jd.begin(), Jd.end());
      for( double v : xv ) if( !(std::fabs(v) < 1e15) ) { w->dead = true; return; }
      q.step(xv, gf, J, y, regu, 0.); judge(*w, *IpData().W(), x, "iter");
   }
};
struct QBuilder : public AlgorithmBuilder {
   WatchQ* w; bool nl; QBuilder(WatchQ* q, bool n) : w(q), nl(n) {}
   SmartPtr<HessianUpdater> BuildHessianUpdater(const Journalist& j, const OptionsList& o, const std::string& p) override { return new MonHess(AlgorithmBuilder::BuildHessianUpdater(j, o, p), w, nl); }
};

static void c18q(Rng& r, long) {
   Nlp p = r.chance(0.25) ? genConvex(r) : r.chance(0.6) ? genNonconvex(r) : r.chance(0.3) ? genInfeasible(r) : genAny(r);
   if( p.n > 16 ) { out().stat("skipped_large"); return; }
   CfgOpt o; o.limmem = false; Config c = randConfig(r, o); c.S("hessian_approximation", "limited-memory"); c.I("max_iter", r.ri(3, 60));
   for( const char* k : {"magic_steps"} ) c.rm(k);
   if( r.chance(0.5) ) c.S("limited_memory_update_type", r.pick({"bfgs", "sr1"}));
   if( r.chance(0.6) ) c.I("limited_memory_max_history", r.picki({0, 1, 2, 3, 10}));
   if( r.chance(0.5) ) c.S("limited_memory_initialization", r.pick({"scalar1", "scalar2", "scalar3", "scalar4", "constant"}));
   if( r.chance(0.2) ) c.N("limited_memory_init_val", r.pickd({0.1, 10, 1000})); if( r.chance(0.1) ) c.N("limited_memory_init_val_max", r.pickd({1, 10})); if( r.chance(0.1) ) c.N("limited_memory_init_val_min", r.pickd({0.5, 0.1}));
   if( r.chance(0.2) ) c.I("limited_memory_max_skipping", r.picki({1, 3, 5}));
   if( r.chance(0.3) ) c.S("limited_memory_aug_solver", r.pick({"sherman-morrison", "extended"}));
   if( r.chance(0.3) ) c.S("limited_memory_special_for_resto", "yes");
   if( r.chance(0.15) ) c.S("hessian_approximation_space", r.pick({"all-variables", "nonlinear-variables"}));
   bool nl = r.chance(0.4); if( !nl && r.chance(0.15) && p.n > 1 ) c.I("num_linear_variables", r.ri(1, p.n - 1));
   if( r.chance(0.15) ) c.S("start_with_resto", "yes");
   if( c.s("line_search_method", "").find("penalty") != std::string::npos && c.s("limited_memory_aug_solver", "") == "extended" ) c.rm("line_search_method");
   if( c.get("line_search_method") ) c.S("line_search_method", "filter");
   out().sig(hmix(p.sig(), c.sig())); out().sample(p.descr() + " | " + c.str());
   WatchQ W, R; W.p = R.p = &p; W.c = R.c = &c; W.ctx = R.ctx = " | " + p.descr() + fmt(" nl=%d | ", nl) + c.str();
   SmartPtr<MonTNLP> t = new MonTNLP(p, c); t->contract = false; t->wantIter = false; t->giveNonlin = nl;
   // the updater of the restoration phase is watched through the callbacks: the matrix seen at iteration k+1 is that made at iteration k
   int lastMode = RegularMode; double lastRegu = 0;
   t->onIter = [&](MonTNLP&, IterRec& rr, const IpoptData* d, IpoptCalculatedQuantities* cq) {
      if( rr.mode != RestorationPhaseMode ) { lastMode = rr.mode; return true; }
      QN& q = R.q; R.it = rr.iter;
      RestoIpoptNLP* rn = dynamic_cast<RestoIpoptNLP*>(GetRawPtr(cq->GetIpoptNLP()));
      if( !rn ) { lastMode = rr.mode; return true; }
      const CompoundVector* cx = dynamic_cast<const CompoundVector*>(GetRawPtr(d->curr()->x())); if( !cx ) return true; const Vector& x = *cx->GetComp(0);
      if( lastMode != RestorationPhaseMode ) { R.q = QN(); R.dead = false; fillOpts(q, c); q.resto = true; q.N = x.Dim(); for( int i = 0; i < q.N; ++i ) q.idx.push_back(i); q.n = q.N; q.DR = vals(*rn->DR_x()); }
      else if( !R.dead ) { const CompoundSymMatrix* cw = dynamic_cast<const CompoundSymMatrix*>(GetRawPtr(const_cast<IpoptData*>(d)->W())); if( cw && IsValid(cw->GetComp(0, 0)) ) { out().stat("resto_matrices"); judge(R, *dynamic_cast<const SymMatrix*>(GetRawPtr(cw->GetComp(0, 0))), x, "resto"); } }
      lastMode = rr.mode; if( R.dead ) return true;
      for( double v : vals(x) ) if( !(std::fabs(v) < 1e15) ) { R.dead = true; return true; }
      const CompoundVector* yc = dynamic_cast<const CompoundVector*>(GetRawPtr(d->curr()->y_c())); const CompoundVector* yd = dynamic_cast<const CompoundVector*>(GetRawPtr(d->curr()->y_d())); if( !yc || !yd ) { R.dead = true; return true; }
      const CompoundMatrix* jc = dynamic_cast<const CompoundMatrix*>(GetRawPtr(cq->curr_jac_c())); const CompoundMatrix* jd = dynamic_cast<const CompoundMatrix*>(GetRawPtr(cq->curr_jac_d()));
      Vec y = vals(*yc->GetComp(0)), y2 = vals(*yd->GetComp(0)); std::vector<double> J, J2; denseGen(*jc->GetComp(0, 0), *yc->GetComp(0), x, J); denseGen(*jd->GetComp(0, 0), *yd->GetComp(0), x, J2); y.insert(y.end(), y2.begin(), y2.end()); J.insert(J.end(), J2.begin(), J2.end());
      (void) lastRegu; q.step(vals(x), Vec(), J, y, d->info_regu_x(), rn->Eta(d->curr_mu()));
      return true; };
   SmartPtr<IpoptApplication> app = newApp(c); if( app->Initialize("") != Solve_Succeeded ) return;
   SmartPtr<NLP> nlp = new TNLPAdapter(SmartPtr<TNLP>(GetRawPtr(t)), ConstPtr(app->Jnlst()));
   SmartPtr<AlgorithmBuilder> b = new QBuilder(&W, nl);
   ApplicationReturnStatus st = app->OptimizeNLP(nlp, b); out().stat("solves"); out().stat(fmt("ret%d", (int) st));
}
// finite differences
static void c18f(Rng& r, long) {
   Nlp p = r.chance(0.3) ? genConvex(r) : r.chance(0.7) ? genNonconvex(r) : genAny(r);
   if( p.n > 14 ) { out().stat("skipped_large"); return; }
   p.structure(r, 0.0, 0.1);
   double pert = r.chance(0.4) ? 1e-7 : r.logu(1e-9, 1e-3); bool tiny = false;
   if( r.chance(0.3) ) for( int i = 0; i < p.n; ++i ) if( !p.fixed(i) && r.chance(0.3) ) { double a = std::max(Nlp::lo(p.xl[i]) ? p.xl[i] : -1e3, std::min(p.x0[i], Nlp::up(p.xu[i]) ? p.xu[i] : 1e3)), w = pert * r.logu(0.1, 10) * std::max(1., std::fabs(a)); if( w < 1e-7 ) continue; p.xl[i] = a; p.xu[i] = a + w; tiny = true; }
   CfgOpt o; o.limmem = false; o.scal = false; Config c = randConfig(r, o); c.S("nlp_scaling_method", "none"); c.I("max_iter", r.ri(1, 25)); c.S("jacobian_approximation", r.chance(0.8) ? "finite-difference-values" : "exact"); bool fdj = c.s("jacobian_approximation", "") != "exact", fdg = !fdj || r.chance(0.5);
   if( fdg ) c.S("gradient_approximation", "finite-difference-values");
   if( pert != 1e-7 ) c.N("findiff_perturbation", pert); c.N("bound_relax_factor", r.pickd({0, 1e-8})); if( r.chance(0.5) ) c.S("hessian_approximation", "limited-memory");
   for( const char* k : {"magic_steps", "line_search_method", "start_with_resto", "fixed_variable_treatment"} ) c.rm(k);
   if( r.chance(0.6) ) c.S("fixed_variable_treatment", r.pick({"make_parameter", "make_parameter_nodual", "make_constraint"}));
   out().sig(hmix(p.sig(), c.sig())); out().sample(p.descr() + " | " + c.str());
   std::string ctx = " | " + p.descr() + " | " + c.str(); bool rep = false;
   SmartPtr<MonTNLP> t = new MonTNLP(p, c); t->contract = false; t->boundsCheck = false; t->wantIter = false; bool relaxed = t->fixedRelaxed();
   t->onEval = [&](MonTNLP& q, char k) {
      if( k != 'f' && k != 'c' ) return;
      out().stat("points"); const Vec& x = q.lastX; int nd = 0; for( int i = 0; i < p.n; ++i ) nd += !p.fixed(i) && x[i] != p.x0[i]; if( nd <= 1 ) return;   // the user's own point
      for( int i = 0; i < p.n; ++i ) {
         double rl = c.relax(p.xl[i]), ru = c.relax(p.xu[i]), e = 1e-10;   // tiny slacks are moved by the documented slack_move
         if( p.fixed(i) && relaxed ) continue;
         if( p.fixed(i) && c.s("fixed_variable_treatment", "make_parameter").substr(0, 14) == "make_parameter" && x[i] != p.xl[i] && !rep ) { rep = true; out().viol("", "fd-fixed-moved", fmt("fixed variable %d perturbed: %.17g instead of %.17g", i, x[i], p.xl[i]) + ctx); }
         if( p.fixed(i) ) continue;
         double lo = Nlp::lo(p.xl[i]) ? p.xl[i] - rl - e * std::max(1., std::fabs(p.xl[i])) : -1e300, hi = Nlp::up(p.xu[i]) ? p.xu[i] + ru + e * std::max(1., std::fabs(p.xu[i])) : 1e300;
         if( !(x[i] >= lo && x[i] <= hi) && !rep ) { rep = true; out().viol("", "fd-outside-bounds", fmt("eval_%c at x[%d]=%.17g outside [%.17g,%.17g] (by %g, range %g, perturbation %g)", k, i, x[i], p.xl[i], p.xu[i], std::max(p.xl[i] - x[i], x[i] - p.xu[i]), p.xu[i] - p.xl[i], pert) + ctx); }
      } };
   t->onIter = [&](MonTNLP& q, IterRec& rr, const IpoptData* d, IpoptCalculatedQuantities* cq) {
      if( rr.mode == RestorationPhaseMode || rep ) return true;
      const Vector& xv = *d->curr()->x(); int N = xv.Dim(); std::vector<int> xi; for( int j = 0; j < p.n; ++j ) if( N == p.n || !p.fixed(j) ) xi.push_back(j); if( (int) xi.size() != N ) return true;
      Vec xr = vals(xv), x(p.n); for( int j = 0; j < p.n; ++j ) x[j] = p.xl[j]; for( int a = 0; a < N; ++a ) x[xi[a]] = xr[a];
      for( double v : x ) if( !(std::fabs(v) < 1e10) ) return true;
      bool save = rep; rep = true; Vec g = vals(*cq->curr_grad_f()); std::vector<double> J, J2; denseGen(*cq->curr_jac_c(), *d->curr()->y_c(), xv, J); denseGen(*cq->curr_jac_d(), *d->curr()->y_d(), xv, J2); rep = save;
      std::vector<int> rows; for( int i = 0; i < p.m; ++i ) if( p.iseq(i) ) rows.push_back(i); int nc = (int) rows.size(), rc = cq->curr_jac_c()->NRows(); std::vector<int> rd; for( int i = 0; i < p.m; ++i ) if( !p.iseq(i) ) rd.push_back(i); if( cq->curr_jac_d()->NRows() != (Index) rd.size() || rc < nc ) return true;
      auto cmp = [&](const char* what, const Func& F, double got, int j, int id, bool fd) {
         Vec gr(p.n, 0.), ab(p.n, 0.); F.grad(x.data(), 1., gr.data(), ab.data()); double want = gr[j];
         if( fd && p.fixed(j) ) { want = 0; if( N == p.n ) { out().stat("fixed_columns"); } if( got != 0 ) out().viol("", "fd-fixed-column", fmt("%s %d: derivative with respect to fixed variable %d is %g", what, id, j, got) + ctx); return; }
         double h = pert * std::max(1., std::fabs(x[j])), M = 0; double width = p.xu[j] - p.xl[j]; double heff = std::min(h, std::max(width / 2, 1e-300));
         for( int s = -2; s <= 2; ++s ) { Vec y = x; y[j] += s * h / 2; std::vector<double> H((size_t) p.n * p.n, 0.); F.hess(y.data(), 1., p.n, H.data()); double v = std::fabs(H[(size_t) j * p.n + j]); if( !std::isfinite(v) ) return; M = std::max(M, v); }
         double sc = std::fabs(F.val(x.data())) + std::fabs(F.c0); for( int k = 0; k < p.n; ++k ) sc += ab[k] * std::max(1., std::fabs(x[k]));
         double tol = fd ? h * M + 2e-14 * sc / heff + 1e-9 * std::fabs(want) + 1e-6 * h : 1e-12 * (ab[j] + std::fabs(want));
         out().stat(fd ? "fd_entries" : "exact_entries");
         if( !(std::fabs(got - want) <= tol) ) { rep = true; out().viol("", "fd-value", fmt("iter %d: %s %d, variable %d: %.12g, derivative is %.12g (difference %g, allowed %g, h %g)", rr.iter, what, id, j, got, want, got - want, tol, h) + ctx); } };
      for( int a = 0; a < N && !rep; ++a ) {
         cmp("objective", p.f, g[a], xi[a], 0, fdg);
         for( int i = 0; i < nc && !rep; ++i ) cmp("constraint", p.g[rows[i]], J[(size_t) i * N + a], xi[a], rows[i], fdj);
         for( size_t i = 0; i < rd.size() && !rep; ++i ) cmp("constraint", p.g[rd[i]], J2[i * N + a], xi[a], rd[i], fdj);
         for( int i = nc; i < rc && !rep; ++i ) { int k = 0, f = -1; for( int j = 0; j < p.n; ++j ) if( p.fixed(j) && k++ == i - nc ) f = j; double want = f == xi[a]; if( J[(size_t) i * N + a] != want ) out().viol("", "fixed-row", fmt("row of the fixed variable %d has entry %g at variable %d", f, J[(size_t) i * N + a], xi[a]) + ctx); }
      }
      (void) q; return true; };
   SmartPtr<IpoptApplication> app = newApp(c); if( app->Initialize("") != Solve_Succeeded ) return;
   ApplicationReturnStatus st = app->OptimizeTNLP(SmartPtr<TNLP>(GetRawPtr(t))); out().stat("solves"); out().stat(fmt("ret%d", (int) st)); if( tiny ) out().stat("tiny_ranges");
   if( fdj && t->valJ ) out().viol("", "exact-called", "eval_jac_g asked for values under finite differences" + ctx);
   if( fdg && t->calls.count('g') && !p.nfix() ) out().viol("", "exact-called", "eval_grad_f called under finite differences" + ctx);
}
int main(int argc, char** argv) {
   Args a = parse(argc, argv); if( out().prop.empty() ) out().prop = "C18";
   runCases(a, [&](Rng& r, long i) { if( a.mode == "c18q" ) c18q(r, i); else c18f(r, i); });
   return 0;
}
