// Random nonlinear programs as sums of analytic terms (exact derivatives).
#pragma once
#include "base.hpp"

namespace mon {
enum TK { QUAD, SQ, CUB, QRT, EXPT, SINT, LOGT, SQR, DIVT, PSIN, SQL, SQRTT, NTK };

struct Term {
   int k; double c; int i, j; double a, b;
   std::vector<std::pair<int, double>> w;   // SQL
};

struct Func {
   double c0 = 0;
   std::map<int, double> lin;
   std::vector<Term> t;

   double val(const double* x, double* scale = nullptr) const {
      double s = c0, ab = std::fabs(c0);
      for( auto& l : lin ) { double v = l.second * x[l.first]; s += v; ab += std::fabs(v); }
      for( auto& e : t ) {
         double v = 0, xi = e.i >= 0 ? x[e.i] : 0, xj = e.j >= 0 ? x[e.j] : 0;
         switch( e.k ) {
            case QUAD: v = e.c * xi * xj; break;
            case SQ: v = e.c * (xi - e.a) * (xi - e.a); ab += std::fabs(e.c) * e.a * e.a; break;
            case CUB: v = e.c * xi * xi * xi; break;
            case QRT: { double d = (xi - e.a); v = e.c * d * d * d * d; break; }
            case EXPT: v = e.c * std::exp(e.a * xi + e.b); break;
            case SINT: v = e.c * std::sin(e.a * xi + e.b); ab += std::fabs(e.c); break;
            case LOGT: v = e.c * std::log(xi + e.a); break;
            case SQR: v = e.c * std::sqrt(1 + (xi - e.a) * (xi - e.a)); break;
            case DIVT: v = e.c * xi / (1 + xj * xj); break;
            case PSIN: v = e.c * xi * std::sin(xj); break;
            case SQL: { double q = -e.b, qa = std::fabs(e.b); for( auto& p : e.w ) { q += p.second * x[p.first]; qa += std::fabs(p.second * x[p.first]); } v = e.c * q * q; ab += std::fabs(e.c) * qa * qa; break; }
            case SQRTT: v = e.c * std::sqrt(xi); break;
         }
         s += v; ab += std::fabs(v);
      }
      if( scale ) *scale = ab;
      return s;
   }
   // g += s*grad
   void grad(const double* x, double s, double* g, double* ga = nullptr) const {
      auto add = [&](int i, double v) { g[i] += s * v; if( ga ) ga[i] += std::fabs(s * v); };
      for( auto& l : lin ) add(l.first, l.second);
      for( auto& e : t ) {
         double xi = e.i >= 0 ? x[e.i] : 0, xj = e.j >= 0 ? x[e.j] : 0;
         switch( e.k ) {
            case QUAD: add(e.i, e.c * xj); add(e.j, e.c * xi); break;
            case SQ: add(e.i, 2 * e.c * (xi - e.a)); break;
            case CUB: add(e.i, 3 * e.c * xi * xi); break;
            case QRT: { double d = xi - e.a; add(e.i, 4 * e.c * d * d * d); break; }
            case EXPT: add(e.i, e.c * e.a * std::exp(e.a * xi + e.b)); break;
            case SINT: add(e.i, e.c * e.a * std::cos(e.a * xi + e.b)); break;
            case LOGT: add(e.i, e.c / (xi + e.a)); break;
            case SQR: add(e.i, e.c * (xi - e.a) / std::sqrt(1 + (xi - e.a) * (xi - e.a))); break;
            case DIVT: { double q = 1 + xj * xj; add(e.i, e.c / q); add(e.j, -2 * e.c * xi * xj / (q * q)); break; }
            case PSIN: add(e.i, e.c * std::sin(xj)); add(e.j, e.c * xi * std::cos(xj)); break;
            case SQL: { double q = -e.b; for( auto& p : e.w ) q += p.second * x[p.first]; for( auto& p : e.w ) add(p.first, 2 * e.c * q * p.second); break; }
            case SQRTT: add(e.i, 0.5 * e.c / std::sqrt(xi)); break;
         }
      }
   }
   // full symmetric H (n x n, row major) += s*hess
   void hess(const double* x, double s, int n, double* H) const {
      auto add = [&](int i, int j, double v) { H[i * n + j] += s * v; if( i != j ) H[j * n + i] += s * v; };
      for( auto& e : t ) {
         double xi = e.i >= 0 ? x[e.i] : 0, xj = e.j >= 0 ? x[e.j] : 0;
         switch( e.k ) {
            case QUAD: add(e.i, e.j, e.i == e.j ? 2 * e.c : e.c); break;
            case SQ: add(e.i, e.i, 2 * e.c); break;
            case CUB: add(e.i, e.i, 6 * e.c * xi); break;
            case QRT: add(e.i, e.i, 12 * e.c * (xi - e.a) * (xi - e.a)); break;
            case EXPT: add(e.i, e.i, e.c * e.a * e.a * std::exp(e.a * xi + e.b)); break;
            case SINT: add(e.i, e.i, -e.c * e.a * e.a * std::sin(e.a * xi + e.b)); break;
            case LOGT: add(e.i, e.i, -e.c / ((xi + e.a) * (xi + e.a))); break;
            case SQR: { double q = 1 + (xi - e.a) * (xi - e.a); add(e.i, e.i, e.c / (q * std::sqrt(q))); break; }
            case DIVT: { double q = 1 + xj * xj; add(e.i, e.j, -2 * e.c * xj / (q * q)); add(e.j, e.j, e.c * xi * (6 * xj * xj - 2) / (q * q * q)); break; }
            case PSIN: add(e.i, e.j, e.c * std::cos(xj)); add(e.j, e.j, -e.c * xi * std::sin(xj)); break;
            case SQL: for( size_t a = 0; a < e.w.size(); ++a ) for( size_t b = 0; b <= a; ++b ) add(e.w[a].first, e.w[b].first, 2 * e.c * e.w[a].second * e.w[b].second); break;
            case SQRTT: add(e.i, e.i, -0.25 * e.c / (xi * std::sqrt(xi))); break;
         }
      }
   }
   void support(std::set<int>& s) const {
      for( auto& l : lin ) s.insert(l.first);
      for( auto& e : t ) { if( e.i >= 0 ) s.insert(e.i); if( e.j >= 0 && (e.k == QUAD || e.k == DIVT || e.k == PSIN) ) s.insert(e.j); for( auto& p : e.w ) s.insert(p.first); }
   }
   void hsupport(std::set<std::pair<int, int>>& s) const {
      auto add = [&](int i, int j) { s.insert({std::max(i, j), std::min(i, j)}); };
      for( auto& e : t ) {
         if( e.k == SQL ) { for( auto& a : e.w ) for( auto& b : e.w ) add(a.first, b.first); }
         else if( e.k == QUAD ) add(e.i, e.j);
         else if( e.k == DIVT || e.k == PSIN ) { add(e.i, e.j); add(e.j, e.j); }
         else add(e.i, e.i);
      }
   }
   bool linear() const { return t.empty(); }
   bool quadratic() const { for( auto& e : t ) if( e.k != QUAD && e.k != SQ && e.k != SQL ) return false; return true; }
   void nonlinvars(std::set<int>& s) const {
      for( auto& e : t ) { if( e.i >= 0 ) s.insert(e.i); if( e.j >= 0 && (e.k == QUAD || e.k == DIVT || e.k == PSIN) ) s.insert(e.j); for( auto& p : e.w ) s.insert(p.first); }
   }
};
inline Term T1(int k, double c, int i, double a = 0, double b = 0) { return Term{k, c, i, -1, a, b, {}}; }
inline Term T2(int k, double c, int i, int j) { return Term{k, c, i, j, 0, 0, {}}; }

struct JE { int i, j; double w; };

const double INFB = 2e19;

struct Nlp {
   std::string fam;
   int n = 0, m = 0;
   Vec xl, xu, gl, gu, x0, z0l, z0u, lam0;
   Func f; std::vector<Func> g;
   std::vector<JE> jac, hes;       // hes: i>=j unless upper
   bool fortran = false, upper = false;
   // scaling handed out
   double objscal = 1; bool usex = false, useg = false; Vec xs, gs;
   // planted knowledge
   bool planted = false, convex = false, qp = false, infeasible = false, unbounded = false, feasible = false;
   Vec xstar, lstar, zlstar, zustar; double fstar = 0;

   static bool lo(double b) { return b > -1e19; }
   static bool up(double b) { return b < 1e19; }
   bool fixed(int i) const { return xl[i] == xu[i]; }
   bool iseq(int i) const { return gl[i] == gu[i]; }
   int neq() const { int k = 0; for( int i = 0; i < m; ++i ) k += iseq(i); return k; }
   int nfix() const { int k = 0; for( int i = 0; i < n; ++i ) k += fixed(i); return k; }

   void J(const double* x, Vec& d, Vec* abs = nullptr) const {
      d.assign((size_t) m * n, 0.); if( abs ) abs->assign((size_t) m * n, 0.);
      for( int i = 0; i < m; ++i ) g[i].grad(x, 1., d.data() + (size_t) i * n, abs ? abs->data() + (size_t) i * n : nullptr);
   }
   void H(const double* x, double s, const double* lam, Vec& d) const {
      d.assign((size_t) n * n, 0.);
      if( s != 0 ) f.hess(x, s, n, d.data());
      for( int i = 0; i < m; ++i ) if( lam[i] != 0 ) g[i].hess(x, lam[i], n, d.data());
   }
   /// sparse structure: duplicates, structural zeros, random order
   void structure(Rng& r, double pdup = 0.15, double pzero = 0.05) {
      jac.clear(); hes.clear();
      fortran = r.chance(0.5); upper = r.chance(0.25);
      auto put = [&](std::vector<JE>& v, int i, int j) {
         if( r.chance(pdup) ) {
            double a = r.pickd({0.5, 0.25, 2.0, -1.0, 0.0});
            v.push_back({i, j, a}); v.push_back({i, j, 1 - a});
         }
         else v.push_back({i, j, 1.});
      };
      for( int i = 0; i < m; ++i ) {
         std::set<int> s; g[i].support(s);
         for( int j = 0; j < n; ++j )
            if( s.count(j) ) put(jac, i, j);
            else if( r.chance(pzero) && n < 40 ) jac.push_back({i, j, 1.});
      }
      std::set<std::pair<int, int>> hs; f.hsupport(hs);
      for( auto& q : g ) q.hsupport(hs);
      for( auto& p : hs ) put(hes, p.first, p.second);
      if( n < 40 ) for( int i = 0; i < n; ++i ) if( r.chance(pzero) && !hs.count({i, 0}) ) hes.push_back({i, 0, 1.});
      r.shuffle(jac); r.shuffle(hes);
   }
   /// the same problem with permuted variables / constraints
   Nlp permuted(Rng& r, std::vector<int>& pv, std::vector<int>& pc) const {
      Nlp q = *this;
      pv.resize(n); pc.resize(m);
      for( int i = 0; i < n; ++i ) pv[i] = i;
      for( int i = 0; i < m; ++i ) pc[i] = i;
      r.shuffle(pv); r.shuffle(pc);                 // new index of old i = pv[i]
      auto pf = [&](const Func& a) {
         Func b; b.c0 = a.c0;
         for( auto& l : a.lin ) b.lin[pv[l.first]] = l.second;
         for( auto e : a.t ) { if( e.i >= 0 ) e.i = pv[e.i]; if( e.j >= 0 ) e.j = pv[e.j]; for( auto& p : e.w ) p.first = pv[p.first]; b.t.push_back(e); }
         return b;
      };
      q.f = pf(f);
      for( int i = 0; i < m; ++i ) { q.g[pc[i]] = pf(g[i]); q.gl[pc[i]] = gl[i]; q.gu[pc[i]] = gu[i]; if( !lstar.empty() ) q.lstar[pc[i]] = lstar[i]; if( !lam0.empty() ) q.lam0[pc[i]] = lam0[i]; if( !gs.empty() ) q.gs[pc[i]] = gs[i]; }
      for( int i = 0; i < n; ++i ) {
         int k = pv[i]; q.xl[k] = xl[i]; q.xu[k] = xu[i]; q.x0[k] = x0[i];
         if( !xstar.empty() ) q.xstar[k] = xstar[i];
         if( !zlstar.empty() ) { q.zlstar[k] = zlstar[i]; q.zustar[k] = zustar[i]; }
         if( !z0l.empty() ) { q.z0l[k] = z0l[i]; q.z0u[k] = z0u[i]; }
         if( !xs.empty() ) q.xs[k] = xs[i];
      }
      q.structure(r);
      return q;
   }
   uint64_t sig() const {
      uint64_t h = hstr(fam);
      h = hmix(h, n); h = hmix(h, m);
      for( int i = 0; i < n; ++i ) h = hmix(h, lo(xl[i]) + 2 * up(xu[i]) + 4 * fixed(i));
      for( int i = 0; i < m; ++i ) h = hmix(h, lo(gl[i]) + 2 * up(gu[i]) + 4 * iseq(i) + 8 * g[i].linear());
      h = hmix(h, jac.size()); h = hmix(h, hes.size());
      for( auto& e : f.t ) h = hmix(h, e.k);
      return hmix(h, fortran + 2 * upper);
   }
   std::string descr() const {
      std::string s = fmt("fam=%s n=%d m=%d neq=%d nfix=%d nnzj=%d nnzh=%d base=%d", fam.c_str(), n, m, neq(), nfix(), (int) jac.size(), (int) hes.size(), fortran ? 1 : 0);
      return s;
   }
};

// ---------------------------------------------------------------- generators
inline void initDims(Nlp& p, int n, int m) {
   p.n = n; p.m = m;
   p.xl.assign(n, -INFB); p.xu.assign(n, INFB); p.x0.assign(n, 0.);
   p.gl.assign(m, -INFB); p.gu.assign(m, INFB); p.g.assign(m, Func());
   p.z0l.assign(n, 1.); p.z0u.assign(n, 1.); p.lam0.assign(m, 0.);
}
inline double gsInf(Rng& r) { return r.pickd({1e19, 2e19, 1e20, 1e30, 1.7e308}); }
inline void randInf(Nlp& p, Rng& r) {   // different numbers meaning "infinite"
   for( auto& b : p.xl ) if( !Nlp::lo(b) ) b = -gsInf(r);
   for( auto& b : p.xu ) if( !Nlp::up(b) ) b = gsInf(r);
   for( auto& b : p.gl ) if( !Nlp::lo(b) ) b = -gsInf(r);
   for( auto& b : p.gu ) if( !Nlp::up(b) ) b = gsInf(r);
}
inline void sparseLin(Func& f, Rng& r, int n, int k, double s = 1) {
   for( int q = 0; q < k; ++q ) { double v = s * r.uni(0.5, 2) * r.sgn(); f.lin[r.ri(0, n - 1)] = v; }
}
/// try to add v to the orthonormal set; false if nearly dependent
inline bool gsAdd(std::vector<Vec>& Q, Vec v, double tol = 0.3) {
   double nn = 0; for( double e : v ) nn += e * e;
   nn = std::sqrt(nn); if( nn == 0 ) return false;
   for( auto& e : v ) e /= nn;
   for( auto& q : Q ) { double d = 0; for( size_t i = 0; i < v.size(); ++i ) d += q[i] * v[i]; for( size_t i = 0; i < v.size(); ++i ) v[i] -= d * q[i]; }
   double rr = 0; for( double e : v ) rr += e * e;
   rr = std::sqrt(rr);
   if( rr < tol ) return false;
   for( auto& e : v ) e /= rr;
   Q.push_back(v); return true;
}
struct GenOpt { bool nonlin = true; bool lp = false; int nmax = 10; double pfix = 0.08; bool degenerate = false; bool dense = false; };

/// strictly convex problem with a planted, strictly complementary KKT point (LICQ holds)
inline Nlp genConvex(Rng& r, const GenOpt& o = GenOpt()) {
   Nlp p; int n = r.ri(1, o.nmax), m = r.ri(0, n + 3);
   if( r.chance(0.1) ) m = 0;
   initDims(p, n, m);
   p.fam = o.nonlin ? "convex" : "convexqp"; p.convex = true; p.planted = true; p.feasible = true; p.qp = !o.nonlin;
   Vec xs(n); double sc = r.pickd({1, 1, 3, 0.3});
   for( auto& v : xs ) v = sc * r.gauss();
   p.zlstar.assign(n, 0); p.zustar.assign(n, 0); p.lstar.assign(m, 0);
   std::vector<Vec> Q;
   // bounds
   for( int j = 0; j < n; ++j ) {
      double u = r.u01();
      if( u < o.pfix && (int) Q.size() < n - 1 ) {   // fixed
         Vec e(n, 0.); e[j] = 1;
         if( gsAdd(Q, e) ) { p.xl[j] = p.xu[j] = xs[j]; double z = 2 * r.gauss(); if( z > 0 ) p.zlstar[j] = z; else p.zustar[j] = -z; continue; }
      }
      if( u < 0.35 ) {   // active
         Vec e(n, 0.); e[j] = 1;
         if( gsAdd(Q, e) ) {
            bool low = r.chance(0.5); double z = r.uni(0.2, 3);
            if( low ) { p.xl[j] = xs[j]; p.zlstar[j] = z; if( r.chance(0.4) ) p.xu[j] = xs[j] + r.uni(0.5, 4); }
            else { p.xu[j] = xs[j]; p.zustar[j] = z; if( r.chance(0.4) ) p.xl[j] = xs[j] - r.uni(0.5, 4); }
            continue;
         }
      }
      if( r.chance(0.4) ) p.xl[j] = xs[j] - r.uni(0.3, 3);
      if( r.chance(0.4) ) p.xu[j] = xs[j] + r.uni(0.3, 3);
   }
   // constraints
   for( int i = 0; i < m; ++i ) {
      int kind = r.ri(0, 4);      // 0,1 equality(linear) 2 active ineq 3 inactive 4 free/inactive range
      bool nl = o.nonlin && r.chance(0.6) && kind >= 2;
      Func g; int nz = r.ri(1, std::min(n, 4));
      sparseLin(g, r, n, nz);
      int cv = 1;   // convex (<=) ; -1 concave (>=)
      if( nl ) {
         cv = r.chance(0.7) ? 1 : -1;
         int nt = r.ri(1, 3);
         for( int q = 0; q < nt; ++q ) {
            int v = r.ri(0, n - 1);
            switch( r.ri(0, 4) ) {
               case 0: g.t.push_back(T1(SQ, cv * r.uni(0.2, 1), v, r.gauss())); break;
               case 1: g.t.push_back(T1(EXPT, cv * r.uni(0.2, 1), v, r.uni(-0.7, 0.7), 0)); break;
               case 2: g.t.push_back(T1(SQR, cv * r.uni(0.5, 1.5), v, r.gauss())); break;
               case 3: { Term e = T1(SQL, cv * r.uni(0.2, 0.8), -1); e.b = r.gauss(); for( int z = 0; z < 2; ++z ) e.w.push_back({r.ri(0, n - 1), r.sgn() * r.uni(0.3, 1)}); if( e.w[0].first == e.w[1].first ) e.w.pop_back(); g.t.push_back(e); break; }
               case 4: g.t.push_back(T1(QRT, cv * r.uni(0.05, 0.3), v, xs[v] + r.gauss())); break;
            }
         }
      }
      if( r.chance(0.3) ) g.c0 = r.gauss();
      double gv = g.val(xs.data());
      Vec gr(n, 0.); g.grad(xs.data(), 1., gr.data());
      bool act = kind <= 2 && (int) Q.size() < n && gsAdd(Q, gr);
      if( act && kind <= 1 ) {
         p.gl[i] = p.gu[i] = gv; p.lstar[i] = 2 * r.gauss();
      }
      else if( act ) {
         bool le = nl ? cv > 0 : r.chance(0.5);
         double l = r.uni(0.2, 3);
         if( le ) { p.gu[i] = gv; p.lstar[i] = l; if( !nl && r.chance(0.4) ) p.gl[i] = gv - r.uni(0.5, 5); }
         else { p.gl[i] = gv; p.lstar[i] = -l; if( !nl && r.chance(0.4) ) p.gu[i] = gv + r.uni(0.5, 5); }
      }
      else {
         if( nl ) { if( cv > 0 ) p.gu[i] = gv + r.uni(0.5, 5); else p.gl[i] = gv - r.uni(0.5, 5); }
         else { int w = r.ri(1, 3); if( w & 1 ) p.gu[i] = gv + r.uni(0.5, 5); if( w & 2 ) p.gl[i] = gv - r.uni(0.5, 5); if( r.chance(0.1) ) p.gl[i] = -INFB, p.gu[i] = INFB; }
      }
      p.g[i] = g;
   }
   // objective: strongly convex
   if( !o.lp ) {
      for( int j = 0; j < n; ++j ) p.f.t.push_back(T1(SQ, r.uni(0.4, 3), j, r.gauss()));
      int k = r.ri(0, n);
      for( int q = 0; q < k; ++q ) {
         if( o.nonlin && r.chance(0.6) ) {
            int v = r.ri(0, n - 1);
            switch( r.ri(0, 2) ) {
               case 0: p.f.t.push_back(T1(EXPT, r.uni(0.1, 1), v, r.uni(-0.7, 0.7), 0)); break;
               case 1: p.f.t.push_back(T1(QRT, r.uni(0.05, 0.3), v, xs[v] + r.gauss())); break;
               case 2: p.f.t.push_back(T1(SQR, r.uni(0.5, 2), v, r.gauss())); break;
            }
         }
         else if( n > 1 ) {
            Term e = T1(SQL, r.uni(0.1, 1), -1); e.b = r.gauss();
            std::set<int> us; int z = r.ri(2, std::min(n, o.dense ? n : 3));
            while( (int) us.size() < z ) us.insert(r.ri(0, n - 1));
            for( int v : us ) e.w.push_back({v, r.sgn() * r.uni(0.3, 1)});
            p.f.t.push_back(e);
         }
      }
   }
   if( r.chance(0.3) ) p.f.c0 = 5 * r.gauss();
   // linear part from stationarity
   Vec gr(n, 0.); p.f.grad(xs.data(), 1., gr.data());
   for( int i = 0; i < m; ++i ) p.g[i].grad(xs.data(), p.lstar[i], gr.data());
   for( int j = 0; j < n; ++j ) { double c = -(gr[j] - p.zlstar[j] + p.zustar[j]); if( c != 0 ) p.f.lin[j] = c; }
   p.xstar = xs; p.fstar = p.f.val(xs.data());
   for( int j = 0; j < n; ++j ) { p.x0[j] = xs[j] + r.pickd({0.1, 1, 5}) * r.gauss(); }
   for( int j = 0; j < n; ++j ) { p.z0l[j] = r.uni(0.1, 2); p.z0u[j] = r.uni(0.1, 2); }
   for( int i = 0; i < m; ++i ) p.lam0[i] = r.gauss();
   randInf(p, r); p.structure(r);
   return p;
}
/// LP with planted nondegenerate vertex
inline Nlp genLP(Rng& r, int nmax = 8) {
   for( ;; ) {
      GenOpt o; o.nonlin = false; o.lp = true; o.nmax = nmax; o.pfix = 0.03;
      Nlp p = genConvex(r, o);
      std::vector<Vec> Q;
      for( int j = 0; j < p.n; ++j ) if( p.zlstar[j] > 0 || p.zustar[j] > 0 ) { Vec e(p.n, 0.); e[j] = 1; gsAdd(Q, e, 0.1); }
      for( int i = 0; i < p.m; ++i ) if( p.lstar[i] != 0 ) { Vec gr(p.n, 0.); p.g[i].grad(p.xstar.data(), 1., gr.data()); gsAdd(Q, gr, 0.1); }
      if( (int) Q.size() < p.n ) {   // close the vertex with bounds
         for( int j = 0; j < p.n; ++j ) if( p.zlstar[j] == 0 && p.zustar[j] == 0 && !p.fixed(j) ) {
            Vec e(p.n, 0.); e[j] = 1;
            if( gsAdd(Q, e, 0.1) ) { double z = r.uni(0.3, 2); if( r.chance(0.5) ) { p.xl[j] = p.xstar[j]; if( !Nlp::up(p.xu[j]) || p.xu[j] <= p.xl[j] ) p.xu[j] = INFB; p.zlstar[j] = z; p.f.lin[j] += z; } else { p.xu[j] = p.xstar[j]; if( !Nlp::lo(p.xl[j]) || p.xl[j] >= p.xu[j] ) p.xl[j] = -INFB; p.zustar[j] = z; p.f.lin[j] -= z; } }
         }
      }
      if( (int) Q.size() < p.n ) continue;
      p.fam = "lp"; p.convex = true; p.fstar = p.f.val(p.xstar.data());
      p.structure(r);
      return p;
   }
}
inline void randTerms(Func& f, Rng& r, int n, int k, bool bounded, double s = 1) {
   for( int q = 0; q < k; ++q ) {
      int i = r.ri(0, n - 1), j = r.ri(0, n - 1); double c = s * r.gauss();
      switch( r.ri(0, bounded ? 6 : 8) ) {
         case 0: f.t.push_back(T2(QUAD, c, std::max(i, j), std::min(i, j))); break;
         case 1: f.t.push_back(T1(SINT, c, i, r.uni(0.5, 2), r.gauss())); break;
         case 2: f.t.push_back(T1(SQ, c, i, r.gauss())); break;
         case 3: if( i != j ) f.t.push_back(T2(DIVT, c, i, j)); break;
         case 4: if( i != j ) f.t.push_back(T2(PSIN, c, i, j)); break;
         case 5: f.t.push_back(T1(SQR, c, i, r.gauss())); break;
         case 6: f.lin[i] = c; break;
         case 7: f.t.push_back(T1(CUB, 0.3 * c, i)); break;
         case 8: f.t.push_back(T1(EXPT, c, i, r.uni(-0.5, 0.5), 0)); break;
      }
   }
}
/// nonconvex, feasible (xstar = a feasible point), objective bounded below
inline Nlp genNonconvex(Rng& r, int nmax = 8, double pfix = 0.1) {
   Nlp p; int n = r.ri(1, nmax), m = r.ri(0, n + 1);
   initDims(p, n, m); p.fam = "nonconvex"; p.feasible = true;
   Vec xf(n); for( auto& v : xf ) v = r.gauss();
   for( int j = 0; j < n; ++j ) {
      double u = r.u01();
      if( u < pfix ) p.xl[j] = p.xu[j] = xf[j];
      else { if( r.chance(0.5) ) p.xl[j] = xf[j] - r.uni(0, 2) * r.chance(0.9); if( r.chance(0.5) ) p.xu[j] = xf[j] + r.uni(0.01, 2); }
   }
   int eq = 0;
   for( int i = 0; i < m; ++i ) {
      sparseLin(p.g[i], r, n, r.ri(1, std::min(n, 3)));
      if( r.chance(0.7) ) randTerms(p.g[i], r, n, r.ri(1, 3), false, 0.5);
      double v = p.g[i].val(xf.data());
      int free = n - p.nfix();
      if( r.chance(0.4) && eq < free - 1 ) { p.gl[i] = p.gu[i] = v; ++eq; }
      else { int w = r.ri(1, 3); if( w & 1 ) p.gl[i] = v - r.uni(0, 2); if( w & 2 ) p.gu[i] = v + r.uni(0.01, 2); if( r.chance(0.05) ) p.gl[i] = -INFB, p.gu[i] = INFB; }
   }
   randTerms(p.f, r, n, r.ri(1, 2 * n + 1), true);
   for( int j = 0; j < n; ++j ) if( !(Nlp::lo(p.xl[j]) && Nlp::up(p.xu[j])) || r.chance(0.2) ) p.f.t.push_back(T1(QRT, r.uni(0.1, 0.5), j, r.gauss()));
   p.xstar = xf;
   for( int j = 0; j < n; ++j ) p.x0[j] = xf[j] + r.pickd({0, 0.5, 3}) * r.gauss();
   for( int j = 0; j < n; ++j ) { p.z0l[j] = r.uni(0.1, 2); p.z0u[j] = r.uni(0.1, 2); }
   for( int i = 0; i < m; ++i ) p.lam0[i] = r.gauss();
   randInf(p, r); p.structure(r);
   return p;
}
/// no feasible point, by construction, with a clear gap
inline Nlp genInfeasible(Rng& r, int nmax = 6) {
   Nlp p = genNonconvex(r, nmax, 0.0);
   p.fam = "infeasible"; p.infeasible = true; p.feasible = false;
   int n = p.n; int k = r.ri(0, 3);
   auto addc = [&](const Func& g, double l, double u) { p.g.push_back(g); p.gl.push_back(l); p.gu.push_back(u); p.lam0.push_back(0.); p.m++; };
   if( k == 0 ) {   // sum of squares + 1 <= 0
      Func g; g.c0 = r.uni(0.5, 2); for( int j = 0; j < n; ++j ) if( r.chance(0.7) || j == 0 ) g.t.push_back(T1(SQ, r.uni(0.3, 2), j, r.gauss()));
      if( r.chance(0.5) ) addc(g, -INFB, 0.); else addc(g, -3., -0.1);
   }
   else if( k == 1 ) {   // linear form both >= a and <= b < a
      Func g; sparseLin(g, r, n, std::min(n, 3)); double a = r.gauss();
      addc(g, a + r.uni(0.5, 3), INFB); Func h = g; if( r.chance(0.5) ) for( auto& l : h.lin ) l.second *= 2, h.c0 = 0; else { addc(h, -INFB, a); goto done; }
      addc(h, -INFB, 2 * a);
   }
   else if( k == 2 ) {   // box too small
      Func g; double s = 0; for( int j = 0; j < n; ++j ) { p.xl[j] = p.x0[j] - r.uni(0.5, 2); p.xu[j] = p.x0[j] + r.uni(0.5, 2); g.lin[j] = 1; s += p.xu[j]; }
      addc(g, s + r.uni(0.5, 3), r.chance(0.5) ? INFB : s + 10);
   }
   else {   // exp(x) + 0.5 = 0
      Func g; g.c0 = 0.5; g.t.push_back(T1(EXPT, 1., 0, r.uni(-0.5, 0.5), 0)); g.t.push_back(T1(SQ, 0.3, n - 1, 0.2)); if( n > 1 ) addc(g, 0., 0.); else addc(g, -INFB, 0.);
   }
done:
   randInf(p, r); p.structure(r);
   return p;
}
inline Nlp genUnbounded(Rng& r, int nmax = 5) {
   Nlp p; int n = r.ri(1, nmax), m = r.ri(0, n - 1);
   initDims(p, n, m); p.fam = "unbounded"; p.unbounded = true; p.feasible = true;
   int v = r.ri(0, n - 1);
   for( int j = 0; j < n; ++j ) { p.x0[j] = r.gauss(); if( j != v ) { p.xl[j] = p.x0[j] - 1; p.xu[j] = p.x0[j] + r.uni(0.5, 2); p.f.t.push_back(T1(SQ, 1, j, r.gauss())); } }
   if( r.chance(0.5) ) { if( r.chance(0.5) ) { p.xl[v] = p.x0[v] - 1; p.f.lin[v] = -r.uni(0.5, 2); } else { p.xu[v] = p.x0[v] + 1; p.f.lin[v] = r.uni(0.5, 2); } }
   else if( r.chance(0.5) ) p.f.t.push_back(T1(SQ, -r.uni(0.5, 2), v, 0.1));
   else p.f.lin[v] = r.sgn();
   for( int i = 0; i < m; ++i ) { int j = r.ri(0, n - 1); if( j == v ) j = (j + 1) % n; if( j == v ) continue; p.g[i].t.push_back(T1(SQ, 1, j, p.x0[j])); p.gu[i] = 1; }
   randInf(p, r); p.structure(r);
   return p;
}
/// square nonlinear system with a known, well conditioned root
inline Nlp genSquare(Rng& r, int nmax = 8) {
   Nlp p; int n = r.ri(1, nmax); initDims(p, n, n); p.fam = "square"; p.feasible = true;
   Vec xs(n); for( auto& v : xs ) v = r.gauss();
   for( int i = 0; i < n; ++i ) {
      p.g[i].lin[i] = r.sgn() * r.uni(3, 5);
      if( n > 1 && r.chance(0.6) ) p.g[i].t.push_back(T1(SINT, r.uni(0.2, 0.8), (i + 1) % n, 1., r.gauss()));
      if( r.chance(0.5) ) p.g[i].t.push_back(T1(SINT, r.uni(0.2, 0.8), i, 1., r.gauss()));
      p.gl[i] = p.gu[i] = p.g[i].val(xs.data());
   }
   if( r.chance(0.4) ) randTerms(p.f, r, n, 2, true);
   if( r.chance(0.3) ) for( int j = 0; j < n; ++j ) { if( r.chance(0.5) ) p.xl[j] = xs[j] - r.uni(0.5, 3); if( r.chance(0.5) ) p.xu[j] = xs[j] + r.uni(0.5, 3); }
   p.xstar = xs; for( int j = 0; j < n; ++j ) p.x0[j] = xs[j] + 0.5 * r.gauss();
   randInf(p, r); p.structure(r);
   return p;
}
/// degenerate / rank deficient / weird but feasible
inline Nlp genDegenerate(Rng& r, int nmax = 8) {
   Nlp p = genNonconvex(r, nmax); p.fam = "degenerate";
   int k = r.ri(1, 3);
   for( int q = 0; q < k && p.m > 0; ++q ) {   // duplicate rows, scaled rows
      int i = r.ri(0, p.m - 1); Func g = p.g[i]; double s = r.pickd({1, 1, 2, -1});
      double l = p.gl[i], u = p.gu[i];
      g.c0 *= s; for( auto& e : g.lin ) e.second *= s; for( auto& e : g.t ) e.c *= s;
      double a = Nlp::lo(l) ? s * l : (s > 0 ? -INFB : INFB), b = Nlp::up(u) ? s * u : (s > 0 ? INFB : -INFB);
      if( s < 0 ) std::swap(a, b);
      if( p.iseq(i) && p.neq() >= p.n - p.nfix() ) continue;
      p.g.push_back(g); p.gl.push_back(a); p.gu.push_back(b); p.lam0.push_back(0.); p.m++;
   }
   p.structure(r);
   return p;
}
inline Nlp genTrivial(Rng& r) {
   Nlp p; int k = r.ri(0, 4);
   if( k == 0 ) { p = genConvex(r); for( int j = 0; j < p.n; ++j ) p.xl[j] = p.xu[j] = p.xstar[j]; p.fam = "allfixed"; p.planted = false; p.convex = false; for( int i = 0; i < p.m; ++i ) if( !p.iseq(i) ) { } }
   else if( k == 1 ) { GenOpt o; o.nmax = 1; p = genConvex(r, o); p.fam = "one"; }
   else if( k == 2 ) { p = genNonconvex(r); p.f = Func(); p.f.c0 = r.gauss(); p.fam = "constobj"; p.structure(r); }
   else if( k == 3 ) { p = genConvex(r); for( int i = 0; i < p.m; ++i ) { p.gl[i] = -INFB; p.gu[i] = INFB; } p.planted = false; p.fam = "freerows"; p.convex = true; randInf(p, r); }
   else { initDims(p, r.ri(1, 4), 0); for( int j = 0; j < p.n; ++j ) p.f.t.push_back(T1(SQ, 1., j, r.gauss())); p.fam = "unconstrained"; p.feasible = true; p.structure(r); }
   return p;
}
/// larger structured problem (discretised control chain)
inline Nlp genChain(Rng& r, int N) {
   Nlp p; int n = 2 * N + 1, m = N; initDims(p, n, m); p.fam = "chain"; p.feasible = true;
   double h = 1. / N, a = r.uni(0.5, 3), b = r.gauss(), reg = r.logu(1e-3, 1);
   // y_0..y_N, u_0..u_{N-1}
   for( int i = 0; i < N; ++i ) {
      Func& g = p.g[i]; g.lin[i + 1] = 1; g.lin[i] = -1; g.lin[N + 1 + i] = -h;
      g.t.push_back(T1(SINT, -h * a, i, 1., b)); p.gl[i] = p.gu[i] = 0;
   }
   for( int i = 0; i <= N; ++i ) p.f.t.push_back(T1(SQ, h, i, std::sin(3. * i * h)));
   for( int i = 0; i < N; ++i ) { p.f.t.push_back(T1(SQ, reg * h, N + 1 + i, 0)); if( r.chance(0.7) ) { p.xl[N + 1 + i] = -r.uni(0.5, 3); p.xu[N + 1 + i] = r.uni(0.5, 3); } }
   p.xl[0] = p.xu[0] = r.gauss(); for( auto& v : p.x0 ) v = 0.3 * r.gauss();
   randInf(p, r); p.structure(r, 0.02, 0);
   return p;
}
inline Nlp genAny(Rng& r) {
   double u = r.u01();
   if( u < 0.25 ) return genConvex(r);
   if( u < 0.35 ) { GenOpt o; o.nonlin = false; return genConvex(r, o); }
   if( u < 0.6 ) return genNonconvex(r);
   if( u < 0.7 ) return genDegenerate(r);
   if( u < 0.75 ) return genSquare(r);
   if( u < 0.8 ) return genLP(r);
   if( u < 0.87 ) return genInfeasible(r);
   if( u < 0.91 ) return genUnbounded(r);
   if( u < 0.97 ) return genTrivial(r);
   return genChain(r, r.ri(5, 30));
}
} // namespace mon
