// Monitored TNLP: records and judges every callback; fault injection; solve helpers.
#pragma once
#include "nlp.hpp"
#include "IpIpoptApplication.hpp"
#include "IpSolveStatistics.hpp"
#include "IpTNLP.hpp"
#include "IpIpoptData.hpp"
#include "IpIpoptCalculatedQuantities.hpp"
#include "IpTNLPAdapter.hpp"
#include "IpOrigIpoptNLP.hpp"

namespace mon {
using Ipopt::Index;
using Ipopt::Number;
using Ipopt::SmartPtr;
using Ipopt::IpoptApplication;
using Ipopt::ApplicationReturnStatus;
using Ipopt::SolverReturn;

struct Opt { std::string name; char t; std::string s; double d; int i; };
struct Config {
   std::vector<Opt> o;
   void S(const std::string& n, const std::string& v) { rm(n); o.push_back({n, 's', v, 0, 0}); }
   void N(const std::string& n, double v) { rm(n); o.push_back({n, 'n', "", v, 0}); }
   void I(const std::string& n, int v) { rm(n); o.push_back({n, 'i', "", 0, v}); }
   void rm(const std::string& n) { for( size_t k = 0; k < o.size(); ++k ) if( o[k].name == n ) { o.erase(o.begin() + k); return; } }
   const Opt* get(const std::string& n) const { for( auto& e : o ) if( e.name == n ) return &e; return nullptr; }
   std::string s(const std::string& n, const std::string& d) const { auto e = get(n); return e ? e->s : d; }
   double n(const std::string& n, double d) const { auto e = get(n); return e ? e->d : d; }
   int i(const std::string& n, int d) const { auto e = get(n); return e ? e->i : d; }
   std::string str() const {
      std::string r;
      for( auto& e : o ) r += e.name + "=" + (e.t == 's' ? e.s : e.t == 'n' ? fmt("%.9g", e.d) : fmt("%d", e.i)) + " ";
      return r;
   }
   uint64_t sig() const { uint64_t h = 5; for( auto& e : o ) { h = hstr(e.name, h); h = e.t == 's' ? hstr(e.s, h) : e.t == 'i' ? hmix(h, e.i) : hmix(h, (uint64_t) (int64_t) std::floor(std::log10(std::fabs(e.d) + 1e-300))); } return h; }
   bool apply(Ipopt::OptionsList& l) const {
      bool ok = true;
      for( auto& e : o ) ok = (e.t == 's' ? l.SetStringValue(e.name, e.s) : e.t == 'n' ? l.SetNumericValue(e.name, e.d) : l.SetIntegerValue(e.name, e.i)) && ok;
      return ok;
   }
   double brf() const { return n("bound_relax_factor", 1e-8); }
   double ctol() const { return n("constr_viol_tol", 1e-4); }
   double relax(double b) const { return std::min(ctol(), brf() * std::max(1., std::fabs(b))); }
};

struct IterRec { int mode, iter; double obj, inf_pr, inf_du, mu, dn, reg, ad, ap; int ls; Vec x, zl, zu, g, lam; bool ok; double dms = 0; };
struct FinalRec { int count = 0; SolverReturn status = Ipopt::UNASSIGNED; Vec x, zl, zu, g, lam; double obj = 0; bool havecq = false; };

enum Fault { F_NONE = 0, F_FALSE, F_NAN, F_INF, F_THROW_INT, F_THROW_STD };

struct MonTNLP : public Ipopt::TNLP {
   const Nlp* p; const Config* cfg;
   // behaviour
   std::function<int(char, int, const double*)> fault;      // kind, call number (0..), x
   std::function<bool(MonTNLP&, IterRec&, const Ipopt::IpoptData*, Ipopt::IpoptCalculatedQuantities*)> onIter;
   std::function<void(MonTNLP&, const Ipopt::IpoptData*, Ipopt::IpoptCalculatedQuantities*)> onFinal;
   std::function<void(MonTNLP&, char)> onEval;
   std::function<bool(Vec&, Vec&, Vec&)> tweakDeriv;         // unused hook
   bool wantIter = true, traceOn = false, contract = true, boundsCheck = true, giveNonlin = false, giveLinearity = false, keepIters = false;
   bool refuseStart = false, refuseMult = false, refuseScaling = false, refuseInfo = false, refuseBounds = false, poisonAll = false;
   bool warmIterate = false;
   int stopAt = -1;
   // records
   std::vector<uint64_t> trace; std::vector<std::string> tdesc; bool descOn = false;
   std::map<char, int> calls; std::map<char, int> okcalls;
   int nInfo = 0, nBounds = 0, nStart = 0, structJ = 0, structH = 0, valJ = 0, valH = 0, nScal = 0, nCB = 0, nMeta = 0, nFinalMeta = 0;
   bool sInitX = false, sInitZ = false, sInitL = false;
   Vec lastX, lastLam; bool haveX = false, haveLam = false;
   int newxRedundant = 0, newxTotal = 0;
   std::map<uint64_t, int> failedAt;      // hash(x) -> kinds that failed last time (bit f=1,g=2,grad=4,jac=8,hess=16)
   FinalRec fin; std::vector<IterRec> iters; IterRec last;
   bool began = false; bool threw = false;
   int lastIter = -1; bool inDerivTest = false;
   std::set<double> hobj;
   double worstOut = 0, maxSeen = 0;
   void see(double v) { if( std::fabs(v) > maxSeen ) maxSeen = std::fabs(v); }   // numbers that grew beyond 1e20 may overflow into NaN

   MonTNLP(const Nlp& q, const Config& c) : p(&q), cfg(&c) {}
   void resetRecords() {
      trace.clear(); tdesc.clear(); calls.clear(); okcalls.clear(); hobj.clear(); nInfo = nBounds = nStart = structJ = structH = valJ = valH = nScal = nCB = nMeta = nFinalMeta = 0;
      haveX = haveLam = false; fin = FinalRec(); iters.clear(); began = false; lastIter = -1; failedAt.clear(); newxRedundant = newxTotal = 0;
   }
   void bad(const char* key, const std::string& msg) { if( contract ) out().viol("C04", key, msg + " | " + p->descr() + " | " + cfg->str()); }
   void tr(char k, std::initializer_list<std::pair<const double*, int>> arrs, std::initializer_list<double> sc = {}) {
      if( !traceOn ) return;
      uint64_t h = hmix(1, (uint64_t) k);
      for( auto& a : arrs ) { if( a.first ) for( int i = 0; i < a.second; ++i ) h = hmix(h, hdbl(a.first[i])); else if( a.second ) h = hmix(h, 99); }
      for( double d : sc ) h = hmix(h, hdbl(d));
      trace.push_back(h);
      if( descOn ) { std::string s(1, k); for( auto& a : arrs ) { s += " ["; if( a.first ) for( int i = 0; i < a.second; ++i ) s += fmt("%.17g ", a.first[i]); s += "]"; } for( double d : sc ) s += fmt(" %.17g", d); tdesc.push_back(s); }
   }
   static uint64_t hx(const double* x, int n) { uint64_t h = 3; for( int i = 0; i < n; ++i ) h = hmix(h, hdbl(x[i])); return h; }
   void common(char k, Index n, const Number* x, bool new_x) {
      calls[k]++;
      if( fin.count ) bad("eval-after-final", fmt("eval_%c called after finalize_solution", k));
      if( !nInfo || !nBounds ) bad("eval-before-info", fmt("eval_%c before get_nlp_info/get_bounds_info", k));
      if( n != p->n ) { bad("eval-n", fmt("eval_%c n=%d expected %d", k, (int) n, p->n)); return; }
      if( !x ) { bad("eval-nullx", fmt("eval_%c x=NULL", k)); return; }
      for( int i = 0; i < n; ++i ) if( std::isfinite(x[i]) ) see(x[i]); else if( maxSeen < 1e20 ) { bad("eval-x-nonfinite", fmt("eval_%c x[%d]=%g", k, i, x[i])); break; }
      Vec xv(x, x + n);
      bool same = haveX && std::memcmp(xv.data(), lastX.data(), n * sizeof(double)) == 0;
      newxTotal++;
      if( !new_x && !same ) bad("new_x-false-new-point", fmt("eval_%c new_x=false but x differs from the previous call's", k));
      if( new_x && same ) newxRedundant++;
      lastX = xv; haveX = true;
      if( onEval ) onEval(*this, k);
      if( boundsCheck && !inDerivTest ) {
         std::string fvt = cfg->s("fixed_variable_treatment", "make_parameter");
         bool atx0 = true;
         for( int i = 0; i < n; ++i ) if( !p->fixed(i) && !(std::fabs(xv[i] - p->x0[i]) <= 1e-10 * std::max(1., std::fabs(p->x0[i]))) ) { atx0 = false; break; }
         for( int i = 0; i < n; ++i ) {
            if( p->fixed(i) ) {
               if( fvt.substr(0, 14) == "make_parameter" && xv[i] != p->xl[i] && !fixedRelaxed() ) { bad("fixed-moved", fmt("eval_%c fixed variable %d = %.17g, must be %.17g", k, i, xv[i], p->xl[i])); break; }
               if( fvt == "make_constraint" ) continue;
            }
            if( atx0 ) continue;
            double viol = 0;
            if( Nlp::lo(p->xl[i]) ) viol = std::max(viol, (p->xl[i] - cfg->relax(p->xl[i]) - xv[i]) / std::max(1., std::fabs(p->xl[i])));
            if( Nlp::up(p->xu[i]) ) viol = std::max(viol, (xv[i] - p->xu[i] - cfg->relax(p->xu[i])) / std::max(1., std::fabs(p->xu[i])));
            if( viol > worstOut ) worstOut = viol;
            if( viol > 1e-7 ) { bad("x-outside-bounds", fmt("eval_%c x[%d]=%.17g bounds [%.17g,%.17g] excess %g", k, i, xv[i], p->xl[i], p->xu[i], viol)); break; }
         }
      }
   }
   /// too few degrees of freedom: the library documents a switch to relaxed bounds
   bool fixedRelaxed() const { return p->n - p->nfix() < p->neq(); }
   int inj(char k, const Number* x) { int f = fault ? fault(k, calls[k] - 1, x) : 0; if( !f ) okcalls[k]++; int bit = k == 'f' ? 1 : k == 'c' ? 2 : k == 'g' ? 4 : k == 'j' ? 8 : 16; int& e = failedAt[hx(x, p->n)]; if( f ) e |= bit; else e &= ~bit; return f; }
   void maybeThrow(int f) { if( f == F_THROW_INT ) { threw = true; throw 42; } if( f == F_THROW_STD ) { threw = true; throw std::runtime_error("user exception"); } }
   static double poison(int f) { return f == F_INF ? std::numeric_limits<double>::infinity() : std::numeric_limits<double>::quiet_NaN(); }

   bool get_nlp_info(Index& n, Index& m, Index& nj, Index& nh, IndexStyleEnum& st) override {
      nInfo++;
      if( fin.count ) bad("info-after-final", "get_nlp_info after final");
      if( refuseInfo ) return false;
      n = p->n; m = p->m; nj = (Index) p->jac.size(); nh = (Index) p->hes.size(); st = p->fortran ? FORTRAN_STYLE : C_STYLE;
      return true;
   }
   bool get_bounds_info(Index n, Number* xl, Number* xu, Index m, Number* gl, Number* gu) override {
      nBounds++;
      if( !nInfo ) bad("bounds-before-info", "get_bounds_info before get_nlp_info");
      if( n != p->n || m != p->m ) { bad("bounds-size", fmt("get_bounds_info n=%d m=%d", (int) n, (int) m)); return false; }
      if( refuseBounds ) return false;
      std::copy(p->xl.begin(), p->xl.end(), xl); std::copy(p->xu.begin(), p->xu.end(), xu);
      std::copy(p->gl.begin(), p->gl.end(), gl); std::copy(p->gu.begin(), p->gu.end(), gu);
      return true;
   }
   bool get_scaling_parameters(Number& os, bool& ux, Index n, Number* xs, bool& ug, Index m, Number* gs) override {
      nScal++;
      if( n != p->n || m != p->m ) bad("scaling-size", fmt("get_scaling_parameters n=%d m=%d", (int) n, (int) m));
      if( cfg->s("nlp_scaling_method", "gradient-based") != "user-scaling" ) bad("scaling-unrequested", "get_scaling_parameters called without user-scaling");
      if( refuseScaling ) return false;
      os = p->objscal; ux = p->usex; ug = p->useg;
      if( ux ) std::copy(p->xs.begin(), p->xs.end(), xs);
      if( ug ) std::copy(p->gs.begin(), p->gs.end(), gs);
      return true;
   }
   bool get_starting_point(Index n, bool ix, Number* x, bool iz, Number* zl, Number* zu, Index m, bool il, Number* lam) override {
      nStart++; sInitX |= ix; sInitZ |= iz; sInitL |= il;
      if( !nBounds && !cfg->get("derivative_test") ) bad("start-before-bounds", "get_starting_point before get_bounds_info");
      if( n != p->n || m != p->m ) bad("start-size", fmt("get_starting_point n=%d m=%d", (int) n, (int) m));
      if( iz && cfg->s("warm_start_init_point", "no") == "no" ) bad("start-z-unrequested", "init_z requested without warm start");
      if( refuseStart ) return false;
      if( (iz || il) && refuseMult ) return false;
      if( ix ) std::copy(p->x0.begin(), p->x0.end(), x);
      if( iz ) { std::copy(p->z0l.begin(), p->z0l.end(), zl); std::copy(p->z0u.begin(), p->z0u.end(), zu); }
      if( il ) std::copy(p->lam0.begin(), p->lam0.end(), lam);
      return true;
   }
   bool eval_f(Index n, const Number* x, bool nx, Number& v) override {
      common('f', n, x, nx); tr('f', {{x, n}});
      int f = inj('f', x); maybeThrow(f);
      v = p->f.val(x); see(v); if( f == F_NAN || f == F_INF ) v = poison(f);
      return f != F_FALSE;
   }
   bool eval_grad_f(Index n, const Number* x, bool nx, Number* gr) override {
      common('g', n, x, nx); tr('g', {{x, n}});
      int f = inj('g', x); maybeThrow(f);
      std::fill(gr, gr + n, 0.); p->f.grad(x, 1., gr);
      if( f == F_NAN || f == F_INF ) gr[calls['g'] % n] = poison(f);
      return f != F_FALSE;
   }
   bool eval_g(Index n, const Number* x, bool nx, Index m, Number* g) override {
      common('c', n, x, nx); tr('c', {{x, n}});
      if( m != p->m ) bad("eval-m", fmt("eval_g m=%d", (int) m));
      int f = inj('c', x); maybeThrow(f);
      for( int i = 0; i < m; ++i ) see(g[i] = p->g[i].val(x));
      if( m && (f == F_NAN || f == F_INF) ) { g[calls['c'] % m] = poison(f); if( poisonAll ) std::fill(g, g + m, poison(f)); }
      return f != F_FALSE;
   }
   bool eval_jac_g(Index n, const Number* x, bool nx, Index m, Index nele, Index* ir, Index* jc, Number* v) override {
      if( m != p->m || nele != (Index) p->jac.size() || n != p->n ) bad("jac-size", fmt("eval_jac_g n=%d m=%d nele=%d", (int) n, (int) m, (int) nele));
      if( fin.count ) bad("eval-after-final", "eval_jac_g called after finalize_solution");
      if( !v ) {
         structJ++;
         if( x && nele ) bad("jac-struct-x", "structure call with x != NULL");
         if( nele && (!ir || !jc) ) { bad("jac-struct-null", "structure call with NULL index arrays"); return false; }
         int b = p->fortran ? 1 : 0;
         for( size_t k = 0; k < p->jac.size(); ++k ) { ir[k] = p->jac[k].i + b; jc[k] = p->jac[k].j + b; }
         return true;
      }
      valJ++;
      if( !structJ && nele ) bad("jac-values-first", "Jacobian values before structure");
      if( ir || jc ) bad("jac-values-index", "values call with index arrays");
      common('j', n, x, nx); tr('j', {{x, n}});
      int f = inj('j', x); maybeThrow(f);
      Vec d; p->J(x, d);
      // entries with weights (duplicates add up to the true value)
      for( size_t k = 0; k < p->jac.size(); ++k ) v[k] = p->jac[k].w == 0 ? 0. : p->jac[k].w * d[(size_t) p->jac[k].i * n + p->jac[k].j];
      if( nele && (f == F_NAN || f == F_INF) ) v[calls['j'] % nele] = poison(f);
      return f != F_FALSE;
   }
   bool eval_h(Index n, const Number* x, bool nx, Number of, Index m, const Number* lam, bool nl, Index nele, Index* ir, Index* jc, Number* v) override {
      if( m != p->m || nele != (Index) p->hes.size() || n != p->n ) bad("hess-size", fmt("eval_h n=%d m=%d nele=%d", (int) n, (int) m, (int) nele));
      if( fin.count ) bad("eval-after-final", "eval_h called after finalize_solution");
      if( cfg->s("hessian_approximation", "exact") == "limited-memory" && !inDerivTest ) bad("hess-limmem", "eval_h called under limited-memory approximation");
      if( !v ) {
         structH++;
         if( nele && (!ir || !jc) ) { bad("hess-struct-null", "structure call with NULL index arrays"); return false; }
         if( (x || lam) && nele && (p->n > 0) ) { if( x ) bad("hess-struct-x", "structure call with x != NULL"); }
         int b = p->fortran ? 1 : 0;
         for( size_t k = 0; k < p->hes.size(); ++k ) { int i = p->hes[k].i, j = p->hes[k].j; if( p->upper ) std::swap(i, j); ir[k] = i + b; jc[k] = j + b; }
         return true;
      }
      valH++;
      if( !structH && nele ) bad("hess-values-first", "Hessian values before structure");
      if( ir || jc ) bad("hess-values-index", "values call with index arrays");
      common('h', n, x, nx); hobj.insert(of); tr('h', {{x, n}, {lam, m}}, {of});
      if( m && !lam ) { bad("hess-nolam", "lambda == NULL"); return false; }
      Vec lv(lam, lam + m);
      if( !nl && !(haveLam && lv == lastLam) ) bad("new_lambda-false-new", "new_lambda=false but lambda differs from the previous call's");
      lastLam = lv; haveLam = true;
      for( int i = 0; i < m; ++i ) if( !std::isfinite(lam[i]) ) { bad("hess-lam-nonfinite", "non-finite lambda"); break; }
      int f = inj('h', x); maybeThrow(f);
      Vec H; p->H(x, of, lam, H);
      for( size_t k = 0; k < p->hes.size(); ++k ) v[k] = p->hes[k].w == 0 ? 0. : p->hes[k].w * H[(size_t) p->hes[k].i * n + p->hes[k].j];
      if( nele && (f == F_NAN || f == F_INF) ) v[calls['h'] % nele] = poison(f);
      return f != F_FALSE;
   }
   Index get_number_of_nonlinear_variables() override {
      if( !giveNonlin ) return -1;
      std::set<int> s; p->f.nonlinvars(s); for( auto& q : p->g ) q.nonlinvars(s);
      return (Index) s.size();
   }
   bool get_list_of_nonlinear_variables(Index k, Index* pos) override {
      std::set<int> s; p->f.nonlinvars(s); for( auto& q : p->g ) q.nonlinvars(s);
      if( (int) s.size() != k ) bad("nonlin-size", "get_list_of_nonlinear_variables size");
      int t = 0; for( int j : s ) pos[t++] = j + (p->fortran ? 1 : 0);
      return true;
   }
   bool get_constraints_linearity(Index m, LinearityType* t) override { if( !giveLinearity ) return false; for( int i = 0; i < m; ++i ) t[i] = p->g[i].linear() ? LINEAR : NON_LINEAR; return true; }
   bool intermediate_callback(Ipopt::AlgorithmMode mode, Index iter, Number obj, Number ipr, Number idu, Number mu, Number dn, Number reg, Number ad, Number ap, Index ls,
                              const Ipopt::IpoptData* d, Ipopt::IpoptCalculatedQuantities* cq) override {
      nCB++; began = true;
      if( fin.count ) bad("callback-after-final", "intermediate_callback after finalize_solution");
      tr('i', {}, {(double) mode, (double) iter, obj, ipr, idu, mu, dn, reg, ad, ap, (double) ls});
      IterRec r{(int) mode, (int) iter, obj, ipr, idu, mu, dn, reg, ad, ap, (int) ls, {}, {}, {}, {}, {}, false};
      if( wantIter ) {
         r.x.resize(p->n); r.zl.resize(p->n); r.zu.resize(p->n); r.g.resize(p->m); r.lam.resize(p->m);
         r.ok = get_curr_iterate(d, cq, false, p->n, r.x.data(), r.zl.data(), r.zu.data(), p->m, r.g.data(), r.lam.data());
      }
      bool go = true;
      if( onIter ) go = onIter(*this, r, d, cq);
      last = r; lastIter = iter;
      if( keepIters ) iters.push_back(r);
      if( stopAt >= 0 && iter >= stopAt ) go = false;
      return go;
   }
   void finalize_solution(SolverReturn st, Index n, const Number* x, const Number* zl, const Number* zu, Index m, const Number* g, const Number* lam, Number obj,
                          const Ipopt::IpoptData* d, Ipopt::IpoptCalculatedQuantities* cq) override {
      fin.count++; fin.status = st; fin.obj = obj;
      if( fin.count > 1 ) bad("final-twice", "finalize_solution called twice in one solve");
      if( n != p->n || m != p->m ) { bad("final-size", fmt("finalize_solution n=%d m=%d", (int) n, (int) m)); return; }
      if( (n && (!x || !zl || !zu)) || (m && (!g || !lam)) ) { bad("final-null", "finalize_solution with NULL arrays"); return; }
      fin.x.assign(x, x + n); fin.zl.assign(zl, zl + n); fin.zu.assign(zu, zu + n); fin.g.assign(g, g + m); fin.lam.assign(lam, lam + m);
      fin.havecq = d && cq;
      tr('F', {{x, n}, {zl, n}, {zu, n}, {g, m}, {lam, m}}, {obj, (double) st});
      if( onFinal ) onFinal(*this, d, cq);
   }
   void finalize_metadata(Index, const StringMetaDataMapType&, const IntegerMetaDataMapType&, const NumericMetaDataMapType&, Index, const StringMetaDataMapType&, const IntegerMetaDataMapType&, const NumericMetaDataMapType&) override {
      nFinalMeta++;
      if( fin.count ) bad("meta-after-final", "finalize_metadata after finalize_solution");
   }
};

inline SmartPtr<IpoptApplication> newApp(const Config& c, int print_level = 0) {
   SmartPtr<IpoptApplication> app = new IpoptApplication(getenv("MON_PRINT") != NULL);
   app->Options()->SetIntegerValue("print_level", getenv("MON_PRINT") ? atoi(getenv("MON_PRINT")) : print_level);
   app->Options()->SetStringValue("sb", "yes");
   if( !c.apply(*app->Options()) ) { out().viol("", "option-refused", "documented option setting refused: " + c.str()); }
   return app;
}
struct Solve { ApplicationReturnStatus ret = Ipopt::Internal_Error; SmartPtr<MonTNLP> t; SmartPtr<IpoptApplication> app; };
inline Solve solve(const Nlp& p, const Config& c, const std::function<void(MonTNLP&)>& setup = nullptr) {
   Solve s; s.t = new MonTNLP(p, c);
   if( setup ) setup(*s.t);
   s.app = newApp(c);
   ApplicationReturnStatus st = s.app->Initialize("");
   if( st != Ipopt::Solve_Succeeded ) { s.ret = st; return s; }
   s.ret = s.app->OptimizeTNLP(SmartPtr<Ipopt::TNLP>(GetRawPtr(s.t)));
   return s;
}
inline bool isSuccess(ApplicationReturnStatus r) { return r == Ipopt::Solve_Succeeded || r == Ipopt::Solved_To_Acceptable_Level || r == Ipopt::Feasible_Point_Found; }

// ---------------------------------------------------------------- random options
struct CfgOpt { bool limmem = true, ls = true, init = true, mehrotra = false, rare = true, scal = true, fixedvar = true; };
inline Config randConfig(Rng& r, const CfgOpt& o = CfgOpt()) {
   Config c;
   if( r.chance(0.5) ) { c.S("mu_strategy", "adaptive");
      if( r.chance(0.6) ) c.S("mu_oracle", r.pick({"quality-function", "loqo", "probing"}));
      if( r.chance(0.4) ) c.S("adaptive_mu_globalization", r.pick({"obj-constr-filter", "kkt-error", "never-monotone-mode"}));
      if( r.chance(0.2) ) c.S("fixed_mu_oracle", r.pick({"average_compl", "quality-function", "loqo", "probing"}));
      if( r.chance(0.1) ) c.S("quality_function_norm_type", r.pick({"1-norm", "2-norm-squared", "max-norm", "2-norm"}));
      if( r.chance(0.1) ) c.S("quality_function_centrality", r.pick({"none", "log", "reciprocal", "cubed-reciprocal"}));
      if( r.chance(0.1) ) c.S("quality_function_balancing_term", r.pick({"none", "cubic"}));
      if( r.chance(0.1) ) c.S("adaptive_mu_kkt_norm_type", r.pick({"1-norm", "2-norm-squared", "max-norm", "2-norm"}));
   }
   else { if( r.chance(0.3) ) c.N("mu_init", r.pickd({1e-3, 1, 0.01})); if( r.chance(0.15) ) c.S("mu_allow_fast_monotone_decrease", "no"); if( r.chance(0.2) ) c.N("mu_linear_decrease_factor", r.uni(0.1, 0.8)); }
   if( o.ls && r.chance(0.15) ) c.S("line_search_method", r.pick({"cg-penalty", "penalty"}));
   if( r.chance(0.3) ) c.S("alpha_for_y", r.pick({"primal", "bound-mult", "min", "max", "full", "min-dual-infeas", "safer-min-dual-infeas", "primal-and-full", "dual-and-full", "acceptor"}));
   if( o.scal && r.chance(0.3) ) c.S("nlp_scaling_method", r.pick({"none", "gradient-based"}));
   if( o.scal && r.chance(0.15) ) c.N("nlp_scaling_max_gradient", r.pickd({0.5, 1, 10, 1000}));
   if( o.scal && r.chance(0.1) ) c.N("obj_scaling_factor", r.pickd({0.1, 10, 3}));
   if( o.fixedvar && r.chance(0.4) ) c.S("fixed_variable_treatment", r.pick({"make_parameter", "make_parameter_nodual", "make_constraint", "relax_bounds"}));
   if( r.chance(0.2) ) c.N("bound_relax_factor", c.s("fixed_variable_treatment", "") == "relax_bounds" ? r.pickd({1e-8, 1e-6}) : r.pickd({0, 1e-10, 1e-6}));
   if( r.chance(0.15) ) c.S("honor_original_bounds", "yes");
   if( o.limmem && r.chance(0.2) ) { c.S("hessian_approximation", "limited-memory");
      if( r.chance(0.3) ) c.S("limited_memory_update_type", r.pick({"bfgs", "sr1"}));
      if( r.chance(0.3) ) c.I("limited_memory_max_history", r.picki({0, 1, 2, 10}));
      if( r.chance(0.3) ) c.S("limited_memory_initialization", r.pick({"scalar1", "scalar2", "scalar3", "scalar4", "constant"}));
      if( r.chance(0.3) ) c.S("limited_memory_aug_solver", r.pick({"sherman-morrison", "extended"}));
      if( r.chance(0.2) ) c.S("limited_memory_special_for_resto", "yes");
      if( r.chance(0.2) ) c.S("hessian_approximation_space", "all-variables");
   }
   if( r.chance(0.1) ) c.S("linear_system_scaling", r.pick({"none", "slack-based"}));
   if( r.chance(0.1) ) c.S("linear_scaling_on_demand", r.pick({"yes", "no"}));
   if( o.init ) {
      if( r.chance(0.1) ) c.N("bound_push", r.pickd({1e-4, 0.1, 1e-8}));
      if( r.chance(0.1) ) c.N("bound_frac", r.pickd({1e-4, 0.1, 0.4}));
      if( r.chance(0.1) ) c.N("slack_bound_push", r.pickd({1e-4, 0.1}));
      if( r.chance(0.1) ) c.S("bound_mult_init_method", "mu-based");
      if( r.chance(0.1) ) c.N("bound_mult_init_val", r.pickd({0.1, 10}));
      if( r.chance(0.1) ) c.S("least_square_init_primal", "yes");
      if( r.chance(0.1) ) c.S("least_square_init_duals", "yes");
      if( r.chance(0.1) ) c.N("constr_mult_init_max", r.pickd({0, 1e5}));
   }
   if( o.rare ) {
      if( r.chance(0.06) ) c.S("recalc_y", "yes");
      if( r.chance(0.06) ) c.I("max_soc", r.picki({0, 1, 8}));
      if( r.chance(0.06) ) c.I("soc_method", 1);
      if( r.chance(0.06) ) c.S("expect_infeasible_problem", "yes");
      if( r.chance(0.06) ) c.S("start_with_resto", "yes");
      if( r.chance(0.06) ) c.S("perturb_always_cd", "yes");
      if( r.chance(0.06) ) c.I("watchdog_shortened_iter_trigger", r.picki({0, 1, 3}));
      if( r.chance(0.06) ) c.S("skip_corr_if_neg_curv", "no");
      if( r.chance(0.06) ) c.S("corrector_type", r.pick({"affine", "primal-dual"}));
      if( r.chance(0.06) ) c.N("kappa_sigma", r.pickd({10, 1e4, 1e8}));
      if( r.chance(0.06) ) c.N("kappa_d", r.pickd({0, 1e-3}));
      if( r.chance(0.06) ) c.N("tau_min", r.pickd({0.9, 0.999}));
      if( r.chance(0.05) ) c.S("check_derivatives_for_naninf", "yes");
      if( r.chance(0.05) ) c.S("accept_every_trial_step", "yes");
      if( r.chance(0.05) ) c.I("mumps_permuting_scaling", r.picki({0, 5, 7}));
      if( r.chance(0.05) ) c.I("mumps_pivot_order", r.picki({0, 2, 7}));
      if( r.chance(0.05) ) c.I("mumps_scaling", r.picki({0, 7, 77}));
      if( r.chance(0.05) ) c.I("min_refinement_steps", r.picki({0, 3}));
      if( r.chance(0.05) ) c.S("fast_step_computation", "yes");
      if( r.chance(0.05) ) c.S("magic_steps", "yes");
   }
   // known finding KF-SLACKSCALE: slack-based scaling reads slacks that are not set yet when a linear system is solved during initialization
   if( c.s("linear_system_scaling", "") == "slack-based" && (c.get("least_square_init_primal") || c.get("least_square_init_duals")) ) c.rm("linear_system_scaling");
   if( o.mehrotra && r.chance(0.3) ) { c = Config(); c.S("mehrotra_algorithm", "yes"); }
   return c;
}
} // namespace mon
