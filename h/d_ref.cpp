// C20: reformulations of the problem do not change what the user gets back.
#include "kkt.hpp"
#include "IpTNLPReducer.hpp"
using namespace Ipopt; using namespace mon;

/// the user's problem with variables taken out and with equations fixing variables
struct ViewTNLP : public TNLP {
   SmartPtr<MonTNLP> t; const Nlp& p; std::vector<int> keep, pos, fixrow, jk, hk;
   ViewTNLP(MonTNLP* q, bool drop, bool rows) : t(q), p(*q->p), pos(p.n, -1) {
      for( int j = 0; j < p.n; ++j ) { if( !(drop && p.fixed(j)) ) { pos[j] = (int) keep.size(); keep.push_back(j); } if( rows && p.fixed(j) ) fixrow.push_back(j); }
      for( size_t k = 0; k < p.jac.size(); ++k ) if( pos[p.jac[k].j] >= 0 ) jk.push_back((int) k);
      for( size_t k = 0; k < p.hes.size(); ++k ) if( pos[p.hes[k].i] >= 0 && pos[p.hes[k].j] >= 0 ) hk.push_back((int) k);
   }
   Vec full(const Number* x) const { Vec r(p.n); for( int j = 0; j < p.n; ++j ) r[j] = pos[j] >= 0 ? x[pos[j]] : p.xl[j]; return r; }
   bool get_nlp_info(Index& n, Index& m, Index& nj, Index& nh, IndexStyleEnum& st) override { Index a, b, c, d; t->get_nlp_info(a, b, c, d, st); n = (Index) keep.size(); m = p.m + (Index) fixrow.size(); nj = (Index) (jk.size() + fixrow.size()); nh = (Index) hk.size(); return true; }
   bool get_bounds_info(Index, Number* xl, Number* xu, Index, Number* gl, Number* gu) override {
      Vec a(p.n), b(p.n); t->get_bounds_info(p.n, a.data(), b.data(), p.m, gl, gu);
      for( size_t k = 0; k < keep.size(); ++k ) { xl[k] = a[keep[k]]; xu[k] = b[keep[k]]; if( !fixrow.empty() && p.fixed(keep[k]) ) { xl[k] = -2e19; xu[k] = 2e19; } }
      for( size_t k = 0; k < fixrow.size(); ++k ) gl[p.m + k] = gu[p.m + k] = a[fixrow[k]];
      return true;
   }
   bool get_scaling_parameters(Number& os, bool& ux, Index, Number* xs, bool& ug, Index, Number* gs) override { Vec a(p.n); if( !t->get_scaling_parameters(os, ux, p.n, a.data(), ug, p.m, gs) ) return false; if( ux ) for( size_t k = 0; k < keep.size(); ++k ) xs[k] = a[keep[k]]; if( ug ) for( size_t k = 0; k < fixrow.size(); ++k ) gs[p.m + k] = 1; return true; }
   bool get_starting_point(Index, bool ix, Number* x, bool iz, Number* zl, Number* zu, Index, bool il, Number* lam) override {
      Vec a(p.n), b(p.n), c(p.n); if( !t->get_starting_point(p.n, ix, a.data(), iz || (il && !fixrow.empty()), b.data(), c.data(), p.m, il, lam) ) return false;
      for( size_t k = 0; k < keep.size(); ++k ) { if( ix ) x[k] = a[keep[k]]; if( iz ) { zl[k] = b[keep[k]]; zu[k] = c[keep[k]]; } } if( il ) for( size_t k = 0; k < fixrow.size(); ++k ) lam[p.m + k] = c[fixrow[k]] - b[fixrow[k]];
      return true;
   }
   bool eval_f(Index, const Number* x, bool nx, Number& v) override { Vec f = full(x); return t->eval_f(p.n, f.data(), nx, v); }
   bool eval_grad_f(Index, const Number* x, bool nx, Number* g) override { Vec f = full(x), a(p.n); if( !t->eval_grad_f(p.n, f.data(), nx, a.data()) ) return false; for( size_t k = 0; k < keep.size(); ++k ) g[k] = a[keep[k]]; return true; }
   bool eval_g(Index, const Number* x, bool nx, Index, Number* g) override { Vec f = full(x); if( p.m && !t->eval_g(p.n, f.data(), nx, p.m, g) ) return false; for( size_t k = 0; k < fixrow.size(); ++k ) g[p.m + k] = f[fixrow[k]]; return true; }
   bool eval_jac_g(Index, const Number* x, bool nx, Index, Index, Index* ir, Index* jc, Number* v) override {
      size_t N = p.jac.size(); int o = p.fortran ? 1 : 0;
      if( !v ) { std::vector<Index> a(N), b(N); if( !t->eval_jac_g(p.n, NULL, nx, p.m, (Index) N, a.data(), b.data(), NULL) ) return false; for( size_t k = 0; k < jk.size(); ++k ) { ir[k] = a[jk[k]]; jc[k] = pos[b[jk[k]] - o] + o; } for( size_t k = 0; k < fixrow.size(); ++k ) { ir[jk.size() + k] = p.m + (Index) k + o; jc[jk.size() + k] = pos[fixrow[k]] + o; } return true; }
      Vec f = full(x), a(N); if( N && !t->eval_jac_g(p.n, f.data(), nx, p.m, (Index) N, NULL, NULL, a.data()) ) return false; for( size_t k = 0; k < jk.size(); ++k ) v[k] = a[jk[k]]; for( size_t k = 0; k < fixrow.size(); ++k ) v[jk.size() + k] = 1; return true;
   }
   bool eval_h(Index, const Number* x, bool nx, Number of, Index, const Number* lam, bool nl, Index, Index* ir, Index* jc, Number* v) override {
      size_t N = p.hes.size(); int o = p.fortran ? 1 : 0;
      if( !v ) { std::vector<Index> a(N), b(N); if( !t->eval_h(p.n, NULL, nx, of, p.m, NULL, nl, (Index) N, a.data(), b.data(), NULL) ) return false; for( size_t k = 0; k < hk.size(); ++k ) { ir[k] = pos[a[hk[k]] - o] + o; jc[k] = pos[b[hk[k]] - o] + o; } return true; }
      Vec f = full(x), a(N); if( !t->eval_h(p.n, f.data(), nx, of, p.m, lam, nl, (Index) N, NULL, NULL, a.data()) ) return false; for( size_t k = 0; k < hk.size(); ++k ) v[k] = a[hk[k]]; return true;
   }
   bool intermediate_callback(AlgorithmMode mode, Index iter, Number obj, Number ipr, Number idu, Number mu, Number dn, Number reg, Number ad, Number ap, Index ls, const IpoptData* d, IpoptCalculatedQuantities* cq) override { return t->intermediate_callback(mode, iter, obj, ipr, idu, mu, dn, reg, ad, ap, ls, d, cq); }
   void finalize_solution(SolverReturn st, Index, const Number* x, const Number* zl, const Number* zu, Index, const Number* g, const Number* lam, Number obj, const IpoptData* d, IpoptCalculatedQuantities* cq) override {
      Vec f = full(x), a(p.n, 0.), b(p.n, 0.); for( size_t k = 0; k < keep.size(); ++k ) { a[keep[k]] = zl[k]; b[keep[k]] = zu[k]; }
      for( size_t k = 0; k < fixrow.size(); ++k ) { double y = lam[p.m + k]; a[fixrow[k]] = std::max(0., -y); b[fixrow[k]] = std::max(0., y); }
      t->finalize_solution(st, p.n, f.data(), a.data(), b.data(), p.m, g, lam, obj, d, cq);
   }
};
static void prep(MonTNLP& t) { t.contract = false; t.boundsCheck = false; t.wantIter = false; t.traceOn = true; t.descOn = true; }
static ApplicationReturnStatus go(TNLP* t, const Config& c) { SmartPtr<IpoptApplication> app = newApp(c); ApplicationReturnStatus st = app->Initialize(""); return st != Solve_Succeeded ? st : app->OptimizeTNLP(SmartPtr<TNLP>(t)); }
/// drop events of constraint-free evaluations the user never sees differently
static void cmpTr(const char* key, const MonTNLP& A, const MonTNLP& B, int sa, int sb, const std::string& ctx, const std::string& skip = "") {
   auto filt = [&](const std::vector<std::string>& v) { std::vector<std::string> r; for( auto& s : v ) if( skip.find(s[0]) == std::string::npos ) r.push_back(s); return r; };
   auto a = filt(A.tdesc), b = filt(B.tdesc); out().stat("pairs"); out().stat("events_compared", a.size()); size_t k = 0; while( k < a.size() && k < b.size() && a[k] == b[k] ) ++k;
   if( k < a.size() || k < b.size() ) out().viol("", key, fmt("event %d of %d/%d differs: %s ### %s", (int) k, (int) a.size(), (int) b.size(), k < a.size() ? a[k].substr(0, 400).c_str() : "-", k < b.size() ? b[k].substr(0, 400).c_str() : "-") + ctx);
   else if( sa != sb ) out().viol("", key, fmt("statuses %d and %d", sa, sb) + ctx);
}
static void warm(Rng& r, Nlp& p, Config& c) { if( !r.chance(0.3) ) return; c.S("warm_start_init_point", "yes"); for( auto* v : {&p.z0l, &p.z0u} ) for( double& d : *v ) d = r.logu(0.01, 10); for( double& l : p.lam0 ) l = r.gauss(); }
static void uscale(Rng& r, Nlp& p, Config& c) { if( !r.chance(0.3) ) return; c.S("nlp_scaling_method", "user-scaling"); p.objscal = r.logu(0.1, 10); p.usex = r.chance(0.6); p.useg = r.chance(0.6); p.xs.resize(p.n); p.gs.resize(p.m); for( auto& v : p.xs ) v = r.logu(0.1, 10); for( auto& v : p.gs ) v = r.logu(0.1, 10); }
static std::set<int> some(Rng& r, int n, double pr) { std::set<int> s; for( int i = 0; i < n; ++i ) if( r.chance(pr) ) s.insert(i); return s; }

static void c20p(Rng& r, long) {
   Nlp p = r.chance(0.5) ? genNonconvex(r, 8, 0.3) : genAny(r); if( p.n > 25 ) { out().stat("skipped_large"); return; }
   CfgOpt o; o.fixedvar = false; Config c = randConfig(r, o); c.I("max_iter", r.ri(3, 60)); c.rm("line_search_method"); if( c.brf() == 0 && r.chance(0.5) ) c.rm("bound_relax_factor");
   warm(r, p, c); uscale(r, p, c);
   int w = r.ri(0, 3);
   if( w == 0 ) {   // numbers standing for infinity
      Nlp q = p; Config cb = c; out().sig(hmix(p.sig(), c.sig()) + w);
      double lim = r.pickd({1e19, 1e10, 1e25, 1e7}); double L = -lim * (r.chance(0.5) ? 1 : 10), U = lim * (r.chance(0.5) ? 1 : 3); bool all = true; for( double b : p.x0 ) all = all && std::fabs(b) < 1e6; if( !all ) return;
      for( auto* v : {&p.xl, &p.gl} ) for( double b : *v ) if( Nlp::lo(b) && std::fabs(b) > 1e6 ) return;
      auto rep = [&](Nlp& s, double lo, double up) { for( auto* v : {&s.xl, &s.gl} ) for( double& b : *v ) if( !Nlp::lo(b) ) b = r.chance(0.3) ? lo : r.chance(0.3) ? -std::numeric_limits<double>::infinity() : lo * r.uni(1, 100); for( auto* v : {&s.xu, &s.gu} ) for( double& b : *v ) if( !Nlp::up(b) ) b = r.chance(0.3) ? up : r.chance(0.3) ? std::numeric_limits<double>::infinity() : up * r.uni(1, 100); };
      rep(p, -1e19, 1e19); rep(q, L, U); if( L != -1e19 ) cb.N("nlp_lower_bound_inf", L); if( U != 1e19 ) cb.N("nlp_upper_bound_inf", U);
      SmartPtr<MonTNLP> a = new MonTNLP(p, c), b = new MonTNLP(q, cb); prep(*a); prep(*b); int sa = go(GetRawPtr(a), c), sb = go(GetRawPtr(b), cb); out().sample(p.descr() + " | " + cb.str());
      cmpTr("infinity-numbers", *a, *b, sa, sb, " | " + p.descr() + " | " + cb.str()); out().stat("infinity_pairs"); return;
   }
   if( w == 1 ) {   // reduction wrapper
      std::set<int> gs = some(r, p.m, r.pickd({0, 0.3, 0.6})), ls = some(r, p.n, r.pickd({0, 0.3, 1})), us = some(r, p.n, r.pickd({0, 0.3, 1})), fs = some(r, p.n, r.pickd({0, 0.2}));
      for( int j = 0; j < p.n; ++j ) if( p.fixed(j) ) { if( ls.count(j) != us.count(j) ) { ls.erase(j); us.erase(j); } }
      Nlp q = p; int o1 = p.fortran ? 1 : 0; auto arr = [&](const std::set<int>& s) { std::vector<Index> v; for( int i : s ) v.push_back(i + o1); r.shuffle(v); return v; }; auto ag = arr(gs), al = arr(ls), au = arr(us), af = arr(fs);
      q.g.clear(); q.gl.clear(); q.gu.clear(); q.lam0.clear(); q.gs.clear(); q.jac.clear(); std::vector<int> nr(p.m, -1), old; for( int i = 0; i < p.m; ++i ) if( !gs.count(i) ) { nr[i] = (int) q.g.size(); old.push_back(i); q.g.push_back(p.g[i]); q.gl.push_back(p.gl[i]); q.gu.push_back(p.gu[i]); q.lam0.push_back(p.lam0[i]); if( (int) p.gs.size() == p.m ) q.gs.push_back(p.gs[i]); }
      q.m = (int) q.g.size(); for( auto e : p.jac ) if( nr[e.i] >= 0 ) { e.i = nr[e.i]; q.jac.push_back(e); }
      for( int j : ls ) q.xl[j] = -1e300; for( int j : us ) q.xu[j] = 1e300; for( int j : fs ) q.xl[j] = q.xu[j] = p.x0[j];
      std::string ctx = fmt(" | dropped rows %d lower %d upper %d fixed %d | ", (int) gs.size(), (int) ls.size(), (int) us.size(), (int) fs.size()) + p.descr() + " | " + c.str(); out().sig(hmix(p.sig(), q.sig())); out().sample(ctx);
      SmartPtr<MonTNLP> a = new MonTNLP(p, c), b = new MonTNLP(q, c); prep(*a); prep(*b);
      if( r.chance(0.3) ) a->giveLinearity = b->giveLinearity = true; 
      SmartPtr<TNLP> red = new TNLPReducer(*a, (Index) ag.size(), ag.data(), (Index) al.size(), al.data(), (Index) au.size(), au.data(), (Index) af.size(), af.data());
      int sa = go(GetRawPtr(red), c), sb = go(GetRawPtr(b), c); red = NULL;
      out().stat("reducer_pairs"); if( !gs.empty() ) out().stat("reducer_rows"); if( p.fortran && !gs.empty() ) out().stat("reducer_rows_fortran");
      // the wrapper evaluates the user's constraints once more for the final report
      size_t na = 0, nb = 0; for( auto& s : a->tdesc ) na += s[0] == 'f' || s[0] == 'g' || s[0] == 'i'; for( auto& s : b->tdesc ) nb += s[0] == 'f' || s[0] == 'g' || s[0] == 'i';
      cmpTr("reducer", *a, *b, sa, sb, ctx, gs.empty() ? "cF" : "chF" + std::string(q.m == 0 ? "j" : ""));
      if( a->fin.count != b->fin.count ) { out().viol("", "reducer-final", "finalize_solution calls differ" + ctx); return; } if( !a->fin.count ) return;
      auto& A = a->fin; auto& B = b->fin; bool same = A.x == B.x && A.zl == B.zl && A.zu == B.zu && A.obj == B.obj && A.status == B.status; for( size_t k = 0; k < old.size(); ++k ) same = same && A.lam[old[k]] == B.lam[k]; bool fin = true; for( double v : A.x ) fin = fin && std::isfinite(v);
      if( !same && fin ) out().viol("", "reducer-final", "final report differs from that of the problem reduced by hand" + ctx);
      for( int i : gs ) if( A.lam[i] != 0 ) out().viol("", "reducer-lambda", fmt("multiplier %g of dropped constraint %d", A.lam[i], i) + ctx);
      if( fin && sa >= -13 ) for( int i = 0; i < p.m; ++i ) { double s, v = p.g[i].val(A.x.data(), &s); if( !(std::fabs(A.g[i] - v) <= 1e-12 * s) && std::isfinite(v) ) { out().viol("", "reducer-g", fmt("constraint %d reported as %g, is %g", i, A.g[i], v) + ctx); break; } }
      return;
   }
   if( !p.nfix() || p.nfix() == p.n || p.n - p.nfix() < p.neq() ) { out().stat("no_fixed"); return; }
   for( int i = 0; i < p.n; ++i ) if( p.fixed(i) && std::fabs(p.xl[i]) > 1e8 ) return;
   out().sig(hmix(p.sig(), c.sig()) + w); c.rm("hessian_approximation_space");
   bool drop = w == 2; Config ca = c, cb = c; ca.S("fixed_variable_treatment", drop ? r.chance(0.5) ? "make_parameter" : "make_parameter_nodual" : "make_constraint"); if( r.chance(0.5) ) cb.S("fixed_variable_treatment", r.pick({"make_parameter", "relax_bounds", "make_constraint"}));
   bool duals = drop && ca.s("fixed_variable_treatment", "") == "make_parameter"; std::string ctx = " | " + p.descr() + " | " + ca.str(); out().sample(ctx);
   SmartPtr<MonTNLP> a = new MonTNLP(p, ca), b = new MonTNLP(p, cb); prep(*a); prep(*b); SmartPtr<TNLP> v = new ViewTNLP(GetRawPtr(b), drop, !drop);
   int sa = go(GetRawPtr(a), ca), sb = go(GetRawPtr(v), cb); v = NULL; out().stat(drop ? "parameter_pairs" : "constraint_pairs");
   if( duals ) {   // evaluations for the multipliers of the fixed variables come last
      auto& ta = a->tdesc; while( ta.size() > b->tdesc.size() && ta.size() >= 2 && ta.back()[0] == 'F' && (ta[ta.size() - 2][0] == 'g' || ta[ta.size() - 2][0] == 'j') ) ta.erase(ta.end() - 2);
   }
   cmpTr(drop ? "parameter" : "constraint", *a, *b, sa, sb, ctx, std::string(duals ? "F" : "") + (p.m == 0 ? "cj" : "") + (p.hes.empty() ? "h" : ""));
   if( a->fin.count != b->fin.count ) { out().viol("", "fixed-final", "finalize_solution calls differ" + ctx); return; } if( !a->fin.count ) return;
   auto& A = a->fin; auto& B = b->fin; if( sa == Invalid_Number_Detected || sa <= -12 ) return;
   if( duals ) {
      bool same = A.x == B.x && A.obj == B.obj && A.lam == B.lam && A.g == B.g; for( int j = 0; j < p.n; ++j ) if( !p.fixed(j) ) same = same && A.zl[j] == B.zl[j] && A.zu[j] == B.zu[j]; bool fin = true; for( double q : A.x ) fin = fin && std::fabs(q) < 1e15; for( double q : A.lam ) fin = fin && std::fabs(q) < 1e15; if( !fin ) return;
      if( !same ) { out().viol("", "fixed-final", "final report differs from that of the problem without the fixed variables" + ctx); return; }
      Vec g(p.n, 0.), ga(p.n, 0.); p.f.grad(A.x.data(), 1., g.data(), ga.data()); for( int i = 0; i < p.m; ++i ) p.g[i].grad(A.x.data(), A.lam[i], g.data(), ga.data());
      for( int j = 0; j < p.n; ++j ) if( p.fixed(j) && std::isfinite(g[j]) ) { out().stat("fixed_multipliers"); if( !(std::fabs(A.zl[j] - A.zu[j] - g[j]) <= 1e-11 * ga[j] + 1e-300) || (A.zl[j] != 0 && A.zu[j] != 0) ) { out().viol("", "fixed-multiplier", fmt("multipliers %g and %g of fixed variable %d, gradient of the Lagrangian %g", A.zl[j], A.zu[j], j, g[j]) + ctx); break; } }
   }
}

static void judgeFinal(const Nlp& p, const Config& c, const MonTNLP& t, int st, const std::string& ctx, bool removedRows = false) {
   if( t.fin.count != 1 ) { if( st == Solve_Succeeded ) out().viol("", "no-final", "no final report" + ctx); return; } const FinalRec& F = t.fin; std::string fvt = c.s("fixed_variable_treatment", "make_parameter");
   if( (int) F.x.size() != p.n || st == Invalid_Number_Detected || st <= -12 ) return;
   for( double v : F.x ) if( !(std::fabs(v) < 1e12) ) return;
   out().stat("finals");
   for( int j = 0; j < p.n; ++j ) { if( fixedRemoved(p, c) && p.fixed(j) && F.x[j] != p.xl[j] ) { out().viol("", "fixed-value", fmt("fixed variable %d returned as %.17g instead of %.17g", j, F.x[j], p.xl[j]) + ctx); return; } if( !p.fixed(j) && ((!Nlp::lo(p.xl[j]) && F.zl[j] != 0) || (!Nlp::up(p.xu[j]) && F.zu[j] != 0)) ) { out().viol("", "absent-bound", fmt("multiplier of absent bound of variable %d: %g %g", j, F.zl[j], F.zu[j]) + ctx); return; }
      if( c.s("honor_original_bounds", "no") == "yes" && c.s("replace_bounds", "no") == "no" && !(p.fixed(j) && fvt == "make_constraint") && (F.x[j] < p.xl[j] || F.x[j] > p.xu[j]) ) { out().viol("", "outside", fmt("variable %d = %.17g outside [%.17g,%.17g]", j, F.x[j], p.xl[j], p.xu[j]) + ctx); return; } }
   double hon = c.s("honor_original_bounds", "no") == "yes" ? 1 : 0;
   for( int i = 0; i < p.m; ++i ) { double s, v = p.g[i].val(F.x.data(), &s), slop = 0; if( hon ) { Vec g(p.n, 0.); p.g[i].grad(F.x.data(), 1., g.data()); for( int j = 0; j < p.n; ++j ) slop += 3 * std::fabs(g[j]) * c.relax(F.x[j]); } if( std::isfinite(v) && !(std::fabs(F.g[i] - v) <= 1e-10 * s + slop) ) { out().viol("", "final-g", fmt("constraint %d reported as %.15g, is %.15g", i, F.g[i], v) + ctx); return; } }
   { double s, v = p.f.val(F.x.data(), &s); if( !hon && std::isfinite(v) && !(std::fabs(F.obj - v) <= 1e-10 * s) ) out().viol("", "final-f", fmt("objective reported as %.15g, is %.15g", F.obj, v) + ctx); }
   if( st == Solve_Succeeded && c.s("hessian_approximation", "exact") == "exact" ) {
      KktErr ke; Config cc = c; Tol T = finalTol(c); std::string why;
      if( c.s("replace_bounds", "no") == "yes" ) {   // multipliers of the replaced bounds come from constraints: small wrong signs are within tolerance
         Vec zl = F.zl, zu = F.zu; for( int j = 0; j < p.n; ++j ) { if( zl[j] < 0 && zl[j] > -1e-4 ) zl[j] = 0; if( zu[j] < 0 && zu[j] > -1e-4 ) zu[j] = 0; } T.dual = 1e-4; T.con = 1e-4; T.com = 1e-4; T.tol = 1e-5; why = kktCheck(p, cc, T, expectScaling(p, c), F.x, zl, zu, F.lam, 2, false, &ke);
      }
      else why = kktCheck(p, cc, T, expectScaling(p, c), F.x, F.zl, F.zu, F.lam, removedRows ? 3 : 1.001, false, &ke, t.last.dms);
      out().stat("kkt_checked"); if( !why.empty() ) out().viol("", "optimality", why + ctx);
      if( p.planted && p.convex ) { double d = 0, sc = 1; for( int j = 0; j < p.n; ++j ) { d = std::max(d, std::fabs(F.x[j] - p.xstar[j])); sc = std::max(sc, std::fabs(p.xstar[j])); } out().stat("planted_compared"); if( !(d <= 2e-3 * sc) ) out().viol("", "solution", fmt("returned point differs by %g from the solution of the original problem", d) + ctx); }
   }
}
static void c20f(Rng& r, long) {
   int w = r.ri(0, 2); GenOpt go1; go1.pfix = r.pickd({0.08, 0.3, 0.5});
   Nlp p = w == 0 ? genConvex(r, go1) : r.chance(0.5) ? genConvex(r, go1) : r.chance(0.8) ? genNonconvex(r, 8, 0.2) : genLP(r);
   CfgOpt o; o.rare = false; o.limmem = false; o.ls = false; o.init = r.chance(0.3); Config c = randConfig(r, o); c.I("max_iter", 300); for( const char* k : {"least_square_init_primal"} ) c.rm(k); if( c.s("fixed_variable_treatment", "") == "relax_bounds" && c.brf() == 0 ) c.rm("bound_relax_factor"); 
   if( r.chance(0.3) ) c.S("honor_original_bounds", "yes");
   std::string ctx;
   if( w == 0 ) {   // bounds as constraints
      for( int i = 0; i < p.m; ++i ) if( !p.iseq(i) ) { if( Nlp::lo(p.gl[i]) && Nlp::up(p.gu[i]) ) { if( p.planted && p.lstar[i] < 0 ) p.gu[i] = INFB; else p.gl[i] = -INFB; } if( !Nlp::lo(p.gl[i]) && !Nlp::up(p.gu[i]) ) p.gu[i] = p.g[i].val(p.xstar.data()) + 5; }
      c.S("replace_bounds", "yes"); uscale(r, p, c);
      if( r.chance(0.3) ) { c.S("warm_start_init_point", "yes"); for( auto* v : {&p.z0l, &p.z0u} ) for( double& d : *v ) d = r.logu(0.01, 10); }
      ctx = " | replace | " + p.descr() + " | " + c.str(); out().stat("replaced_bounds");
   }
   else if( w == 1 ) {   // redundant equations
      std::vector<int> eq; for( int i = 0; i < p.m; ++i ) if( p.iseq(i) ) eq.push_back(i); if( eq.empty() ) { out().stat("no_equations"); return; }
      int k = r.ri(0, 2); for( int q = 0; q < k; ++q ) { Func g; double rhs = 0; g.c0 = 0; for( int z = 0; z < r.ri(1, 2); ++z ) { int i = eq[r.ri(0, (int) eq.size() - 1)]; double s = r.pickd({1, -1, 2, 0.5}); g.c0 += s * p.g[i].c0; for( auto& l : p.g[i].lin ) { g.lin[l.first] += s * l.second; } for( auto e : p.g[i].t ) { e.c *= s; g.t.push_back(e); } rhs += s * p.gl[i]; } int at = r.ri(0, p.m); p.g.insert(p.g.begin() + at, g); p.gl.insert(p.gl.begin() + at, rhs); p.gu.insert(p.gu.begin() + at, rhs); p.lam0.insert(p.lam0.begin() + at, 0.); if( !p.lstar.empty() ) p.lstar.insert(p.lstar.begin() + at, 0.); ++p.m; eq.clear(); for( int i = 0; i < p.m; ++i ) if( p.iseq(i) ) eq.push_back(i); }
      p.structure(r); c.S("dependency_detector", "mumps"); if( r.chance(0.5) ) c.S("dependency_detection_with_rhs", "yes"); uscale(r, p, c);
      ctx = fmt(" | dependent %d | ", k) + p.descr() + " | " + c.str(); out().stat("dependency_detection");
   }
   else { ctx = " | plain | " + p.descr() + " | " + c.str(); out().stat("plain"); }
   out().sig(hmix(p.sig(), c.sig())); out().sample(ctx);
   SmartPtr<MonTNLP> t = new MonTNLP(p, c); t->contract = false; t->wantIter = false; double dms = 0; int nc = -1, nx = -1;
   t->onIter = [&](MonTNLP& m, IterRec& q, const IpoptData*, IpoptCalculatedQuantities* cq) { if( q.mode == RegularMode ) { q.dms = dms = cq->curr_d_minus_s()->Amax(); nc = cq->curr_c()->Dim(); nx = 1; } (void) m; return true; };
   SmartPtr<IpoptApplication> app = newApp(c); int st = app->Initialize(""); if( st ) return; bool again = w == 0 && r.chance(0.3), thrown = false;
   try { st = app->OptimizeTNLP(SmartPtr<TNLP>(GetRawPtr(t))); if( again ) { Vec x1 = t->fin.x; int s1 = st; t->fin = FinalRec(); out().stat("reoptimized"); st = app->ReOptimizeTNLP(SmartPtr<TNLP>(GetRawPtr(t))); if( s1 != st || (t->fin.count && x1 != t->fin.x) ) out().viol("", "reoptimize", fmt("statuses %d and %d", s1, st) + ctx); } }
   catch( IpoptException& e ) { thrown = true; out().viol("", "exception", e.Message() + ctx); }
   if( thrown ) return;
   if( w == 1 && nc >= 0 ) {
      int fr = c.s("fixed_variable_treatment", "make_parameter") == "make_constraint" && p.n >= p.neq() ? p.nfix() : 0; int dropped = p.neq() - (nc - fr); if( dropped > 0 ) { out().stat("rows_dropped", dropped); }
      if( dropped < 0 ) out().viol("", "rows", fmt("%d equations, %d in the algorithm", p.neq(), nc) + ctx);
      int z = 0; for( int i = 0; i < p.m; ++i ) if( p.iseq(i) && t->fin.count && t->fin.lam[i] == 0 ) ++z; if( t->fin.count && z < dropped ) out().viol("", "dropped-multiplier", "nonzero multiplier of a dropped equation" + ctx);
   }
   judgeFinal(p, c, *t, st, ctx, w == 1);
   if( st == Invalid_Option && w == 1 ) out().stat("nothing_left");
   out().stat(fmt("status_%d", st).c_str());
}
int main(int argc, char** argv) {
   Args a = parse(argc, argv); if( out().prop.empty() ) out().prop = "C20";
   runCases(a, [&](Rng& r, long i) { if( a.mode == "c20p" ) c20p(r, i); else c20f(r, i); });
   return 0;
}
