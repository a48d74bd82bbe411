// C01 optimality claims, C02 non-optimal outcomes, C03 planted solutions
#include "kkt.hpp"
#include <time.h>
using namespace mon;
using namespace Ipopt;

static void randScaling(Nlp& p, Config& c, Rng& r, bool neg = false) {
   if( r.chance(0.3) ) {
      c.S("nlp_scaling_method", "user-scaling");
      p.objscal = r.pickd({1, 0.1, 10, 3}); p.usex = r.chance(0.5); p.useg = r.chance(0.5);
      p.xs.resize(p.n); p.gs.resize(p.m);
      for( auto& v : p.xs ) v = r.logu(0.2, 5); for( auto& v : p.gs ) v = r.logu(0.2, 5);
      if( neg && r.chance(0.3) ) { p.objscal = -p.objscal; for( auto& l : p.f.lin ) l.second = -l.second; for( auto& e : p.f.t ) e.c = -e.c; p.f.c0 = -p.f.c0; }
   }
}

static void c01(Rng& r, long) {
   Nlp p; double u = r.u01();
   if( u < 0.35 ) p = genConvex(r); else if( u < 0.45 ) { GenOpt o; o.nonlin = false; p = genConvex(r, o); } else if( u < 0.5 ) p = genLP(r); else if( u < 0.85 ) p = genNonconvex(r); else if( u < 0.92 ) p = genDegenerate(r); else if( u < 0.96 ) p = genTrivial(r); else p = genChain(r, r.ri(4, 20));
   CfgOpt co; co.mehrotra = p.convex && !p.f.t.size(); Config c = randConfig(r, co);
   if( c.get("alpha_for_y") && c.s("alpha_for_y", "") == "acceptor" ) c.rm("alpha_for_y");
   c.rm("start_with_resto");
   if( r.chance(0.5) ) { c.rm("nlp_scaling_method"); c.rm("nlp_scaling_max_gradient"); c.rm("obj_scaling_factor"); randScaling(p, c, r, true); }
   // large gradients so that the scaling matters
   if( r.chance(0.3) ) { double k = r.pickd({1e3, 1e-3, 50}); for( auto& l : p.f.lin ) l.second *= k; for( auto& e : p.f.t ) e.c *= k; p.planted = false; }
   bool acc = r.chance(0.3);
   int tight = r.ri(0, 5);
   if( tight == 4 ) ; // defaults
   else {
      c.N("tol", tight == 0 ? r.pickd({1e-9, 1e-8, 1e-6}) : r.pickd({1e-2, 1e-3, 1e-1}));
      c.N("dual_inf_tol", tight == 1 ? r.pickd({1e-8, 1e-7, 1e-6}) : r.pickd({1, 10, 100}));
      c.N("constr_viol_tol", tight == 2 ? r.pickd({1e-9, 1e-8, 1e-6}) : r.pickd({1e-1, 1e-2, 1}));
      c.N("compl_inf_tol", tight == 3 ? r.pickd({1e-8, 1e-7, 1e-5}) : r.pickd({1e-1, 1, 10}));
   }
   if( acc ) {
      int ta = r.ri(0, 4);
      c.N("acceptable_tol", ta == 0 ? 1e-5 : r.pickd({1e-1, 1}));
      c.N("acceptable_dual_inf_tol", ta == 1 ? 1e-4 : 1e10);
      c.N("acceptable_constr_viol_tol", ta == 2 ? 1e-4 : 10);
      c.N("acceptable_compl_inf_tol", ta == 3 ? 1e-4 : 10);
      c.I("acceptable_iter", r.picki({1, 2, 3, 5, 15}));
      if( r.chance(0.4) ) c.N("acceptable_obj_change_tol", r.pickd({1e-3, 1e-5, 1e-1}));
      c.N("tol", 1e-10);
   }
   c.I("max_iter", 400);
   double dms = 0; int callsAtLast = 0; auto total = [](MonTNLP& t) { return t.calls['f'] + t.calls['c'] + t.calls['h']; };
   Solve s = solve(p, c, [&](MonTNLP& t) { t.keepIters = true; t.onFinal = [&](MonTNLP&, const IpoptData*, IpoptCalculatedQuantities* cq) { if( cq ) try { dms = cq->curr_d_minus_s()->Amax(); } catch( IpoptException& ) { } };
      t.onIter = [&](MonTNLP& t, IterRec& q, const IpoptData*, IpoptCalculatedQuantities* cq) { callsAtLast = total(t); if( cq ) try { q.dms = cq->curr_d_minus_s()->Amax(); } catch( IpoptException& ) { } return true; }; });
   int evAfter = total(*s.t) - callsAtLast;
   out().stat(fmt("ret:%d", s.ret));
   if( s.ret != Solve_Succeeded && s.ret != Solved_To_Acceptable_Level && s.ret != Feasible_Point_Found ) return;
   FinalRec& f = s.t->fin;
   if( f.count != 1 ) { out().viol("", "no-final", "success without final report " + p.descr()); return; }
   out().sig(hmix(p.sig(), c.sig()));
   Scal sc = expectScaling(p, c);
   Tol t = s.ret == Solved_To_Acceptable_Level ? accTol(c) : finalTol(c);
   KktErr ke;
   bool square = s.ret == Feasible_Point_Found;
   std::string w = kktCheck(p, c, t, sc, f.x, f.zl, f.zu, f.lam, 1.001, square, &ke, dms);
   if( !w.empty() ) out().viol("", s.ret == Solve_Succeeded ? "kkt" : square ? "feasible-point" : "kkt-acceptable", w + " | ret=" + fmt("%d", s.ret) + " " + p.descr() + " | " + c.str());
   // which clause was binding?
   if( s.ret == Solve_Succeeded ) {
      out().stat("success");
      if( ke.dual > 0.1 * t.dual ) out().stat("binding_dual_inf_tol");
      if( ke.con > 0.1 * t.con ) out().stat("binding_constr_viol_tol");
      if( ke.com > 0.1 * t.com ) out().stat("binding_compl_inf_tol");
      if( std::max(std::max(ke.sdual / ke.sd, ke.scon), ke.scom / ke.sc) > 0.1 * t.tol ) out().stat("binding_tol");
      if( ke.sd > 1 ) out().stat("multiplier_scaling_active");
   }
   else if( s.ret == Solved_To_Acceptable_Level ) {
      out().stat("acceptable");
      int ai = c.i("acceptable_iter", 15);
      auto& I = s.t->iters;
      if( evAfter == 0 && !I.empty() ) {    // ended by the convergence check
         out().stat("acceptable_by_check");
         Config cn = c; cn.rm("honor_original_bounds"); int need = ai; int k = (int) I.size() - 1; int got = 0; std::string why;
         double ot = c.n("acceptable_obj_change_tol", 1e20);
         for( ; k >= 0 && got < need; --k ) {
            if( I[k].mode != RegularMode ) continue;
            why = I[k].ok ? kktCheck(p, cn, t, sc, I[k].x, I[k].zl, I[k].zu, I[k].lam, 1.01, false, nullptr, I[k].dms) : "iterate not available";
            if( why.empty() && k > 0 && I[k - 1].mode == RegularMode && std::fabs(I[k].obj - I[k - 1].obj) * std::fabs(sc.df) / std::max(1., std::fabs(I[k].obj * sc.df)) > ot * 1.01 + 1e-14 ) why = fmt("objective change %g > %g", std::fabs(I[k].obj - I[k - 1].obj), ot);
            if( !why.empty() ) break;
            ++got;
         }
         if( got < need ) out().viol("", "acceptable-not-sustained", fmt("acceptable_iter=%d but only %d consecutive acceptable iterates before stop (%s) of %d | ", ai, got, why.c_str(), (int) I.size()) + p.descr() + " | " + c.str());
      }
   }
   else out().stat("feasible_point");
   if( out().nsamples < 3 ) out().sample(p.descr() + " | " + c.str() + fmt(" -> ret %d, obj %.10g, iterations %d", s.ret, f.obj, s.t->lastIter));
}

// ---------------------------------------------------------------------------------------------- C02
static SolverReturn expectStatus(ApplicationReturnStatus r) {
   switch( r ) {
      case Solve_Succeeded: return SUCCESS;
      case Solved_To_Acceptable_Level: return STOP_AT_ACCEPTABLE_POINT;
      case Infeasible_Problem_Detected: return LOCAL_INFEASIBILITY;
      case Search_Direction_Becomes_Too_Small: return STOP_AT_TINY_STEP;
      case Diverging_Iterates: return DIVERGING_ITERATES;
      case User_Requested_Stop: return USER_REQUESTED_STOP;
      case Feasible_Point_Found: return FEASIBLE_POINT_FOUND;
      case Maximum_Iterations_Exceeded: return MAXITER_EXCEEDED;
      case Restoration_Failed: return RESTORATION_FAILURE;
      case Error_In_Step_Computation: return ERROR_IN_STEP_COMPUTATION;
      case Maximum_CpuTime_Exceeded: return CPUTIME_EXCEEDED;
      case Maximum_WallTime_Exceeded: return WALLTIME_EXCEEDED;
      case Not_Enough_Degrees_Of_Freedom: return TOO_FEW_DEGREES_OF_FREEDOM;
      case Invalid_Number_Detected: return INVALID_NUMBER_DETECTED;
      case Invalid_Option: return INVALID_OPTION;
      case Insufficient_Memory: return OUT_OF_MEMORY;
      default: return UNASSIGNED;
   }
}
/// stationarity of the l1 violation: min over multipliers in the subdifferential (bounded least squares)
static double violStationarity(const Nlp& p, const Config& c, const Vec& x, double small, double& viol) {
   int n = p.n, m = p.m; Vec J; p.J(x.data(), J);
   Vec lo(m), hi(m); viol = 0;
   for( int i = 0; i < m; ++i ) {
      double g = p.g[i].val(x.data()); double dl = Nlp::lo(p.gl[i]) ? p.gl[i] - g : -1e300, du = Nlp::up(p.gu[i]) ? g - p.gu[i] : -1e300;
      viol = std::max(viol, std::max(dl, du));
      // violation term w*max(0,dl,du): derivative -1 / +1 in g
      lo[i] = 0; hi[i] = 0;
      if( dl > small ) lo[i] = hi[i] = -1; else if( du > small ) lo[i] = hi[i] = 1;
      else { if( dl > -small ) lo[i] = -1; if( du > -small ) hi[i] = 1; }
   }
   // bounded least squares min |J'y - z| (active set; columns: rows of J, then -e_j)
   Vec zlo(n), zhi(n);
   for( int j = 0; j < n; ++j ) {
      bool al = Nlp::lo(p.xl[j]) && x[j] - p.xl[j] < small * std::max(1., std::fabs(p.xl[j])) , au = Nlp::up(p.xu[j]) && p.xu[j] - x[j] < small * std::max(1., std::fabs(p.xu[j]));
      zlo[j] = au ? -1e10 : 0; zhi[j] = al ? 1e10 : 0;
      if( p.fixed(j) ) { zlo[j] = -1e10; zhi[j] = 1e10; }
   }
   int N = m + n; Vec L(lo), U(hi); L.insert(L.end(), zlo.begin(), zlo.end()); U.insert(U.end(), zhi.begin(), zhi.end());
   auto col = [&](int k, int j) { return k < m ? J[(size_t) k * n + j] : (k - m == j ? -1. : 0.); };
   Vec v(N); for( int k = 0; k < N; ++k ) v[k] = L[k] <= 0 && U[k] >= 0 ? 0. : (L[k] > 0 ? L[k] : U[k]);
   Vec r(n), y(m), z(n); std::vector<char> fr(N, 0);
   auto resid = [&]() { for( int j = 0; j < n; ++j ) { r[j] = 0; for( int k = 0; k < N; ++k ) r[j] += col(k, j) * v[k]; } };
   resid();
   for( int it = 0; it < 40 * N; ++it ) {
      // free the variable with the most promising gradient
      int best = -1; double bg = 1e-13;
      for( int k = 0; k < N; ++k ) if( !fr[k] && U[k] > L[k] ) {
         double g = 0, nn = 0; for( int j = 0; j < n; ++j ) g += col(k, j) * r[j], nn += col(k, j) * col(k, j);
         if( nn <= 0 ) continue;
         g /= std::sqrt(nn);
         if( (g < 0 && v[k] < U[k]) || (g > 0 && v[k] > L[k]) ) if( std::fabs(g) > bg ) bg = std::fabs(g), best = k;
      }
      if( best < 0 ) break;
      fr[best] = 1;
      for( int inner = 0; inner < 3 * N; ++inner ) {
         std::vector<int> F; for( int k = 0; k < N; ++k ) if( fr[k] ) F.push_back(k);
         int q = (int) F.size(); if( !q ) break;
         // step d on the free set: (A'A + eps) d = -A'r, columns normalised
         Vec sc(q), M((size_t) q * q), d(q);
         for( int a = 0; a < q; ++a ) { double nn = 0; for( int j = 0; j < n; ++j ) nn += col(F[a], j) * col(F[a], j); sc[a] = 1 / std::sqrt(nn); }
         for( int a = 0; a < q; ++a ) { for( int b = 0; b < q; ++b ) { double t = 0; for( int j = 0; j < n; ++j ) t += col(F[a], j) * col(F[b], j); M[a * q + b] = t * sc[a] * sc[b] + (a == b ? 1e-14 : 0); } double t = 0; for( int j = 0; j < n; ++j ) t -= col(F[a], j) * r[j]; d[a] = t * sc[a]; }
         for( int a = 0; a < q; ++a ) {   // Gaussian elimination with pivoting
            int pv = a; for( int b = a + 1; b < q; ++b ) if( std::fabs(M[b * q + a]) > std::fabs(M[pv * q + a]) ) pv = b;
            if( pv != a ) { for( int b = 0; b < q; ++b ) std::swap(M[a * q + b], M[pv * q + b]); std::swap(d[a], d[pv]); }
            double pz = M[a * q + a]; if( pz == 0 ) pz = 1e-14;
            for( int b = a + 1; b < q; ++b ) { double f = M[b * q + a] / pz; if( f != 0 ) { for( int e = a; e < q; ++e ) M[b * q + e] -= f * M[a * q + e]; d[b] -= f * d[a]; } }
         }
         for( int a = q - 1; a >= 0; --a ) { for( int b = a + 1; b < q; ++b ) d[a] -= M[a * q + b] * d[b]; double pz = M[a * q + a]; d[a] /= pz == 0 ? 1e-14 : pz; }
         double al = 1; int hit = -1;
         for( int a = 0; a < q; ++a ) { double st = d[a] * sc[a]; int k = F[a]; if( st > 0 && v[k] + al * st > U[k] ) al = (U[k] - v[k]) / st, hit = a; else if( st < 0 && v[k] + al * st < L[k] ) al = (L[k] - v[k]) / st, hit = a; }
         al = std::max(0., al);
         for( int a = 0; a < q; ++a ) v[F[a]] = std::min(U[F[a]], std::max(L[F[a]], v[F[a]] + al * d[a] * sc[a]));
         resid();
         if( hit < 0 ) break;
         int k = F[hit]; v[k] = d[hit] > 0 ? U[k] : L[k]; fr[k] = 0; resid();
         if( k == best ) break;
      }
   }
   for( int i = 0; i < m; ++i ) y[i] = v[i];
   for( int j = 0; j < n; ++j ) z[j] = v[m + j];
   double s = 0; for( double e : r ) s = std::max(s, std::fabs(e));
   if( getenv("MON_PRINT") ) { for( int i = 0; i < m; ++i ) { fprintf(stderr, "g%d=%.8g [%g,%g] y=%g [%g,%g] J:", i, p.g[i].val(x.data()), p.gl[i], p.gu[i], y[i], lo[i], hi[i]); for( int j = 0; j < n; ++j ) fprintf(stderr, " %.6g", J[i * n + j]); fprintf(stderr, "\n"); } for( int j = 0; j < n; ++j ) fprintf(stderr, "x%d=%.9g [%.9g,%.9g] z %g r %g\n", j, x[j], p.xl[j], p.xu[j], z[j], r[j]); }
   return s;
}
static void checkReport(const Nlp& p, const Config& c, Solve& s) {
   MonTNLP& t = *s.t;
   out().stat(fmt("ret:%d", s.ret)); out().stat("solves");
   std::string ctx = p.descr() + " | " + c.str() + fmt("| ret=%d", s.ret);
   if( t.fin.count > 1 ) out().viol("", "final-count", fmt("%d final reports ", t.fin.count) + ctx);
   if( t.nCB > 0 && t.fin.count != 1 ) out().viol("", "final-count", fmt("%d final reports after %d iterations ", t.fin.count, t.nCB) + ctx);
   if( t.fin.count == 1 ) {
      SolverReturn e = expectStatus(s.ret);
      if( e != UNASSIGNED && t.fin.status != e && !(s.ret == Invalid_Problem_Definition) ) out().viol("", "status-mismatch", fmt("final status %d does not match return code %d ", t.fin.status, s.ret) + ctx);
   }
   int mi = c.i("max_iter", 3000);
   if( t.lastIter > mi ) out().viol("", "maxiter-overrun", fmt("iteration %d reported with max_iter=%d ", t.lastIter, mi) + ctx);
   if( s.ret == Maximum_Iterations_Exceeded && t.lastIter != mi ) out().viol("", "maxiter-early", fmt("iteration limit reported at iteration %d, limit %d ", t.lastIter, mi) + ctx);
   if( s.ret == User_Requested_Stop && t.stopAt < 0 ) out().viol("", "userstop-unrequested", ctx);
   if( t.stopAt >= 0 && t.lastIter >= t.stopAt ) {
      if( s.ret != User_Requested_Stop ) out().viol("", "userstop-ignored", fmt("stop requested at iteration %d ", t.stopAt) + ctx);
      if( t.lastIter > t.stopAt && t.nCB > t.stopAt + 1 && false ) out().viol("", "userstop-late", ctx);
   }
   double dt = c.n("diverging_iterates_tol", 1e20);
   if( s.ret == Diverging_Iterates ) {
      double a = 0; Scal sc = expectScaling(p, c); for( int j = 0; j < p.n; ++j ) a = std::max(a, std::fabs(t.fin.x[j] * sc.dx[j]));
      if( !(a > dt * (1 - 1e-9)) ) out().viol("", "diverging-false", fmt("max|x|=%g, diverging_iterates_tol=%g ", a, dt) + ctx);
   }
   if( (p.infeasible || p.unbounded) && isSuccess(s.ret) && !(p.unbounded && s.ret == Feasible_Point_Found) )
      out().viol("", p.infeasible ? "infeasible-solved" : "unbounded-solved", ctx);
   if( s.ret == Infeasible_Problem_Detected && t.fin.count == 1 ) {
      double viol, st = violStationarity(p, c, t.fin.x, 1e-4, viol);
         for( double sm : {1e-5, 1e-3, 1e-2} ) if( st > 1e-3 ) st = std::min(st, violStationarity(p, c, t.fin.x, sm, viol));
      out().maxstat("infeas_stationarity", st);
      // the violation must be more than the tolerance
      if( viol <= std::min(c.n("tol", 1e-8), c.n("constr_viol_tol", 1e-4)) ) out().viol("", "infeasible-but-feasible", fmt("violation %g ", viol) + ctx);
      else if( viol > 1e-2 && st > 2e-3 ) out().viol("", "infeasible-not-stationary", fmt("violation %g, stationarity residual %g ", viol, st) + ctx);
      else out().stat("infeasible_certified");
   }
}
#include <sys/resource.h>
static double utime() { struct rusage u; getrusage(RUSAGE_SELF, &u); return u.ru_utime.tv_sec + 1e-6 * u.ru_utime.tv_usec; }
static void c02(Rng& r, long idx) {
   int kind = idx % 12; Nlp p; Config c; CfgOpt co; co.scal = false;
   auto base = [&]() { c = randConfig(r, co); c.rm("start_with_resto"); if( c.s("alpha_for_y", "") == "acceptor" ) c.rm("alpha_for_y"); };
   if( kind == 0 || kind == 1 ) {   // iteration limits (all families)
      p = genAny(r); base(); c.I("max_iter", r.ri(0, 12)); if( r.chance(0.3) ) c.N("tol", 1e-14);
      if( r.chance(0.2) ) c.S("start_with_resto", "yes");
      Solve s = solve(p, c); checkReport(p, c, s); out().sig(hmix(p.sig(), c.sig()));
      if( s.ret == Maximum_Iterations_Exceeded ) out().stat("maxiter_exits");
      // without limit the same solve continues beyond
   }
   else if( kind == 2 ) {   // user stop
      p = genAny(r); base(); int k = r.ri(0, 10); c.I("max_iter", 200); if( r.chance(0.2) ) c.S("start_with_resto", "yes");
      int after = 0; bool stopped = false; IterRec at; double f = 0;
      Solve s = solve(p, c, [&](MonTNLP& t) { t.stopAt = k; t.onIter = [&](MonTNLP&, IterRec& q, const IpoptData*, IpoptCalculatedQuantities*) { if( stopped ) ++after; if( q.iter >= k ) { stopped = true; at = q; } return true; }; });
      checkReport(p, c, s); out().sig(hmix(p.sig(), c.sig()));
      if( after ) out().viol("", "userstop-continued", fmt("%d further iterations after the stop request | ", after) + p.descr() + " | " + c.str());
      if( s.ret == User_Requested_Stop ) {
         out().stat("user_stops");
         if( at.iter != k && at.mode == 0 ) out().viol("", "userstop-iter", fmt("stopped at %d, requested at %d", at.iter, k) + p.descr());
         if( s.t->fin.count == 1 && at.ok && at.mode == 0 && c.s("honor_original_bounds", "no") == "no" ) {
            for( int j = 0; j < p.n; ++j ) if( s.t->fin.x[j] != at.x[j] ) { out().viol("", "userstop-point", fmt("final x[%d]=%.17g, iterate at the stop %.17g | ", j, s.t->fin.x[j], at.x[j]) + p.descr() + " | " + c.str()); break; }
         }
      }
      (void) f;
   }
   else if( kind == 3 || kind == 4 || kind == 5 ) {   // infeasible
      p = genInfeasible(r); base(); c.I("max_iter", 300); c.S("nlp_scaling_method", "none"); if( r.chance(0.2) ) c.S("expect_infeasible_problem", "yes");
      if( r.chance(0.15) ) c.S("start_with_resto", "yes");
      if( r.chance(0.2) ) c.N("tol", r.pickd({1e-4, 1e-6}));
      Solve s = solve(p, c); checkReport(p, c, s); out().sig(hmix(p.sig(), c.sig())); out().stat("infeasible_problems");
   }
   else if( kind == 6 ) {   // unbounded
      p = genUnbounded(r); base(); c.I("max_iter", 300); c.N("diverging_iterates_tol", r.pickd({1e20, 1e8, 1e5, 1e12}));
      Solve s = solve(p, c); checkReport(p, c, s); out().sig(hmix(p.sig(), c.sig())); out().stat("unbounded_problems");
      if( s.ret == Infeasible_Problem_Detected ) out().viol("", "unbounded-infeasible", p.descr() + " | " + c.str());
   }
   else if( kind == 7 ) {   // diverging threshold small
      p = r.chance(0.5) ? genConvex(r) : genNonconvex(r); base(); for( auto& v : p.x0 ) v *= 3; double dt = r.pickd({1, 3, 10}); c.N("diverging_iterates_tol", dt); c.I("max_iter", 300); c.S("nlp_scaling_method", "none");
      Solve s = solve(p, c, [&](MonTNLP& t) { t.keepIters = true; }); checkReport(p, c, s); out().sig(hmix(p.sig(), c.sig()));
      bool rem = fixedRemoved(p, c); auto& I = s.t->iters;
      for( size_t k = 0; k + 1 < I.size(); ++k ) if( I[k].mode == 0 && I[k].ok && I[k + 1].mode == 0 ) { double a = 0; for( int j = 0; j < p.n; ++j ) if( !(rem && p.fixed(j)) ) a = std::max(a, std::fabs(I[k].x[j])); if( a > dt * (1 + 1e-9) ) { out().viol("", "diverging-missed", fmt("iterate %d has max|x|=%g > %g but the solve continued | ", I[k].iter, a, dt) + p.descr() + " | " + c.str()); break; } }
      if( s.ret == Diverging_Iterates ) out().stat("diverging_exits");
   }
   else if( kind == 8 ) {   // contradictory bounds
      p = genAny(r); base(); int k = r.ri(0, 1); if( p.m == 0 ) k = 0; double d = r.pickd({1e-7, 1e-3, 1, 5});
      if( k == 0 ) { int j = r.ri(0, p.n - 1); p.xl[j] = p.x0[j] + d; p.xu[j] = p.x0[j]; if( !(p.xl[j] > p.xu[j]) ) return; }
      else { int i = r.ri(0, p.m - 1); double b = r.gauss(); p.gl[i] = b + d; p.gu[i] = b; }
      Solve s = solve(p, c); checkReport(p, c, s); out().sig(hmix(p.sig(), c.sig())); out().stat("contradictory_bounds");
      if( s.ret != Invalid_Problem_Definition ) out().viol("", "contradictory-accepted", fmt("bounds contradict by %g, ret=%d | ", d, s.ret) + p.descr() + " | " + c.str());
      if( s.t->nCB ) out().viol("", "contradictory-iterated", p.descr());
   }
   else if( kind == 9 ) {   // too few degrees of freedom
      p = genNonconvex(r, 6, 0.0); base(); int want = p.n + r.ri(1, 2) - p.neq();
      for( int q = 0; q < want; ++q ) { Func g; sparseLin(g, r, p.n, std::min(p.n, 2)); double v = g.val(p.xstar.data()); p.g.push_back(g); p.gl.push_back(v); p.gu.push_back(v); p.lam0.push_back(0); p.m++; }
      p.structure(r);
      Solve s = solve(p, c); checkReport(p, c, s); out().sig(hmix(p.sig(), c.sig())); out().stat("too_few_dof");
      if( s.ret != Not_Enough_Degrees_Of_Freedom ) out().viol("", "dof-accepted", fmt("%d equations, %d variables, ret=%d | ", p.neq(), p.n, s.ret) + p.descr() + " | " + c.str());
      if( s.t->nCB ) out().viol("", "dof-iterated", p.descr());
   }
   else if( kind == 10 ) {   // refusals and unusable options
      p = genAny(r); base(); int k = r.ri(0, 6); bool opt = false;
      Solve s = solve(p, c, [&](MonTNLP& t) { t.refuseInfo = k == 0; t.refuseBounds = k == 1; t.refuseStart = k == 2; (void) opt; });
      if( k >= 3 ) {
         Config d = c;
         if( k == 3 ) d.S("linear_solver", r.pick({"ma27", "ma57", "ma77", "ma86", "ma97", "pardiso"}));
         if( k == 4 ) d.S("nlp_scaling_method", "equilibration-based");
         if( k == 5 ) { d.S("linear_solver", "ma97"); d.S("hsllib", "/nonexistent/libx.so"); }
         if( k == 6 ) { d.S("linear_system_scaling", "mc19"); d.S("linear_scaling_on_demand", "no"); }
         s = solve(p, d);
         out().stat("unusable_option");
         if( s.ret != Invalid_Option ) out().viol("", "unusable-option", fmt("kind %d ret=%d | ", k, s.ret) + p.descr() + " | " + d.str());
         if( s.t->nCB ) out().viol("", "unusable-option-iterated", fmt("kind %d | ", k) + p.descr() + " | " + d.str());
         checkReport(p, d, s);
      }
      else {
         checkReport(p, c, s); out().stat("refusals");
         if( s.ret >= 0 ) out().viol("", "refusal-solved", fmt("kind %d ret=%d | ", k, s.ret) + p.descr() + " | " + c.str());
         if( s.t->nCB ) out().viol("", "refusal-iterated", fmt("kind %d ret=%d | ", k, s.ret) + p.descr() + " | " + c.str());
      }
      out().sig(hmix(p.sig(), hmix(c.sig(), k)));
   }
   else {   // time limits
      p = genNonconvex(r); base(); bool cpu = r.chance(0.5); int at = r.ri(0, 3);
      c.N(cpu ? "max_cpu_time" : "max_wall_time", 0.02); c.N("tol", 1e-12); c.I("max_iter", 400);
      int seen = -1;
      Solve s = solve(p, c, [&](MonTNLP& t) { t.onIter = [&](MonTNLP&, IterRec& q, const IpoptData*, IpoptCalculatedQuantities*) {
         seen = q.iter;
         if( q.iter == at ) { if( !cpu ) usleep(25000); else { double c0 = utime(); volatile double z = 0; while( utime() - c0 < 0.03 ) for( int q = 0; q < 20000; ++q ) z += 1; } }
         return true; }; });
      checkReport(p, c, s); out().sig(hmix(p.sig(), c.sig()));
      ApplicationReturnStatus want = cpu ? Maximum_CpuTime_Exceeded : Maximum_WallTime_Exceeded;
      if( s.ret == want ) out().stat("time_exits");
      // after the delay was spent at iteration `at`, that very check must end the solve (unless it ended for another reason there)
      if( seen > at ) out().viol("", "time-limit-missed", fmt("%s limit 0.02 s exceeded at iteration %d but iteration %d was started, ret=%d | ", cpu ? "cpu" : "wall", at, seen, s.ret) + p.descr() + " | " + c.str());
   }
   if( out().nsamples < 3 ) out().sample(fmt("kind %d ", kind) + p.descr() + " | " + c.str());
}

// ---------------------------------------------------------------------------------------------- C03
static void compareSol(const Nlp& p, const Config& c, const FinalRec& f, const char* what, double xt, double lt) {
   double ex = 0, el = 0, sx = 1; int wx = -1;
   for( int j = 0; j < p.n; ++j ) { double e = std::fabs(f.x[j] - p.xstar[j]) / std::max(1., std::fabs(p.xstar[j])); if( e > ex ) ex = e, wx = j; }
   (void) sx;
   out().maxstat("xerr", ex);
   if( !(ex <= xt) ) out().viol("", "minimiser", fmt("%s: x[%d]=%.12g, unique minimiser has %.12g (error %g > %g) | ", what, wx, f.x[wx < 0 ? 0 : wx], p.xstar[wx < 0 ? 0 : wx], ex, xt) + p.descr() + " | " + c.str());
   double ef = std::fabs(f.obj - p.fstar) / std::max(1., std::fabs(p.fstar));
   out().maxstat("ferr", ef);
   if( !(ef <= xt * 10) ) out().viol("", "objective", fmt("%s: objective %.12g, minimum %.12g | ", what, f.obj, p.fstar) + p.descr() + " | " + c.str());
   bool nodual = fixedRemoved(p, c) && c.s("fixed_variable_treatment", "") == "make_parameter_nodual";
   std::string w;
   double sl = 1; for( double l : p.lstar ) sl = std::max(sl, std::fabs(l)); for( double l : p.zlstar ) sl = std::max(sl, l); for( double l : p.zustar ) sl = std::max(sl, l);
   for( int i = 0; i < p.m; ++i ) { double e = std::fabs(f.lam[i] - p.lstar[i]) / sl; if( e > el ) { el = e; if( e > lt ) w = fmt("lambda[%d]=%.9g expected %.9g", i, f.lam[i], p.lstar[i]); } }
   for( int j = 0; j < p.n; ++j ) { if( nodual && p.fixed(j) ) continue; double e = std::fabs((f.zl[j] - f.zu[j]) - (p.zlstar[j] - p.zustar[j])) / sl; if( e > el ) { el = e; if( e > lt ) w = fmt("z[%d]=%.9g expected %.9g", j, f.zl[j] - f.zu[j], p.zlstar[j] - p.zustar[j]); } }
   out().maxstat("lerr", el);
   if( !(el <= lt) ) out().viol("", "multipliers", fmt("%s: %s (error %g > %g) | ", what, w.c_str(), el, lt) + p.descr() + " | " + c.str());
}
static void c03(Rng& r, long idx) {
   GenOpt o; o.nonlin = r.chance(0.75); o.nmax = r.chance(0.1) ? 25 : 10;
   Nlp p = r.chance(0.12) ? genLP(r) : genConvex(r, o);
   CfgOpt co; co.ls = r.chance(0.3); co.rare = r.chance(0.5); Config c = randConfig(r, co);
   if( c.s("alpha_for_y", "") == "acceptor" ) c.rm("alpha_for_y");
   for( const char* n : {"start_with_resto", "accept_every_trial_step", "expect_infeasible_problem", "obj_scaling_factor", "kappa_d", "corrector_type", "skip_corr_if_neg_curv", "magic_steps"} ) c.rm(n);
   if( c.s("limited_memory_update_type", "bfgs") == "sr1" ) c.rm("limited_memory_update_type");
   if( c.s("limited_memory_initialization", "scalar1") == "constant" ) c.rm("limited_memory_initialization");
   if( c.i("limited_memory_max_history", 6) < 6 ) c.rm("limited_memory_max_history");
   if( c.s("adaptive_mu_globalization", "") == "never-monotone-mode" ) c.rm("adaptive_mu_globalization");
   if( p.qp && !c.get("hessian_approximation") && r.chance(0.2) ) { Config d; d.S("mehrotra_algorithm", "yes"); c = d; }
   if( r.chance(0.2) ) c.S("jac_c_constant", "yes");
   if( !p.qp ) c.rm("least_square_init_primal");   // may move the start to where exponentials are 1e30
   if( p.qp ) { if( r.chance(0.2) ) c.S("jac_d_constant", "yes"); if( r.chance(0.2) && !c.get("hessian_approximation") ) c.S("hessian_constant", "yes"); }
   // experimental line search + its own regularisation; the extended system has other inertia
   if( c.s("line_search_method", "") == "cg-penalty" ) { c.rm("limited_memory_aug_solver"); c.rm("perturb_always_cd"); }
   if( c.s("line_search_method", "") == "penalty" ) c.I("watchdog_shortened_iter_trigger", 0);   // documented requirement
   randScaling(p, c, r);
   bool lm = c.s("hessian_approximation", "exact") == "limited-memory";
   c.N("tol", 1e-9); c.N("dual_inf_tol", 1e-6); c.N("constr_viol_tol", 1e-7); c.N("compl_inf_tol", 1e-7);
   if( c.brf() > 1e-8 ) c.rm("bound_relax_factor");
   c.I("max_iter", lm ? 3000 : 300);
   Solve s = solve(p, c);
   out().stat(fmt("ret:%d", s.ret)); out().stat("solves"); if( lm ) out().stat("limited_memory"); if( lm && !s.t->lastIter ) out().stat("limited_memory_zero_iter");
   out().sig(hmix(p.sig(), c.sig()));
   out().maxstat("iters", s.t->lastIter);
   bool ok = s.ret == Solve_Succeeded || s.ret == Solved_To_Acceptable_Level;
   if( !ok && lm && s.ret == Maximum_Iterations_Exceeded ) out().stat("limited_memory_unsolved");
   else if( !ok ) out().viol("", "not-solved", fmt("strictly convex problem: ret=%d after %d iterations | ", s.ret, s.t->lastIter) + p.descr() + " | " + c.str());
   else compareSol(p, c, s.t->fin, "base", s.ret == Solve_Succeeded ? 2e-5 : 2e-3, s.ret == Solve_Succeeded ? 2e-4 : 5e-2);
   // same problem in another guise
   if( idx % 3 == 0 ) {
      std::vector<int> pv, pc; Nlp q = p.permuted(r, pv, pc);
      for( auto& v : q.x0 ) v += r.gauss();
      Solve s2 = solve(q, c); out().stat("permuted");
      if( lm && s2.ret == Maximum_Iterations_Exceeded ) out().stat("limited_memory_unsolved");
      else if( s2.ret != Solve_Succeeded && s2.ret != Solved_To_Acceptable_Level ) out().viol("", "not-solved", fmt("permuted: ret=%d | ", s2.ret) + q.descr() + " | " + c.str());
      else compareSol(q, c, s2.t->fin, "permuted", s2.ret == Solve_Succeeded ? 2e-5 : 2e-3, s2.ret == Solve_Succeeded ? 2e-4 : 5e-2);
   }
   if( out().nsamples < 3 ) out().sample(p.descr() + " | " + c.str() + fmt(" -> ret %d in %d iterations, obj %.10g (planted %.10g)", s.ret, s.t->lastIter, s.t->fin.obj, p.fstar));
}
int main(int argc, char** argv) {
   Args a = parse(argc, argv);
   if( a.mode == "c01" ) runCases(a, c01);
   else if( a.mode == "c02" ) runCases(a, c02);
   else if( a.mode == "c03" ) runCases(a, c03);
   else return 7;
   return 0;
}
