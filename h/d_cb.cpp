// C04 callback contract, C05 failing callbacks, C07 reported values
#include "kkt.hpp"
using namespace mon;
using namespace Ipopt;

static void dropKnown(Config& c) {
   if( c.s("line_search_method", "filter") == "cg-penalty" ) c.rm("perturb_always_cd");   // experimental combination, see DESIGN
   if( c.s("alpha_for_y", "") == "acceptor" && c.s("line_search_method", "filter") != "cg-penalty" ) c.rm("alpha_for_y");
}
static void userScaling(Nlp& p, Config& c, Rng& r) {
   c.S("nlp_scaling_method", "user-scaling");
   p.objscal = r.pickd({1, 0.1, 10, 3}); p.usex = r.chance(0.6); p.useg = r.chance(0.6);
   p.xs.resize(p.n); p.gs.resize(p.m);
   for( auto& v : p.xs ) v = r.logu(0.2, 5); for( auto& v : p.gs ) v = r.logu(0.2, 5);
   if( r.chance(0.2) ) p.objscal = -p.objscal;
}
static bool allLinear(const Nlp& p, bool eq) { for( int i = 0; i < p.m; ++i ) if( p.iseq(i) == eq && !p.g[i].linear() ) return false; return true; }

// ---------------------------------------------------------------------------------------------- C04
static void c04(Rng& r, long) {
   Nlp p = genAny(r); if( r.chance(0.15) ) { GenOpt o; o.nonlin = false; p = r.chance(0.5) ? genConvex(r, o) : genLP(r); }
   CfgOpt co; Config c = randConfig(r, co); dropKnown(c);
   c.I("max_iter", r.picki({3, 30, 100}));
   if( r.chance(0.15) && p.m ) c.S("jacobian_approximation", "finite-difference-values");
   if( r.chance(0.15) ) c.S("gradient_approximation", "finite-difference-values");
   if( r.chance(0.15) ) userScaling(p, c, r);
   if( r.chance(0.2) ) { c.S("warm_start_init_point", "yes"); if( r.chance(0.3) ) c.S("warm_start_same_structure", "no"); }
   bool jc = allLinear(p, true), jd = allLinear(p, false), fl = p.f.linear(), hc = jc && jd && p.f.quadratic();
   bool cj = jc && r.chance(0.5), cd = jd && r.chance(0.5), cg = fl && r.chance(0.5), ch = hc && r.chance(0.5);
   if( cj ) c.S("jac_c_constant", "yes"); if( cd ) c.S("jac_d_constant", "yes"); if( cg ) c.S("grad_f_constant", "yes"); if( ch ) c.S("hessian_constant", "yes");
   bool dt = r.chance(0.15); if( dt ) { c.S("derivative_test", r.pick({"first-order", "second-order", "only-second-order"})); if( r.chance(0.3) ) c.I("derivative_test_first_index", r.ri(-2, p.n + p.m)); }
   bool lm = c.s("hessian_approximation", "exact") == "limited-memory";
   bool rb = r.chance(0.1); if( rb ) c.S("replace_bounds", "yes");
   if( r.chance(0.1) && p.neq() ) c.S("dependency_detector", "mumps");
   bool want = r.chance(0.5), nonlin = r.chance(0.5), stop = r.chance(0.2);
   Solve s = solve(p, c, [&](MonTNLP& t) {
      t.inDerivTest = dt; t.wantIter = want; t.giveNonlin = nonlin; t.giveLinearity = true; t.boundsCheck = !rb && c.s("honor_original_bounds", "no") == "no" && !c.get("jacobian_approximation") && !c.get("gradient_approximation"); if( stop ) t.stopAt = 2;
      t.onIter = [&](MonTNLP& t, IterRec&, const IpoptData*, IpoptCalculatedQuantities*) { t.inDerivTest = false; return true; }; });
   MonTNLP& t = *s.t; std::string ctx = " | " + p.descr() + " | " + c.str() + fmt("| ret=%d", s.ret);
   out().stat("solves"); out().stat(fmt("ret:%d", s.ret)); out().sig(hmix(p.sig(), c.sig()));
   for( auto& k : t.calls ) out().stat(std::string("eval_") + k.first, k.second);
   out().stat("new_x_false_calls", t.newxTotal - t.newxRedundant); out().stat("final_reports", t.fin.count);
   bool fixedMult = p.nfix() && c.s("fixed_variable_treatment", "make_parameter") == "make_parameter";
   if( lm && !dt && (t.structH || t.valH) ) out().viol("", "hess-limmem", fmt("Hessian callback used %d+%d times under limited-memory", t.structH, t.valH) + ctx);
   if( t.structJ > 1 + dt && !c.get("dependency_detector") && !rb ) out().viol("", "jac-struct-again", fmt("Jacobian structure requested %d times in one solve", t.structJ) + ctx);
   if( t.structH > 1 + dt && !rb ) out().viol("", "hess-struct-again", fmt("Hessian structure requested %d times in one solve", t.structH) + ctx);
   if( t.nScal > 1 ) out().viol("", "scaling-again", fmt("scaling requested %d times", t.nScal) + ctx);
   int mode = t.began;
   if( mode && !dt && !c.get("dependency_detector") ) {
      int extra = fixedMult && (want || true) ? 2 + (want ? t.nCB * 2 : 0) : 0;
      if( cj && cd && !c.get("jacobian_approximation") && t.valJ > 2 + extra ) out().viol("", "jac-constant-reevaluated", fmt("constant Jacobian evaluated %d times", t.valJ) + ctx);
      if( cg && !c.get("gradient_approximation") && t.calls['g'] > 2 + extra ) out().viol("", "grad-constant-reevaluated", fmt("constant gradient evaluated %d times", t.calls['g']) + ctx);
      if( ch && t.valH > (int) t.hobj.size() ) out().viol("", "hess-constant-reevaluated", fmt("constant Hessian evaluated %d times", t.valH) + ctx);
      if( cj && cd ) out().stat("constant_jac_solves"); if( cg ) out().stat("constant_grad_solves"); if( ch && !lm ) out().stat("constant_hess_solves");
      if( c.get("jacobian_approximation") && t.valJ ) out().viol("", "jac-under-findiff", fmt("Jacobian values requested %d times although approximated", t.valJ) + ctx);
      if( c.get("gradient_approximation") && t.calls['g'] && !fixedMult ) out().viol("", "grad-under-findiff", fmt("gradient requested %d times although approximated", t.calls['g']) + ctx);
   }
   if( t.nFinalMeta != t.fin.count ) out().viol("", "final-metadata", fmt("finalize_metadata %d times, finalize_solution %d times", t.nFinalMeta, t.fin.count) + ctx);
   if( t.began && !t.sInitX ) out().viol("", "start-x-not-requested", ctx);
   if( t.began && c.s("warm_start_init_point", "no") == "yes" && (!t.sInitZ || !t.sInitL) ) out().viol("", "start-mult-not-requested", ctx);
   out().sample(p.descr() + " | " + c.str() + fmt(" -> ret %d; %d f, %d grad, %d g, %d jac, %d hess calls judged", s.ret, t.calls['f'], t.calls['g'], t.calls['c'], t.calls['j'], t.calls['h']));
}

// ---------------------------------------------------------------------------------------------- C05
/// TNLP whose failing calls leave garbage; the course of the solve must not depend on it
struct GarbageTNLP : public MonTNLP {
   double garbage; using MonTNLP::MonTNLP;
   GarbageTNLP(const Nlp& p, const Config& c, double g) : MonTNLP(p, c), garbage(g) {}
   bool eval_f(Index n, const Number* x, bool nx, Number& v) override { bool ok = MonTNLP::eval_f(n, x, nx, v); if( !ok ) v = garbage; return ok; }
   bool eval_grad_f(Index n, const Number* x, bool nx, Number* g) override { bool ok = MonTNLP::eval_grad_f(n, x, nx, g); if( !ok ) for( int i = 0; i < n; ++i ) g[i] = garbage * (i + 1); return ok; }
   bool eval_g(Index n, const Number* x, bool nx, Index m, Number* g) override { bool ok = MonTNLP::eval_g(n, x, nx, m, g); if( !ok ) for( int i = 0; i < m; ++i ) g[i] = garbage * (i + 1); return ok; }
   bool eval_jac_g(Index n, const Number* x, bool nx, Index m, Index ne, Index* ir, Index* jc, Number* v) override { bool ok = MonTNLP::eval_jac_g(n, x, nx, m, ne, ir, jc, v); if( !ok && v ) for( int i = 0; i < ne; ++i ) v[i] = garbage * (i + 1); return ok; }
   bool eval_h(Index n, const Number* x, bool nx, Number of, Index m, const Number* l, bool nl, Index ne, Index* ir, Index* jc, Number* v) override { bool ok = MonTNLP::eval_h(n, x, nx, of, m, l, nl, ne, ir, jc, v); if( !ok && v ) for( int i = 0; i < ne; ++i ) v[i] = garbage * (i + 1); return ok; }
};
struct FaultPlan { char kind = 'f'; int what = F_FALSE; int mode = 0; int at = 0, len = 1; double prob = 0; int var = 0; double thr = 0, side = 1; uint64_t seed = 1;
   std::string str() const { return fmt("fault kind=%c what=%d mode=%d at=%d len=%d prob=%g var=%d thr=%g side=%g", kind, what, mode, at, len, prob, var, thr, side); }
   int operator()(char k, int call, const double* x, int n) const {
      if( mode == 3 ) { if( k != kind && !(kind == '*' && (k == 'f' || k == 'c')) ) return 0; return side * (x[var] - thr) > 0 ? what : 0; }
      if( mode == 2 ) { if( k != kind && kind != '*' ) return 0; uint64_t h = hmix(hmix(seed, k), call); return (h >> 11) * (1.0 / 9007199254740992.0) < prob ? what : 0; }
      if( k != kind ) return 0;
      if( mode == 0 ) return call >= at && call < at + len ? what : 0;
      return call >= at ? what : 0;
   } };
static bool okReturn(ApplicationReturnStatus r) { switch( r ) { case Solve_Succeeded: case Solved_To_Acceptable_Level: case Infeasible_Problem_Detected: case Search_Direction_Becomes_Too_Small: case Diverging_Iterates: case User_Requested_Stop: case Feasible_Point_Found: case Maximum_Iterations_Exceeded: case Restoration_Failed: case Error_In_Step_Computation: case Not_Enough_Degrees_Of_Freedom: case Invalid_Number_Detected: return true; default: return false; } }
static Solve solveFault(const Nlp& p, const Config& c, const FaultPlan& fp, double garbage, bool trace, std::vector<Vec>* failed = nullptr, bool want = true) {
   Solve s; SmartPtr<GarbageTNLP> t = new GarbageTNLP(p, c, garbage); s.t = GetRawPtr(t);
   t->traceOn = trace; t->descOn = trace; t->wantIter = want; t->contract = true; t->keepIters = want;
   t->poisonAll = fp.mode == 1 || fp.mode == 3;
   t->fault = [&p, fp, failed](char k, int call, const double* x) { int f = fp(k, call, x, p.n); if( f && failed && (k == 'f' || k == 'c') ) failed->push_back(Vec(x, x + p.n)); return f; };
   s.app = newApp(c); s.app->RethrowNonIpoptException(false);
   ApplicationReturnStatus st = s.app->Initialize("");
   if( st != Solve_Succeeded ) { s.ret = st; return s; }
   s.ret = s.app->OptimizeTNLP(SmartPtr<TNLP>(GetRawPtr(t)));
   return s;
}
static void c05(Rng& r, long idx) {
   Nlp p; double u = r.u01();
   if( u < 0.45 ) p = genConvex(r); else if( u < 0.75 ) p = genNonconvex(r); else p = genAny(r);
   Config c; bool plain = r.chance(0.4);
   CfgOpt co; if( !plain ) { c = randConfig(r, co); dropKnown(c); c.rm("accept_every_trial_step"); }
   c.I("max_iter", 80);
   if( c.s("line_search_method", "") == "penalty" ) c.I("watchdog_shortened_iter_trigger", 0);   // required by that line search
   if( !plain && r.chance(0.2) ) c.S("check_derivatives_for_naninf", "yes");
   if( !plain && r.chance(0.06) && p.m ) c.S("jacobian_approximation", "finite-difference-values");
   if( !plain && r.chance(0.06) ) c.S("gradient_approximation", "finite-difference-values");
   if( !plain && r.chance(0.1) ) userScaling(p, c, r);
   // where do the calls happen without faults?
   std::vector<uint64_t> segs;
   Solve b = solve(p, c, [&](MonTNLP& t) { t.traceOn = true; t.contract = false; });
   std::vector<char> kinds; for( char k : {'f', 'g', 'c', 'j', 'h'} ) if( b.t->calls[k] ) kinds.push_back(k);
   if( kinds.empty() ) return;
   FaultPlan fp; fp.kind = kinds[r.ri(0, (int) kinds.size() - 1)]; fp.seed = r.u64();
   fp.what = r.picki({F_FALSE, F_FALSE, F_NAN, F_INF});
   if( (fp.kind == 'j' || fp.kind == 'h') && fp.what != F_FALSE && c.s("check_derivatives_for_naninf", "no") == "no" ) c.S("check_derivatives_for_naninf", "yes");
   if( (fp.what == F_NAN || fp.what == F_INF) && ((fp.kind == 'j' && p.jac.empty()) || (fp.kind == 'h' && p.hes.empty()) || (fp.kind == 'c' && !p.m)) ) fp.what = F_FALSE;
   int cnt = b.t->calls[fp.kind];
   int km = idx % 6;
   // without the check, non-finite derivatives are passed to the linear solver, which is documented as unsafe
   if( (c.get("jacobian_approximation") || km == 4) && fp.what != F_FALSE ) c.S("check_derivatives_for_naninf", "yes");
   if( km <= 1 ) { fp.mode = 0; fp.at = r.chance(0.3) ? r.ri(0, std::min(cnt - 1, 2)) : r.ri(0, cnt - 1); fp.len = 1; }
   else if( km == 2 ) { fp.mode = 0; fp.at = r.ri(0, cnt - 1); fp.len = r.ri(2, 5); }
   else if( km == 3 ) { fp.mode = 1; fp.at = r.ri(0, cnt - 1); }
   else if( km == 4 ) { fp.mode = 2; fp.prob = r.pickd({0.02, 0.1, 0.4, 0.9}); if( r.chance(0.4) ) fp.kind = '*'; }
   else { fp.mode = 3; fp.var = r.ri(0, p.n - 1); fp.side = r.sgn(); fp.thr = r.chance(0.7) && !p.xstar.empty() ? p.xstar[fp.var] + fp.side * r.pickd({0.05, 0.3, 1, 0}) : p.x0[fp.var] + fp.side * r.pickd({0.1, 0.5}); if( r.chance(0.5) ) fp.kind = '*'; else if( fp.kind != 'c' ) fp.kind = 'f'; }
   bool throwing = r.chance(0.06); if( throwing ) fp.what = r.chance(0.5) ? F_THROW_INT : F_THROW_STD;
   std::string ctx = " | " + p.descr() + " | " + c.str() + "| " + fp.str();
   std::vector<Vec> failed;
   if( getenv("MON_PRINT") ) fprintf(stderr, "%s\n", ctx.c_str());
   Solve s = solveFault(p, c, fp, 1e3, true, &failed);
   MonTNLP& t = *s.t; ctx += fmt(" | ret=%d", s.ret);
   out().stat("solves"); out().stat(fmt("ret:%d", s.ret)); out().sig(hmix(hmix(p.sig(), c.sig()), hmix(fp.kind, hmix(fp.what, fp.mode))));
   int inj = 0; for( char k : {'f', 'g', 'c', 'j', 'h'} ) inj += t.calls[k] - t.okcalls[k];
   out().stat("faults_injected", inj); if( inj ) out().stat(fmt("faulted_solves_%c_what%d", fp.kind, fp.what));
   // one final report, documented status
   if( throwing && t.threw ) {
      out().stat("user_exceptions");
      if( s.ret != NonIpopt_Exception_Thrown ) out().viol("", "exception-status", "user exception swallowed" + ctx);
      if( t.fin.count > 1 ) out().viol("", "final-count", fmt("%d final reports", t.fin.count) + ctx);
      return;
   }
   if( !okReturn(s.ret) ) {
      bool optc = s.ret == Invalid_Option || s.ret == Unrecoverable_Exception || s.ret == Invalid_Problem_Definition;   // judged against the run without faults
      if( s.ret == Unrecoverable_Exception && c.s("line_search_method", "filter") == "cg-penalty" ) optc = true, out().stat("cg_penalty_no_restoration");   // that line search has no restoration phase; it says so and stops
      else if( !(optc && s.ret == b.ret) ) out().viol("", "status", "undocumented status for a failing evaluation" + ctx);
   }
   if( t.fin.count > 1 || (t.fin.count == 0 && t.began) ) out().viol("", "final-count", fmt("%d final reports", t.fin.count) + ctx);
   // bounded work: after a permanent failure only few more calls
   int total = 0; for( auto& k : t.calls ) total += k.second;
   out().maxstat("calls", total);
   if( total > 80 * 400 ) out().viol("", "unbounded-work", fmt("%d callbacks within 80 iterations", total) + ctx);
   // an iterate that could not be evaluated is never accepted or reported
   if( fp.mode == 3 && (fp.kind == 'f' || fp.kind == '*' || fp.kind == 'c') ) {
      out().stat("domain_solves");
      auto out_of_dom = [&](const Vec& x) { return fp.side * (x[fp.var] - fp.thr) > 0; };
      bool hon = c.s("honor_original_bounds", "no") == "yes";
      if( isSuccess(s.ret) && t.fin.count == 1 && !hon && out_of_dom(t.fin.x) && !(fp.kind == 'c' && !p.m) && !p.fixed(fp.var) ) out().viol("", "success-outside-domain", fmt("final x[%d]=%.17g cannot be evaluated", fp.var, t.fin.x[fp.var]) + ctx);
      for( auto& I : t.iters ) if( I.ok && I.mode == 0 && out_of_dom(I.x) && !(fp.kind == 'c' && !p.m) && inj ) { out().viol("", "iterate-outside-domain", fmt("iterate %d has x[%d]=%.17g, which cannot be evaluated", I.iter, fp.var, I.x[fp.var]) + ctx); break; }
   }
   // success claims stay true
   if( s.ret == Solve_Succeeded && t.fin.count == 1 && !fp.mode && !c.get("jacobian_approximation") && !c.get("gradient_approximation") ) {
      if( !std::isfinite(t.fin.obj) ) out().viol("", "success-nonfinite", ctx);
      double fv = p.f.val(t.fin.x.data());
      if( c.s("honor_original_bounds", "no") == "no" && !(std::fabs(fv - t.fin.obj) <= 1e-9 * (1 + std::fabs(fv))) ) out().viol("", "final-objective", fmt("final objective %.17g but f(x)=%.17g", t.fin.obj, fv) + ctx);
      for( int i = 0; i < p.m; ++i ) { double sc, gv = p.g[i].val(t.fin.x.data(), &sc); if( c.s("honor_original_bounds", "no") == "no" && !(std::fabs(gv - t.fin.g[i]) <= 1e-9 * (1 + sc)) ) { out().viol("", "final-constraint", fmt("final g[%d] %.17g but g(x)=%.17g", i, t.fin.g[i], gv) + ctx); break; } }
      KktErr ke; Scal sc = expectScaling(p, c);
      if( fp.kind != 'g' || fp.at > 0 ) if( fp.kind != 'j' || fp.at > 0 ) { std::string w = kktCheck(p, c, finalTol(c), sc, t.fin.x, t.fin.zl, t.fin.zu, t.fin.lam, 1.01); if( !w.empty() && !p.nfix() ) out().viol("", "success-not-optimal", w + ctx); }
   }
   for( auto& I : t.iters ) if( I.ok ) { bool fin = true; for( double v : I.x ) fin = fin && std::isfinite(v); if( !fin ) { out().viol("", "iterate-nonfinite", fmt("iterate %d", I.iter) + ctx); break; } }
   // failed values are never used: the course does not depend on what the failing call left behind
   if( inj && fp.what == F_FALSE ) {
      double gar = r.pickd({-1e-3, 1e200, 0.5, std::numeric_limits<double>::quiet_NaN()});
      Solve q = solveFault(p, c, fp, gar, true);
      out().stat("garbage_pairs");
      if( q.t->trace != t.trace || q.ret != s.ret ) { size_t k = 0; while( k < t.trace.size() && k < q.t->trace.size() && t.trace[k] == q.t->trace[k] ) ++k; out().viol("", "failed-value-used", fmt("course of the solve depends on values left by a failed evaluation (garbage %g instead of 1e3): ret %d / %d, first difference at callback %d of %d", gar, s.ret, q.ret, (int) k, (int) t.trace.size()) + ctx); }
   }
   // non-finite numbers: which kind must not matter where they are detected
   if( inj && (fp.what == F_NAN || fp.what == F_INF) && (fp.kind == 'f' || fp.kind == 'c') && (fp.mode == 1 || fp.mode == 3) ) {
      FaultPlan f2 = fp; f2.what = F_FALSE;
      Solve q = solveFault(p, c, f2, 7., true);
      out().stat("nonfinite_pairs");
      size_t k = 0; auto& A = t.iters; auto& B = q.t->iters; while( k < A.size() && k < B.size() && A[k].x == B[k].x && A[k].obj == B[k].obj && A[k].mu == B[k].mu ) ++k;
      if( k < A.size() || k < B.size() || q.ret != s.ret ) out().viol("", "nonfinite-not-failure", fmt("a non-finite function value is treated differently from a refused evaluation: ret %d / %d, first different iterate %d of %d/%d", s.ret, q.ret, (int) k, (int) A.size(), (int) B.size()) + ctx);
   }
   // transient failure at a trial point is survived
   if( plain && p.fam == "convex" && p.planted && isSuccess(b.ret) && fp.mode == 0 && fp.len == 1 && (fp.kind == 'f' || fp.kind == 'c') && inj ) {
      // calls before the second iterate belong to the start
      if( fp.at >= 1 ) {
         out().stat("transient");
         if( !failed.empty() && t.began && t.lastIter >= 1 ) {
            if( !isSuccess(s.ret) ) out().viol("", "transient-not-survived", "single failure at a trial point ends the solve" + ctx);
            else {
               double e = 0; for( int j = 0; j < p.n; ++j ) e = std::max(e, std::fabs(t.fin.x[j] - p.xstar[j]) / std::max(1., std::fabs(p.xstar[j])));
               if( e > 1e-4 && s.ret == Solve_Succeeded ) out().viol("", "transient-wrong-solution", fmt("error %g", e) + ctx);
               for( auto& I : t.iters ) if( I.ok && I.mode == 0 && I.x == failed[0] && I.iter > 0 ) out().stat("failed_point_revisited");
            }
         }
      }
   }
   out().sample(p.descr() + " | " + fp.str() + fmt(" -> ret %d, %d faults, %d callbacks", s.ret, inj, total));
}
int main(int argc, char** argv) {
   Args a = parse(argc, argv);
   if( a.mode == "c04" ) runCases(a, c04);
   else if( a.mode == "c05" ) runCases(a, c05);
   else return 7;
   return 0;
}
