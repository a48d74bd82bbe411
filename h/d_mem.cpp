// C10: workloads for the memory checkers: every registered option at random valid values, all print levels, unusual orders of calls,
// callbacks that refuse or throw at every place, results read after everything else is gone. The verdict is the sanitizers' (and the leak checker's).
#include "tnlp.hpp"
#include "IpRegOptions.hpp"
#include "IpStdCInterface.h"
#include <sstream>
#include <fstream>
#include <unistd.h>
using namespace mon;
using namespace Ipopt;
static std::string scratch = "/tmp";
static std::string randSetting(Rng& r, IpoptApplication& app, RegisteredOption& o) {
   const std::string nm = o.Name(); OptionsList& ol = *app.Options();
   if( o.Type() == OT_Number ) {
      double d = o.DefaultNumber(), v; double u = r.u01();
      if( u < 0.25 ) v = d; else if( u < 0.6 ) v = d * r.pickd({0.1, 0.5, 2, 10, 100}); else if( u < 0.75 && o.HasLower() ) v = o.LowerNumber() + (o.LowerStrict() ? 1e-1 : 0.); else if( u < 0.85 && o.HasUpper() ) v = o.UpperNumber() - (o.UpperStrict() ? 1e-1 : 0.); else v = r.pickd({0, 1e-8, 1e-2, 0.5, 1, 10, 1e3});
      if( !o.IsValidNumberSetting(v) ) return "";
      if( !ol.SetNumericValue(nm, v) ) { out().viol("", "valid-refused", nm + fmt("=%g refused", v)); return ""; }
      return nm + fmt("=%g", v);
   }
   if( o.Type() == OT_Integer ) {
      int d = o.DefaultInteger(), v; v = r.picki({d, d + 1, d - 1, 0, 1, 2, 3, 5, 12}); if( o.HasLower() && r.chance(0.2) ) v = o.LowerInteger(); if( o.HasUpper() && o.UpperInteger() < 1000 && r.chance(0.2) ) v = o.UpperInteger();
      if( nm == "limited_memory_max_history" || nm == "max_soc" || nm == "max_refinement_steps" || nm == "min_refinement_steps" ) v = std::min(v, 12);
      if( !o.IsValidIntegerSetting(v) ) return "";
      if( !ol.SetIntegerValue(nm, v) ) { out().viol("", "valid-refused", nm + fmt("=%d refused", v)); return ""; }
      return nm + fmt("=%d", v);
   }
   if( o.Type() == OT_String ) {
      std::vector<RegisteredOption::string_entry> e = o.GetValidStrings(); std::string v = r.pick(e).value_; if( v == "*" ) v = r.chance(0.5) ? "some text" : "/nonexistent/x";
      if( nm == "output_file" ) v = scratch + "/out.txt"; if( nm == "option_file_name" ) return "";
      if( !ol.SetStringValue(nm, v) ) { out().viol("", "valid-refused", nm + "=" + v + " refused"); return ""; }
      return nm + "=" + v;
   }
   return "";
}
static Nlp anyProb(Rng& r) { Nlp p = genAny(r); p.objscal = r.pickd({1, -1, 10}); p.usex = r.chance(0.5); p.useg = r.chance(0.5); for( int i = 0; i < p.n; ++i ) p.xs.push_back(r.logu(0.1, 10)); for( int i = 0; i < p.m; ++i ) p.gs.push_back(r.logu(0.1, 10)); return p; }
static void c10o(Rng& r, long) {
   Nlp p = anyProb(r); Config c; c.I("max_iter", r.picki({0, 3, 15, 40})); c.N("max_cpu_time", 5);
   SmartPtr<IpoptApplication> app = new IpoptApplication(false); app->Options()->SetIntegerValue("print_level", 0); app->Options()->SetStringValue("sb", "yes");
   std::vector<RegisteredOption*> all; for( auto& e : app->RegOptions()->RegisteredOptionsList() ) all.push_back(GetRawPtr(e.second));
   static const std::set<std::string> skip = {"max_iter", "max_cpu_time", "max_wall_time", "option_file_name", "sb", "print_options_documentation", "print_options_mode"};
   std::string set; int k = r.ri(1, 9); for( int i = 0; i < k; ++i ) { RegisteredOption* o = r.pick(all); if( skip.count(o->Name()) ) continue; std::string s = randSetting(r, *app, *o); if( !s.empty() ) { set += s + " "; out().stat("options_set"); } }
   c.apply(*app->Options());
   if( r.chance(0.3) ) { app->Options()->SetStringValue("output_file", scratch + "/out.txt"); app->Options()->SetIntegerValue("file_print_level", r.chance(0.5) ? 12 : r.ri(0, 11)); }
   // slack-based scaling with least-square initialization is a known crash; reproduced by its own case (mode c10k)
   std::string sm, li; app->Options()->GetStringValue("nlp_scaling_method", sm, ""); { std::string m; app->Options()->GetStringValue("linear_system_scaling", m, ""); app->Options()->GetStringValue("linear_scaling_on_demand", li, ""); std::string a, b; app->Options()->GetStringValue("least_square_init_primal", a, ""); app->Options()->GetStringValue("least_square_init_duals", b, ""); if( m == "slack-based" && (a == "yes" || b == "yes") ) return; }
   SmartPtr<MonTNLP> t = new MonTNLP(p, c); t->contract = false; t->wantIter = r.chance(0.5); t->giveNonlin = r.chance(0.5); t->giveLinearity = r.chance(0.5);
   if( r.chance(0.2) ) { int fk = r.ri(1, 4), fp = r.ri(0, 20); char kk = "fgcjh"[r.ri(0, 4)]; app->Options()->SetStringValue("check_derivatives_for_naninf", "yes"); t->fault = [=](char q, int n, const double*) { return q == kk && n >= fp && (fk != 2 || n == fp) ? fk : 0; }; set += fmt("fault %c%d@%d ", kk, fk, fp); }
   app->RethrowNonIpoptException(r.chance(0.3));
   out().sample(set + "| " + p.descr() + " " + c.str());
   int ret = -999; try { if( app->Initialize("") == Ipopt::Solve_Succeeded ) { ret = app->OptimizeTNLP(SmartPtr<TNLP>(GetRawPtr(t))); out().stat("solves"); if( r.chance(0.2) ) { ret = app->ReOptimizeTNLP(SmartPtr<TNLP>(GetRawPtr(t))); out().stat("solves"); } } else out().stat("init_refused"); } catch( int ) { out().stat("user_exceptions"); } catch( std::exception& ) { out().stat("user_exceptions"); } catch( IpoptException& e ) { out().stat("ipopt_exceptions"); }
   out().stat(fmt("ret%d", ret)); out().sig(hmix(hstr(set), hmix(p.n, p.m)));
}
/// API orders and results read late
static void c10a(Rng& r, long) {
   std::string log; Config c; c.I("max_iter", 30); Nlp p = anyProb(r), p2 = anyProb(r);
   SmartPtr<IpoptApplication> app; SmartPtr<SolveStatistics> st; SmartPtr<IpoptNLP> nlp; SmartPtr<IpoptData> data; SmartPtr<IpoptCalculatedQuantities> cq; SmartPtr<MonTNLP> t; SmartPtr<OptionsList> keepOpt; SmartPtr<Journalist> keepJ; SmartPtr<RegisteredOptions> keepR; SmartPtr<SolveStatistics> keepS; bool good = false;   // good: the kept data belong to a solve that had an iterate
   auto use = [&]() {
      Vec a(50), b(50), cc(50), d(50), e(50);
      if( good && IsValid(data) && IsValid(data->curr()) ) { data->curr()->x()->Nrm2(); data->iter_count(); data->curr_mu(); }
      if( good && IsValid(cq) && IsValid(data) && IsValid(data->curr()) && r.chance(0.7) ) { try { cq->curr_f(); cq->curr_nlp_error(); cq->unscaled_curr_nlp_error(); } catch( IpoptException& ) {} catch( int ) {} catch( std::exception& ) {} }
      if( IsValid(st) ) { st->IterationCount(); Number q1, q2, q3, q4, q5; st->Infeasibilities(q1, q2, q3, q4, q5); st->FinalObjective(); Index i1, i2, i3, i4, i5; st->NumberOfEvaluations(i1, i2, i3, i4, i5); }
   };
   int ops = r.ri(3, 14); if( getenv("MON_V") ) setvbuf(stderr, 0, _IONBF, 0);
   for( int k = 0; k < ops; ++k ) { if( getenv("MON_V") ) fprintf(stderr, "%s\n", log.c_str()); switch( r.ri(0, 13) ) {
      case 0: log += "new "; app = new IpoptApplication(false); app->Options(); if( true ) { app->Options()->SetIntegerValue("print_level", 0); app->Options()->SetStringValue("sb", "yes"); } break;
      case 1: if( IsValid(app) ) { log += "init "; std::stringstream ss(r.chance(0.5) ? "max_iter 7\n# comment\ntol 1e-6\n" : r.chance(0.5) ? "no_such_option 3\n" : "tol abc\n"); try { switch( r.ri(0, 2) ) { case 0: app->Initialize(""); break; case 1: app->Initialize(ss); break; default: { std::string f = scratch + "/o.opt"; std::ofstream(f) << ss.str(); app->Initialize(f); } } } catch( IpoptException& ) { log += "(exc) "; } } break;
      case 2: case 3: case 4: if( IsValid(app) ) {
            log += "solve "; randConfig(r).apply(*app->Options()); { OptionsList& o = *app->Options(); std::string q, a1, b1; o.GetStringValue("linear_system_scaling", q, ""); o.GetStringValue("least_square_init_primal", a1, ""); o.GetStringValue("least_square_init_duals", b1, ""); if( q == "slack-based" && (a1 == "yes" || b1 == "yes") ) o.SetStringValue("linear_system_scaling", "none"); } c.apply(*app->Options()); t = new MonTNLP(r.chance(0.6) ? p : p2, c); t->contract = false;
            t->refuseInfo = r.chance(0.05); t->refuseBounds = r.chance(0.05); t->refuseStart = r.chance(0.05); t->refuseScaling = r.chance(0.05);
            if( r.chance(0.4) ) { int fk = r.ri(1, 5), fp = r.ri(0, 12); char kk = "fgcjh"[r.ri(0, 4)]; app->Options()->SetStringValue("check_derivatives_for_naninf", "yes"); t->fault = [=](char q, int n, const double*) { return q == kk && n >= fp ? fk : 0; }; }
            t->stopAt = r.chance(0.3) ? r.ri(0, 6) : -1; if( r.chance(0.1) ) t->stopAt = -1;
            app->RethrowNonIpoptException(r.chance(0.5));
            try { app->OptimizeTNLP(SmartPtr<TNLP>(GetRawPtr(t))); } catch( int ) {} catch( std::exception& ) {} catch( IpoptException& ) {}
            out().stat("solves"); if( r.chance(0.5) ) { st = app->Statistics(); nlp = app->IpoptNLPObject(); data = app->IpoptDataObject(); cq = app->IpoptCQObject(); good = t->fin.count > 0 && t->began; } } break;
      case 5: if( IsValid(app) && IsValid(t) ) { log += "resolve "; good = false; try { app->ReOptimizeTNLP(SmartPtr<TNLP>(GetRawPtr(t))); } catch( int ) {} catch( std::exception& ) {} catch( IpoptException& e ) { log += "(exc) "; } out().stat("resolves"); } break;
      case 6: log += "use "; use(); break;
      case 7: log += "drop-app "; app = NULL; break;
      case 8: log += "drop-some "; if( r.chance(0.5) ) nlp = NULL; if( r.chance(0.5) ) data = NULL; if( r.chance(0.5) ) cq = NULL; if( r.chance(0.5) ) st = NULL; if( r.chance(0.3) ) t = NULL; break;
      case 9: if( IsValid(app) ) { log += "print-options "; std::string l; app->Options()->PrintList(l); app->Options()->PrintUserOptions(l); app->Options()->SetStringValue("no_such", "x"); std::string v; try { app->Options()->GetStringValue("tol", v, ""); } catch( IpoptException& ) {} } break;
      case 10: if( IsValid(app) ) { log += "output "; app->OpenOutputFile(r.chance(0.2) ? "/nonexistent/x/y" : scratch + "/o.txt", (EJournalLevel) r.ri(0, 12), r.chance(0.5)); } break;
      case 11: if( IsValid(app) ) { log += "clone-app "; SmartPtr<IpoptApplication> q = app->clone(); app = q; } break;
      case 12: if( IsValid(app) ) { log += "keep "; keepOpt = app->Options(); keepJ = app->Jnlst(); keepR = app->RegOptions(); keepS = app->Statistics(); } break;
      default: if( IsValid(keepOpt) ) { log += "use-kept "; std::string l; keepOpt->PrintUserOptions(l); keepOpt->SetNumericValue("tol", 1e-7); if( IsValid(keepJ) ) keepJ->Printf(J_ERROR, J_MAIN, "%s", ""); } break;}
   }
   use();
   out().sig(hstr(log)); out().sample(log);
}
/// C interface: create/solve/free in odd orders
struct CU { const Nlp* p; int calls = 0, failAt = -1; IpoptProblem pr = nullptr; bool query = false; };
static bool cf(ipindex n, ipnumber* x, bool, ipnumber* o, UserDataPtr u) { CU* c = (CU*) u; if( ++c->calls == c->failAt ) return false; *o = c->p->f.val(x); (void) n; return true; }
static bool cgf(ipindex n, ipnumber* x, bool, ipnumber* g, UserDataPtr u) { CU* c = (CU*) u; if( ++c->calls == c->failAt ) return false; std::fill(g, g + n, 0.); c->p->f.grad(x, 1., g); return true; }
static bool cg(ipindex, ipnumber* x, bool, ipindex m, ipnumber* g, UserDataPtr u) { CU* c = (CU*) u; if( ++c->calls == c->failAt ) return false; for( int i = 0; i < m; ++i ) g[i] = c->p->g[i].val(x); return true; }
static bool cj(ipindex n, ipnumber* x, bool, ipindex, ipindex, ipindex* ir, ipindex* jc, ipnumber* v, UserDataPtr u) { CU* c = (CU*) u; const Nlp& p = *c->p; if( !v ) { for( size_t k = 0; k < p.jac.size(); ++k ) { ir[k] = p.jac[k].i + p.fortran; jc[k] = p.jac[k].j + p.fortran; } return true; } if( ++c->calls == c->failAt ) return false; Vec d; p.J(x, d); for( size_t k = 0; k < p.jac.size(); ++k ) v[k] = d[(size_t) p.jac[k].i * n + p.jac[k].j] * p.jac[k].w; return true; }
static bool ch(ipindex n, ipnumber* x, bool, ipnumber of, ipindex, ipnumber* lam, bool, ipindex, ipindex* ir, ipindex* jc, ipnumber* v, UserDataPtr u) { CU* c = (CU*) u; const Nlp& p = *c->p; if( !v ) { for( size_t k = 0; k < p.hes.size(); ++k ) { ir[k] = p.hes[k].i + p.fortran; jc[k] = p.hes[k].j + p.fortran; } return true; } if( ++c->calls == c->failAt ) return false; Vec H; p.H(x, of, lam, H); for( size_t k = 0; k < p.hes.size(); ++k ) v[k] = H[(size_t) p.hes[k].i * n + p.hes[k].j] * p.hes[k].w; return true; }
static bool ci(ipindex, ipindex it, ipnumber, ipnumber, ipnumber, ipnumber, ipnumber, ipnumber, ipnumber, ipnumber, ipindex, UserDataPtr u) { CU* c = (CU*) u; if( c->query ) { const Nlp& p = *c->p; Vec a(p.n), b(p.n), d(p.n), e(p.n), g(p.m), h(p.m); bool x = it % 2; GetIpoptCurrentIterate(c->pr, x, p.n, x ? a.data() : nullptr, b.data(), d.data(), p.m, g.data(), it % 3 ? h.data() : nullptr); GetIpoptCurrentViolations(c->pr, x, p.n, a.data(), nullptr, b.data(), d.data(), e.data(), p.m, g.data(), h.data()); } return ++c->calls != c->failAt; }
static void c10c(Rng& r, long) {
   Nlp p = anyProb(r); CU u; u.p = &p; std::string log;
   Vec xl = p.xl, xu = p.xu, gl = p.gl, gu = p.gu; if( !p.m ) { gl.push_back(0); gu.push_back(0); }
   IpoptProblem pr = CreateIpoptProblem(r.chance(0.05) ? 0 : p.n, xl.data(), xu.data(), p.m, gl.data(), gu.data(), p.jac.size(), p.hes.size(), p.fortran, cf, r.chance(0.03) ? nullptr : cg, cgf, cj, r.chance(0.1) ? nullptr : ch);
   if( !pr ) { out().stat("create_refused"); return; }
   u.pr = pr; u.query = r.chance(0.5); AddIpoptIntOption(pr, (char*) "print_level", 0); AddIpoptStrOption(pr, (char*) "sb", (char*) "yes"); AddIpoptIntOption(pr, (char*) "max_iter", r.picki({0, 5, 40}));
   std::fill(xl.begin(), xl.end(), 7e7); std::fill(xu.begin(), xu.end(), -7e7);   // the interface keeps copies
   if( r.chance(0.2) ) { AddIpoptStrOption(pr, (char*) "no_such_option", (char*) "x"); AddIpoptNumOption(pr, (char*) "tol", -1); }
   if( r.chance(0.3) ) { bool ok = OpenIpoptOutputFile(pr, (char*) (scratch + "/c.txt").c_str(), r.ri(0, 12)); (void) ok; }
   if( r.chance(0.3) ) { Vec xs(p.n, 2.), gs(p.m, 0.5); SetIpoptProblemScaling(pr, r.chance(0.5) ? 2. : -1., r.chance(0.7) ? xs.data() : nullptr, r.chance(0.7) ? gs.data() : nullptr); AddIpoptStrOption(pr, (char*) "nlp_scaling_method", (char*) "user-scaling"); log += "scaled "; }
   if( r.chance(0.6) ) SetIntermediateCallback(pr, ci);
   for( int k = r.ri(0, 3); k > 0; --k ) {
      Vec x = p.x0, g(p.m), mg(p.m, 0.1), zl(p.n, 1.), zu(p.n, 1.); double obj; u.calls = 0; u.failAt = r.chance(0.4) ? r.ri(1, 60) : -1; if( r.chance(0.3) ) AddIpoptStrOption(pr, (char*) "warm_start_init_point", (char*) "yes");
      bool a = r.chance(0.8), b = r.chance(0.8), d = r.chance(0.8), e = r.chance(0.8);
      int ret = IpoptSolve(pr, x.data(), a ? g.data() : nullptr, b ? &obj : nullptr, d ? mg.data() : nullptr, e ? zl.data() : nullptr, e ? zu.data() : nullptr, &u); out().stat("solves"); log += fmt("solve%d ", ret);
   }
   Vec q(p.n), q2(p.m); if( GetIpoptCurrentIterate(pr, false, p.n, q.data(), nullptr, nullptr, p.m, q2.data(), nullptr) ) out().viol("", "late-iterate", "GetIpoptCurrentIterate succeeded outside a solve");
   FreeIpoptProblem(pr); out().sig(hmix(hstr(log), hmix(p.n, p.m)));
}
/// known finding: slack-based scaling together with a least-square initialization reads an iterate that does not exist yet
static void c10k(Rng& r, long) {
   Nlp p = genConvex(r); Config c; c.S("linear_system_scaling", "slack-based"); c.S("least_square_init_primal", "yes"); c.S("linear_scaling_on_demand", "no"); Solve s = solve(p, c, [](MonTNLP& t) { t.contract = false; }); out().stat("known_survived"); (void) s;
}
int main(int argc, char** argv) {
   Args a = parse(argc, argv); scratch = a.scratch;
   if( a.mode == "c10o" ) runCases(a, c10o); else if( a.mode == "c10a" ) runCases(a, c10a); else if( a.mode == "c10c" ) runCases(a, c10c); else if( a.mode == "c10k" ) runCases(a, c10k); else return 7;
   return 0;
}
