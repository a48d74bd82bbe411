// C17 the derivative checker: its report is compared with an independent evaluation of the documented rule on the same callbacks.
#include "tnlp.hpp"
#include "IpJournalist.hpp"
using namespace mon;
using namespace Ipopt;

struct Err { char w; int k; int kind; double a; };     // which array ('g','j','h'), position, kind, size
struct ChkTNLP : public MonTNLP {
   std::vector<Err> errs; Vec ref; int nf = 0; bool haveRef = false;
   ChkTNLP(const Nlp& q, const Config& c) : MonTNLP(q, c) {}
   static double spoil(const Err& e, double v) { return e.kind == 0 ? v * (1 + e.a) : e.kind == 1 ? v + e.a : e.kind == 2 ? -v : e.kind == 3 ? 0. : std::numeric_limits<double>::quiet_NaN(); }
   void spoilAll(char w, double* v, int n) { for( auto& e : errs ) if( e.w == w && e.k < n ) v[e.k] = spoil(e, v[e.k]); }
   bool eval_f(Index n, const Number* x, bool nx, Number& v) override { if( !haveRef ) { haveRef = true; ref.assign(x, x + n); } return MonTNLP::eval_f(n, x, nx, v); }
   bool eval_grad_f(Index n, const Number* x, bool nx, Number* g) override { bool b = MonTNLP::eval_grad_f(n, x, nx, g); spoilAll('g', g, n); return b; }
   bool eval_jac_g(Index n, const Number* x, bool nx, Index m, Index ne, Index* ir, Index* jc, Number* v) override { bool b = MonTNLP::eval_jac_g(n, x, nx, m, ne, ir, jc, v); if( v ) spoilAll('j', v, ne); return b; }
   bool eval_h(Index n, const Number* x, bool nx, Number of, Index m, const Number* l, bool nl, Index ne, Index* ir, Index* jc, Number* v) override { bool b = MonTNLP::eval_h(n, x, nx, of, m, l, nl, ne, ir, jc, v); if( v ) spoilAll('h', v, ne); return b; }
   // the same numbers, without being recorded
   void G(const double* x, Vec& g) { g.assign(p->n, 0.); p->f.grad(x, 1., g.data()); spoilAll('g', g.data(), p->n); }
   void Jv(const double* x, Vec& v) { Vec d; p->J(x, d); v.resize(p->jac.size()); for( size_t k = 0; k < v.size(); ++k ) v[k] = p->jac[k].w == 0 ? 0. : p->jac[k].w * d[(size_t) p->jac[k].i * p->n + p->jac[k].j]; spoilAll('j', v.data(), (int) v.size()); }
   void Hv(const double* x, double of, const double* l, Vec& v) { Vec H; p->H(x, of, l, H); v.resize(p->hes.size()); for( size_t k = 0; k < v.size(); ++k ) v[k] = p->hes[k].w == 0 ? 0. : p->hes[k].w * H[(size_t) p->hes[k].i * p->n + p->hes[k].j]; spoilAll('h', v.data(), (int) v.size()); }
};
struct Tap : public Journal {
   std::string s;
   Tap() : Journal("tap", J_NONE) { SetPrintLevel(J_NLP, J_WARNING); }
protected:
   void PrintImpl(EJournalCategory, EJournalLevel, const char* str) override { s += str; }
   void PrintfImpl(EJournalCategory, EJournalLevel, const char* f, va_list ap) override { char b[4096]; vsnprintf(b, sizeof b, f, ap); s += b; }
   void FlushBufferImpl() override {}
};
struct Line { char kind; int c, i, j; bool star, v; double ex, ap, rel; };
static bool parseLine(const std::string& l, Line& o) {
   char st; int n = 0;
   if( l.size() < 3 ) return false;
   o.star = l[0] == '*'; if( l[0] != '*' && l[0] != ' ' ) return false;
   const char* s = l.c_str() + 1; char v = ' '; o.c = o.i = o.j = 0; (void) st;
   auto tail = [&](const char* t, bool vf) { char* e; o.ex = strtod(t, &e); if( e == t ) return false; t = e; if( vf ) { if( *t != ' ' || !t[1] ) return false; v = t[1]; if( v != ' ' && v != 'v' ) return false; t += 2; } while( *t == ' ' ) ++t; if( *t++ != '~' ) return false; o.ap = strtod(t, &e); if( e == t ) return false; t = e; while( *t == ' ' ) ++t; if( *t++ != '[' ) return false; o.rel = strtod(t, &e); return e != t && *e == ']'; };
   if( sscanf(s, " grad_f[ %d] =%n", &o.i, &n) == 1 && n ) { o.kind = 'g'; if( !tail(s + n, false) ) return false; o.v = true; return true; }
   n = 0; if( sscanf(s, " jac_g [%d,%d] =%n", &o.c, &o.i, &n) == 2 && n ) { o.kind = 'j'; if( !tail(s + n, true) ) return false; o.v = v == 'v'; return true; }
   n = 0; if( sscanf(s, " obj_hess[%d,%d] =%n", &o.i, &o.j, &n) == 2 && n ) { o.kind = 'h'; o.c = -1; if( !tail(s + n, true) ) return false; o.v = v == 'v'; return true; }
   n = 0; if( sscanf(s, " %d-th constr_hess[%d,%d] =%n", &o.c, &o.i, &o.j, &n) == 3 && n ) { o.kind = 'h'; if( !tail(s + n, true) ) return false; o.v = v == 'v'; return true; }
   return false;
}

static void c17(Rng& r, long) {
   Nlp p = genAny(r);
   if( p.n > 12 ) { out().stat("skipped_large"); return; }
   if( r.chance(0.3) ) p.fortran = !p.fortran;
   Config c; c.I("max_iter", r.ri(0, 6));
   std::string test = r.pick({"first-order", "second-order", "only-second-order"}); bool first = test != "only-second-order", second = test != "first-order";
   double tol = r.chance(0.5) ? 1e-4 : r.logu(1e-6, 0.5), pert = r.chance(0.5) ? 1e-8 : r.logu(1e-9, 1e-4), rad = r.chance(0.4) ? 10. : r.pickd({0, 1e-3, 1, 100}); int fi = r.chance(0.6) ? -2 : r.ri(-2, std::max(p.n, p.m) + 1); bool all = r.chance(0.3);
   if( r.chance(0.3) ) c.S("fixed_variable_treatment", r.pick({"make_parameter", "make_constraint", "relax_bounds"}));
   if( r.chance(0.2) ) c.S("hessian_approximation", "limited-memory");
   if( r.chance(0.2) ) c.S("nlp_scaling_method", "none");
   Config d = c; d.S("derivative_test", test); if( tol != 1e-4 || r.chance(0.5) ) d.N("derivative_test_tol", tol); if( pert != 1e-8 || r.chance(0.5) ) d.N("derivative_test_perturbation", pert); if( fi != -2 || r.chance(0.5) ) d.I("derivative_test_first_index", fi);
   if( rad != 10. || r.chance(0.5) ) d.N("point_perturbation_radius", rad); if( all ) d.S("derivative_test_print_all", "yes");
   // planted errors
   std::vector<Err> errs; int ne = r.chance(0.25) ? 0 : r.ri(1, 4);
   for( int t = 0; t < ne; ++t ) {
      char w = "gjh"[r.ri(0, 2)]; int sz = w == 'g' ? p.n : w == 'j' ? (int) p.jac.size() : (int) p.hes.size(); if( !sz ) continue;
      double u = r.u01(); errs.push_back({w, r.ri(0, sz - 1), u < 0.4 ? 0 : u < 0.7 ? 1 : u < 0.85 ? 2 : u < 0.95 ? 3 : 4, r.sgn() * r.logu(tol * 0.1, tol * 1e3 + 1)});
   }
   for( auto& e : errs ) if( e.kind == 4 ) { c.S("check_derivatives_for_naninf", "yes"); d.S("check_derivatives_for_naninf", "yes"); }   // the linear solver need not survive NaN
   if( r.chance(0.2) && !p.jac.empty() ) { p.jac.erase(p.jac.begin() + r.ri(0, (int) p.jac.size() - 1)); out().stat("missing_jac"); errs.clear(); }
   if( r.chance(0.2) && !p.hes.empty() ) { p.hes.erase(p.hes.begin() + r.ri(0, (int) p.hes.size() - 1)); out().stat("missing_hess"); errs.clear(); }
   if( r.chance(0.1) ) p.x0.assign(p.n, r.pickd({0, 1e3, -5}));
   bool fault = r.chance(0.08); int fk = r.ri(0, 4), fat = r.ri(0, 6), fkind = r.pickd({F_FALSE, F_NAN}) ; bool refuse = !fault && r.chance(0.02);
   if( fault && fkind == F_NAN ) { c.S("check_derivatives_for_naninf", "yes"); d.S("check_derivatives_for_naninf", "yes"); }
   auto run = [&](const Config& cf, SmartPtr<ChkTNLP>& t, Tap*& tap) {
      t = new ChkTNLP(p, cf); t->errs = errs; t->traceOn = true; t->contract = false; t->refuseStart = refuse;
      SmartPtr<IpoptApplication> app = newApp(cf); tap = new Tap; app->Jnlst()->AddJournal(SmartPtr<Journal>(tap));
      if( fault && &cf == &d ) { char kk = "fcgjh"[fk]; ChkTNLP* tt = GetRawPtr(t); t->fault = [=](char q, int nr, const double*) -> int { (void) tt; return q == kk && nr == fat ? fkind : 0; }; }
      ApplicationReturnStatus s = app->Initialize(""); if( s == Solve_Succeeded ) s = app->OptimizeTNLP(SmartPtr<TNLP>(GetRawPtr(t)));
      t->fault = nullptr;
      return std::make_pair(s, app);
   };
   SmartPtr<ChkTNLP> a, b; Tap* ta; Tap* tb;
   auto ra = run(d, a, ta);
   std::string ctx = " | " + p.descr() + " | " + d.str();
   for( auto& e : errs ) ctx += fmt("| err %c[%d] kind %d %g ", e.w, e.k, e.kind, e.a);
   out().sig(hmix(p.sig(), d.sig()));
   // report
   std::vector<Line> L; int announced = -1; bool s1 = false, s2 = false;
   { size_t q = 0; const std::string& s = ta->s; while( q < s.size() ) { size_t e = s.find('\n', q); if( e == std::string::npos ) e = s.size(); std::string l = s.substr(q, e - q); q = e + 1; Line x; int k;
      if( l.empty() ) continue;
      if( parseLine(l, x) ) L.push_back(x);
      else if( l == "No errors detected by derivative checker." ) announced = 0;
      else if( sscanf(l.c_str(), "Derivative checker detected %d error(s).", &k) == 1 ) announced = k;
      else if( l.find("Starting derivative checker for first") == 0 ) s1 = true;
      else if( l.find("Starting derivative checker for second") == 0 ) s2 = true;
      else if( l.find(" grad_f[") != std::string::npos || l.find(" jac_g [") != std::string::npos || l.find("_hess[") != std::string::npos ) out().viol("", "unreadable-line", "line of the derivative checker cannot be read: " + l + ctx); } }
   int ib = p.fortran ? 1 : 0;
   if( refuse ) {
      // the test is made at the starting point: there is none
      if( ra.first != Invalid_Problem_Definition && ra.first != Unrecoverable_Exception && ra.first != Internal_Error && ra.first != Invalid_Option ) out().viol("", "refused-start-accepted", fmt("get_starting_point returned false, the solve returned %d", (int) ra.first) + ctx);
      if( a->haveRef ) out().viol("", "refused-start-used", "the derivative test evaluated at a point although get_starting_point returned false" + ctx);
      out().stat("refused_start"); return; }
   if( !a->haveRef ) { if( ra.first != Not_Enough_Degrees_Of_Freedom && ra.first != Invalid_Problem_Definition && ra.first != Solve_Succeeded && ra.first != Infeasible_Problem_Detected ) out().viol("", "no-test", fmt("no evaluation was made, return %d", (int) ra.first) + ctx); out().stat("no_test"); return; }
   const Vec& x = a->ref;
   // reference point
   for( int i = 0; i < p.n; ++i ) {
      double lo = std::max(p.xl[i], std::min(p.x0[i], p.xu[i]) - rad), hi = std::min(p.xu[i], std::max(p.x0[i], p.xl[i]) + rad), e = 1e-12 * std::max(1., std::max(std::fabs(lo), std::fabs(hi)));
      if( !(x[i] >= lo - e && x[i] <= hi + e) ) { out().viol("", "reference-point", fmt("the test point has x[%d]=%.17g, allowed [%.17g,%.17g]", i, x[i], lo, hi) + ctx); break; }
   }
   // expected entries
   struct Exp { Line l; bool sure; };
   std::vector<Exp> E; int nsure = 0, nmay = 0;
   auto rel = [&](double ap, double ex) { return std::fabs(ap - ex) / std::max(std::fabs(ap), tol); };
   auto add = [&](char k, int cc, int i, int j, double ex, double ap, bool v) {
      double q = rel(ap, ex); bool star = !(q < tol); bool sure = std::fabs(q - tol) > 1e-6 * tol || std::isnan(q);
      E.push_back({Line{k, cc + ib, i + ib, j + ib, star, v, ex, ap, q}, sure}); if( star && sure ) ++nsure; if( !sure ) ++nmay; };
   Vec g, J, H; a->G(x.data(), g); a->Jv(x.data(), J); double f0 = p.f.val(x.data()); Vec c0(p.m); for( int i = 0; i < p.m; ++i ) c0[i] = p.g[i].val(x.data());
   bool failed = false;
   if( fault ) {
      // a failing evaluation within the test makes the solve fail without a result
      int avail[5] = {1 + (first ? std::max(0, p.n - std::max(0, fi)) : 0), p.m ? avail[0] : 0, 0, 0, 0};
      int ncon = second ? std::max(0, p.m - std::max(-1, fi)) : 0; bool objH = second && fi <= -1; int nc = ncon - (objH ? 0 : 0); if( second ) nc = std::max(0, p.m - std::max(0, fi));
      avail[2] = 1 + (objH ? p.n : 0); avail[3] = p.m ? 1 + nc * p.n : 0; avail[4] = second ? nc + (objH ? 1 : 0) : 0;
      failed = fat < avail[fk];
      if( failed && fkind == F_FALSE ) {
         if( isSuccess(ra.first) || ra.first > 0 ) out().viol("", "failed-test-accepted", fmt("evaluation %c #%d inside the test failed, the solve returned %d", "fcgjh"[fk], fat, (int) ra.first) + ctx);
         if( a->fin.count || a->nCB ) out().viol("", "failed-test-solved", fmt("evaluation %c #%d inside the test failed, but the solve went on", "fcgjh"[fk], fat) + ctx);
         if( announced >= 0 ) out().viol("", "failed-test-verdict", "the checker announces a result although it could not finish" + ctx);
         out().stat("failed_tests"); return;
      }
      if( failed ) { out().stat("nan_tests"); if( announced == 0 ) { /* values of f and c enter every difference quotient */ bool used = fk <= 1 && first && fi < p.n; if( used ) out().viol("", "nan-not-flagged", fmt("evaluation %c #%d gives NaN, but the checker reports no error", "fcgjh"[fk], fat) + ctx); } return; }
   }
   if( first ) for( int i = std::max(0, fi); i < p.n; ++i ) {
      double h = pert * std::max(1., std::fabs(x[i])); Vec y = x; y[i] = x[i] + h;
      add('g', -ib, i, -ib, g[i], (p.f.val(y.data()) - f0) / h, true);
      for( int k = 0; k < p.m; ++k ) { double ex = 0; bool v = false; for( size_t t = 0; t < p.jac.size(); ++t ) if( p.jac[t].i == k && p.jac[t].j == i ) { ex += J[t]; v = true; } add('j', k, i, -ib, ex, (p.g[k].val(y.data()) - c0[k]) / h, v); }
   }
   if( second ) for( int k = std::max(-1, fi); k < p.m; ++k ) {
      Vec lam(p.m, 0.); if( k >= 0 ) lam[k] = 1.5; a->Hv(x.data(), k < 0 ? 1.5 : 0., lam.data(), H);
      auto gradOf = [&](const Vec& y, Vec& o) { if( k < 0 ) { a->G(y.data(), o); return; } Vec jv; a->Jv(y.data(), jv); o.assign(p.n, 0.); for( size_t t = 0; t < p.jac.size(); ++t ) if( p.jac[t].i == k ) o[p.jac[t].j] += jv[t]; };
      Vec g0, g1; gradOf(x, g0);
      for( int i = 0; i < p.n; ++i ) {
         double h = pert * std::max(1., std::fabs(x[i])); Vec y = x; y[i] = x[i] + h; gradOf(y, g1);
         for( int j = 0; j < p.n; ++j ) { double ex = 0; bool v = false; for( size_t t = 0; t < p.hes.size(); ++t ) if( (p.hes[t].i == i && p.hes[t].j == j) || (p.hes[t].i == j && p.hes[t].j == i) ) { ex += H[t]; v = true; } add('h', k < 0 ? -1 - ib : k, i, j, ex, 1.5 * (g1[j] - g0[j]) / h, v); }
      }
   }
   out().stat("entries_checked", (double) E.size()); out().stat("entries_wrong", nsure); out().stat("solves");
   if( s1 != first || s2 != second ) out().viol("", "tests-made", fmt("first-derivative test made: %d, second: %d", s1, s2) + ctx);
   // every line refers to an expected entry, in whatever order
   auto key = [](const Line& l) { return std::make_tuple(l.kind, l.kind == 'g' ? 0 : l.c, l.i, l.kind == 'h' ? l.j : 0); };
   std::map<std::tuple<char, int, int, int>, const Exp*> M; for( auto& e : E ) M[key(e.l)] = &e;
   std::map<std::tuple<char, int, int, int>, int> seen; int stars = 0;
   bool again = a->nStart > 0 && false; (void) again;
   for( auto& l : L ) {
      if( l.star ) ++stars;
      auto it = M.find(key(l)); std::string nm = fmt("%c[%d;%d,%d]", l.kind, l.c, l.i, l.j);
      if( it == M.end() ) { out().viol("", "unknown-entry", "the checker reports an entry that does not exist or was not to be tested: " + nm + ctx); continue; }
      const Line& e = it->second->l; seen[key(l)]++;
      auto same = [](double u, double v) { return (std::isnan(u) && std::isnan(v)) || u == v || std::fabs(u - v) <= 1e-9 * std::max(std::fabs(u), std::fabs(v)); };
      if( !same(l.ex, e.ex) ) out().viol("", "user-value", nm + fmt(" printed user value %.17g, is %.17g", l.ex, e.ex) + ctx);
      if( !same(l.ap, e.ap) ) out().viol("", "approx-value", nm + fmt(" printed approximation %.17g, is %.17g", l.ap, e.ap) + ctx);
      if( !(std::fabs(l.rel - e.rel) <= 2e-3 * std::fabs(e.rel)) && !(std::isnan(e.rel) && std::isnan(l.rel)) && std::isfinite(e.rel) ) out().viol("", "rel-error", nm + fmt(" printed deviation %g, is %g", l.rel, e.rel) + ctx);
      if( l.v != e.v ) out().viol("", "structure-flag", nm + fmt(" printed as %sin the structure", l.v ? "" : "not ") + ctx);
      if( l.star != e.star && it->second->sure ) out().viol("", l.star ? "false-flag" : "not-flagged", nm + fmt(" user %.17g approx %.17g deviation %g tol %g flagged=%d", e.ex, e.ap, e.rel, tol, l.star) + ctx);
      if( !l.star && !all ) out().viol("", "unflagged-printed", nm + " printed without flag" + ctx);
   }
   for( auto& e : E ) {
      int k = seen.count(key(e.l)) ? seen[key(e.l)] : 0; std::string nm = fmt("%c[%d;%d,%d] user %.17g approx %.17g deviation %g tol %g", e.l.kind, e.l.c, e.l.i, e.l.j, e.l.ex, e.l.ap, e.l.rel, tol);
      if( !e.sure && !all ) continue;
      if( (e.l.star || all) && !k ) { out().viol("", "entry-missing", "not reported: " + nm + ctx); break; }
      if( k > 1 ) { out().viol("", "entry-twice", "reported more than once: " + nm + ctx); break; }
   }
   if( announced != stars ) out().viol("", "error-count", fmt("announced %d errors, reported %d", announced, stars) + ctx);
   if( std::abs(announced - nsure) > nmay ) out().viol("", "error-count", fmt("announced %d errors, there are %d", announced, nsure) + ctx);
   if( fault ) return;
   // the solve that follows is the one made without the test
   auto rb = run(c, b, tb);
   if( ra.first != rb.first ) out().viol("", "solve-differs", fmt("return %d with the test, %d without", (int) ra.first, (int) rb.first) + ctx);
   else {
      size_t na = a->trace.size(), nb = b->trace.size();
      if( na < nb || !std::equal(b->trace.begin(), b->trace.end(), a->trace.begin() + (na - nb)) ) out().viol("", "solve-differs", fmt("the solve after the test takes another course (%zu events, %zu without)", na, nb) + ctx);
      out().stat("traces_compared"); out().stat("trace_events", (double) nb);
   }
   if( !tb->s.empty() && (tb->s.find("erivative checker") != std::string::npos) ) out().viol("", "test-unrequested", "derivative test made without request" + ctx);
   out().sample(p.descr() + " | " + d.str() + fmt(" | %d errors", announced));
}
int main(int argc, char** argv) { Args a = parse(argc, argv); if( out().prop.empty() ) out().prop = "C17"; runCases(a, [&](Rng& r, long i) { c17(r, i); }); return 0; }
