// C07 reported values: callback arguments, queries, statistics, printed table and summary against an independent evaluation
#include "kkt.hpp"
#include "IpJournalist.hpp"
#include "IpIteratesVector.hpp"
#include "IpDenseVector.hpp"
#include "IpCompoundVector.hpp"
using namespace mon;
using namespace Ipopt;

struct StrJournal : public Journal {
   std::string s; StrJournal(EJournalLevel l) : Journal("mon", l) {}
   std::string Name() { return "mon"; }
   void PrintImpl(EJournalCategory, EJournalLevel, const char* str) override { s += str; }
   void PrintfImpl(EJournalCategory, EJournalLevel, const char* f, va_list ap) override { va_list a2; va_copy(a2, ap); int n = vsnprintf(nullptr, 0, f, a2); va_end(a2); std::vector<char> b(n + 1); vsnprintf(b.data(), n + 1, f, ap); s += b.data(); }
   void FlushBufferImpl() override {}
};
static Vec dense(const Vector& v) { Vec r; if( auto c = dynamic_cast<const CompoundVector*>(&v) ) return dense(*c->GetComp(0)); auto d = static_cast<const DenseVector*>(&v); r.resize(d->Dim()); for( int i = 0; i < d->Dim(); ++i ) r[i] = d->IsHomogeneous() ? d->Scalar() : d->Values()[i]; return r; }
struct Ref {   // measures of one iterate, recomputed
   double f, dual, sdual, con, scon, conSlop, prim, bnd, sbnd, com, comSlop, fs, duSlop, sduSlop; };
static const double INFD = 1e300;
static void close(const char* key, double got, double want, double tol, const std::string& what, const std::string& ctx) {
   if( !(std::fabs(got - want) <= tol) && !(got == want) && (std::isfinite(want)) ) out().viol("", key, fmt("%s: reported %.17g, recomputed %.17g (tolerance %.3g)", what.c_str(), got, want, tol) + ctx);
}
struct Judge {
   const Nlp& p; const Config& c; Scal sc; std::string ctx; bool rem, nodual, mkc; double fixscale = 1; int bad = 0;
   Judge(const Nlp& p, const Config& c) : p(p), c(c), sc(expectScaling(p, c)) {
      std::string f = c.s("fixed_variable_treatment", "make_parameter");
      rem = fixedRemoved(p, c); nodual = rem && f == "make_parameter_nodual"; mkc = f == "make_constraint";
      double mg = c.n("nlp_scaling_max_gradient", 100.);
      if( c.s("nlp_scaling_method", "gradient-based") == "gradient-based" && mg < 1 ) fixscale = mg;
      ctx = " | " + p.descr() + " | " + c.str();
   }
   Ref ref(const Vec& x, const Vec& zl, const Vec& zu, const Vec& g, const Vec& lam, const IpoptData* d) {
      Ref r; int n = p.n, m = p.m; double adf = sc.df;
      double fa; r.f = p.f.val(x.data(), &fa); r.fs = fa;
      Vec q(n, 0.), qa(n, 0.); p.f.grad(x.data(), 1., q.data(), qa.data());
      for( int i = 0; i < m; ++i ) p.g[i].grad(x.data(), lam[i], q.data(), qa.data());
      r.dual = r.sdual = r.duSlop = r.sduSlop = 0;
      for( int j = 0; j < n; ++j ) { if( rem && p.fixed(j) ) continue; double v = q[j] - zl[j] + zu[j], sl = 1e-9 * 1e-3 * (qa[j] + std::fabs(zl[j]) + std::fabs(zu[j])) + 1e-13; r.dual = std::max(r.dual, std::fabs(v)); r.sdual = std::max(r.sdual, std::fabs(v * adf / sc.dx[j])); r.duSlop = std::max(r.duSlop, sl); r.sduSlop = std::max(r.sduSlop, sl * std::fabs(adf) / sc.dx[j]); }
      Vec s = dense(*d->curr()->s()), vl = dense(*d->curr()->v_L()), vu = dense(*d->curr()->v_U());
      int k = 0, kl = 0, ku = 0; r.con = r.scon = r.prim = r.com = 0; r.conSlop = r.comSlop = 1e-14;
      for( int i = 0; i < m; ++i ) {
         double ga, gv = p.g[i].val(x.data(), &ga); double rl = 1.01 * std::max(Nlp::lo(p.gl[i]) ? c.relax(p.gl[i]) : 0., Nlp::up(p.gu[i]) ? c.relax(p.gu[i]) : 0.);
         double v = std::max(Nlp::lo(p.gl[i]) ? p.gl[i] - gv : 0., Nlp::up(p.gu[i]) ? gv - p.gu[i] : 0.); v = std::max(v, 0.);
         double slop = 1e-12 * (ga + (Nlp::lo(p.gl[i]) ? std::fabs(p.gl[i]) : 0) + (Nlp::up(p.gu[i]) ? std::fabs(p.gu[i]) : 0)) + 1e-14;
         r.con = std::max(r.con, v); r.scon = std::max(r.scon, v * sc.dg[i]);
         if( p.iseq(i) ) { r.prim = std::max(r.prim, v * sc.dg[i]); r.conSlop = std::max(r.conSlop, slop * std::max(1., sc.dg[i])); continue; }
         slop += 1e-9 * 1e-3 * std::fabs(s[k]) / sc.dg[i];
         r.conSlop = std::max(r.conSlop, (slop + rl) * std::max(1., sc.dg[i]));
         r.prim = std::max(r.prim, std::fabs(gv * sc.dg[i] - s[k]));
         double VL = Nlp::lo(p.gl[i]) ? vl[kl++] : 0, VU = Nlp::up(p.gu[i]) ? vu[ku++] : 0;
         double y = lam[i] * adf / sc.dg[i]; double t = -y - VL + VU;
         r.sdual = std::max(r.sdual, std::fabs(t)); r.dual = std::max(r.dual, std::fabs(t * sc.dg[i] / adf));
         r.sduSlop = std::max(r.sduSlop, 1e-12 * (std::fabs(y) + VL + VU)); r.duSlop = std::max(r.duSlop, 1e-12 * (std::fabs(y) + VL + VU) * sc.dg[i] / std::fabs(adf));
         if( Nlp::lo(p.gl[i]) ) { double b = p.gl[i] * sc.dg[i]; r.com = std::max(r.com, std::fabs((s[k] - b) * VL / adf)); r.comSlop = std::max(r.comSlop, (rl * std::max(1., sc.dg[i]) + 1e-9 * std::max(1., std::fabs(b))) * VL / std::fabs(adf)); }
         if( Nlp::up(p.gu[i]) ) { double b = p.gu[i] * sc.dg[i]; r.com = std::max(r.com, std::fabs((b - s[k]) * VU / adf)); r.comSlop = std::max(r.comSlop, (rl * std::max(1., sc.dg[i]) + 1e-9 * std::max(1., std::fabs(b))) * VU / std::fabs(adf)); }
         ++k;
      }
      r.bnd = r.sbnd = 0;
      for( int j = 0; j < n; ++j ) {
         if( p.fixed(j) && rem ) continue;
         if( p.fixed(j) && mkc ) { double v = std::fabs(x[j] - p.xl[j]); r.con = std::max(r.con, v); r.scon = std::max(r.scon, v * fixscale / sc.dx[j] * sc.dx[j]); r.prim = std::max(r.prim, v * fixscale); continue; }
         double v = std::max(0., std::max(Nlp::lo(p.xl[j]) ? p.xl[j] - x[j] : 0., Nlp::up(p.xu[j]) ? x[j] - p.xu[j] : 0.));
         r.bnd = std::max(r.bnd, v); r.sbnd = std::max(r.sbnd, v * sc.dx[j]);
         for( int sd = 0; sd < 2; ++sd ) { double b = sd ? p.xu[j] : p.xl[j], z = std::fabs(sd ? zu[j] : zl[j]); if( sd ? !Nlp::up(b) : !Nlp::lo(b) ) continue;
            double rl = c.relax(b) * 1.01; if( p.fixed(j) ) rl = 1.01 * std::max(rl, std::max(c.n("bound_relax_factor", 1e-8), 1e-8) * std::max(1., std::fabs(b)));
            r.com = std::max(r.com, std::fabs(z * (x[j] - b))); r.comSlop = std::max(r.comSlop, z * (rl * std::max(1., 1 / sc.dx[j]) + 1e-9 * std::max(1., std::fabs(b)))); }
      }
      return r;
   }
   /// full comparison of a query at the current iterate
   void queries(MonTNLP& t, const IpoptData* d, IpoptCalculatedQuantities* cq, Rng& r, bool resto, IterRec& rec, double big) {
      int n = p.n, m = p.m; double G = 1e19;
      Vec x(n, G), zl(n, G), zu(n, G), g(m, G), lam(m, G), xs(n, G), zls(n, G), zus(n, G), gs(m, G), lams(m, G);
      if( !t.get_curr_iterate(d, cq, false, n, x.data(), zl.data(), zu.data(), m, g.data(), lam.data()) || !t.get_curr_iterate(d, cq, true, n, xs.data(), zls.data(), zus.data(), m, gs.data(), lams.data()) ) { out().viol("", "query-refused", fmt("get_curr_iterate refused at iteration %d", rec.iter) + ctx); return; }
      rec.x = x; rec.zl = zl; rec.zu = zu; rec.g = g; rec.lam = lam; rec.ok = true;
      out().stat(resto ? "iterates_in_restoration" : "iterates");
      std::string it = fmt(" at iteration %d%s", rec.iter, resto ? " (restoration)" : "");
      bool fin = true; for( double v : x ) fin = fin && std::fabs(v) < 1e15; if( !fin ) return;
      for( int j = 0; j < n; ++j ) if( p.fixed(j) && rem && x[j] != p.xl[j] ) close("fixed-value", x[j], p.xl[j], 0, fmt("x[%d]", j) + it, ctx);
      for( int i = 0; i < m; ++i ) { double ga, gv = p.g[i].val(x.data(), &ga); close("query-g", g[i], gv, 1e-11 * (1 + ga + std::fabs(p.iseq(i) ? p.gl[i] : 0)) + 1e-13 * big / sc.dg[i], fmt("g[%d]", i) + it, ctx); }
      // scaled version
      double sf = sc.df;
      for( int j = 0; j < n; ++j ) {
         bool pf = p.fixed(j) && rem; double dx = pf ? 1. : sc.dx[j];
         if( pf && sc.dx[j] != 1 ) continue;      // factors of removed variables are not applied anywhere
         close("query-x-scaled", xs[j], x[j] * dx, 1e-12 * (std::fabs(x[j]) * dx) + 1e-300, fmt("scaled x[%d]", j) + it, ctx);
         double a = zl[j] * sf / dx, b = zu[j] * sf / dx; bool sw = p.fixed(j) && (rem || mkc) && sf < 0; if( sw ) { double tt = a; a = -b; b = -tt; }
         if( mkc && p.fixed(j) ) { if( fixscale != 1 ) continue; a = (sw ? a : zl[j] * sf), b = (sw ? b : zu[j] * sf); if( sw ) { a = -zu[j] * sf; b = -zl[j] * sf; } if( sc.dx[j] != 1 ) continue; }
         close("query-z-scaled", zls[j], a, 1e-9 * (std::fabs(a)) + 1e-12 * std::fabs(sf), fmt("scaled z_L[%d]", j) + it, ctx);
         close("query-z-scaled", zus[j], b, 1e-9 * (std::fabs(b)) + 1e-12 * std::fabs(sf), fmt("scaled z_U[%d]", j) + it, ctx);
      }
      for( int i = 0; i < m; ++i ) { close("query-g-scaled", gs[i], g[i] * sc.dg[i], 1e-11 * (std::fabs(g[i]) + std::fabs(p.iseq(i) ? p.gl[i] : 0)) * sc.dg[i] + 1e-13 * big + 1e-300, fmt("scaled g[%d]", i) + it, ctx);
         close("query-lam-scaled", lams[i], lam[i] * sf / sc.dg[i], 1e-11 * std::fabs(lam[i] * sf / sc.dg[i]) + 1e-300, fmt("scaled lambda[%d]", i) + it, ctx); }
      // violations
      Vec xlv(n, G), xuv(n, G), cl(n, G), cu(n, G), gl(n, G), gv(m, G), cg(m, G), Xlv(n, G), Xuv(n, G), Cl(n, G), Cu(n, G), Gl(n, G), Gv(m, G), Cg(m, G);
      if( !t.get_curr_violations(d, cq, false, n, xlv.data(), xuv.data(), cl.data(), cu.data(), gl.data(), m, gv.data(), cg.data()) || !t.get_curr_violations(d, cq, true, n, Xlv.data(), Xuv.data(), Cl.data(), Cu.data(), Gl.data(), m, Gv.data(), Cg.data()) ) { out().viol("", "query-refused", "get_curr_violations refused" + it + ctx); return; }
      Vec q(n, 0.), qa(n, 0.); p.f.grad(x.data(), 1., q.data(), qa.data()); for( int i = 0; i < m; ++i ) p.g[i].grad(x.data(), lam[i], q.data(), qa.data());
      for( int j = 0; j < n; ++j ) {
         bool pf = p.fixed(j) && rem, mf = p.fixed(j) && mkc && !rem; double mag = std::fabs(zl[j]) + std::fabs(zu[j]);
         double e = std::max(0., Nlp::lo(p.xl[j]) ? p.xl[j] - x[j] : 0.), u = std::max(0., Nlp::up(p.xu[j]) ? x[j] - p.xu[j] : 0.);
         close("query-bound-violation", xlv[j], pf ? 0 : e, 1e-13 * (std::fabs(x[j]) + (Nlp::lo(p.xl[j]) ? std::fabs(p.xl[j]) : 0)) * 10 + 1e-15, fmt("x_L_violation[%d]", j) + it, ctx);
         close("query-bound-violation", xuv[j], pf ? 0 : u, 1e-13 * (std::fabs(x[j]) + (Nlp::up(p.xu[j]) ? std::fabs(p.xu[j]) : 0)) * 10 + 1e-15, fmt("x_U_violation[%d]", j) + it, ctx);
         double want = q[j] - zl[j] + zu[j]; if( pf ) want = 0;
         close("query-gradlag", gl[j], want, 1e-10 * (qa[j] + mag) + 1e-12, fmt("grad_lag_x[%d]", j) + it, ctx);
         if( !pf && !mf ) close("query-gradlag-scaled", Gl[j], want * sf / sc.dx[j], (1e-10 * (qa[j] + mag) + 1e-12) * std::fabs(sf) / sc.dx[j], fmt("scaled grad_lag_x[%d]", j) + it, ctx);
         for( int sd = 0; sd < 2; ++sd ) {
            double b = sd ? p.xu[j] : p.xl[j], z = sd ? zu[j] : zl[j]; bool has = sd ? Nlp::up(b) : Nlp::lo(b); double w = has && !pf ? (sd ? b - x[j] : x[j] - b) * z : 0;
            double rl = has ? 1.01 * c.relax(b) : 0; if( p.fixed(j) && has ) rl = std::max(rl, 1.01e-8 * std::max(1., std::fabs(b)) + 1.01 * c.n("bound_relax_factor", 1e-8) * std::max(1., std::fabs(b)));
            double tol = has ? std::fabs(z) * (rl * std::max(1., 1 / sc.dx[j]) + 1e-9 * std::max(1., std::fabs(b)) + 1e-12 * std::fabs(x[j])) + 1e-300 : 0;
            close("query-compl", sd ? cu[j] : cl[j], w, tol, fmt("compl_x_%c[%d]", sd ? 'U' : 'L', j) + it, ctx);
            if( !pf && !mf ) close("query-compl-scaled", sd ? Cu[j] : Cl[j], (sd ? cu[j] : cl[j]) * sf, 1e-10 * std::fabs((sd ? cu[j] : cl[j]) * sf) + 1e-300, fmt("scaled compl_x_%c[%d]", sd ? 'U' : 'L', j) + it, ctx);
         }
         if( !pf && !mf ) { close("query-bound-violation-scaled", Xlv[j], xlv[j] * sc.dx[j], 1e-12 * (xlv[j] + std::fabs(x[j])) * sc.dx[j] + 1e-15, fmt("scaled x_L_violation[%d]", j) + it, ctx); close("query-bound-violation-scaled", Xuv[j], xuv[j] * sc.dx[j], 1e-12 * (xuv[j] + std::fabs(x[j])) * sc.dx[j] + 1e-15, fmt("scaled x_U_violation[%d]", j) + it, ctx); }
      }
      for( int i = 0; i < m; ++i ) {
         double ga, v = p.g[i].val(x.data(), &ga); double L = Nlp::lo(p.gl[i]) ? p.gl[i] - v : 0, U = Nlp::up(p.gu[i]) ? v - p.gu[i] : 0; double e = std::max(0., std::max(L, U));
         double slop = 1e-11 * (1 + ga + (Nlp::lo(p.gl[i]) ? std::fabs(p.gl[i]) : 0) + (Nlp::up(p.gu[i]) ? std::fabs(p.gu[i]) : 0)) + 1e-13 * big / sc.dg[i];
         close("query-constr-violation", gv[i], e, slop, fmt("nlp_constraint_violation[%d]", i) + it, ctx);
         close("query-constr-violation-scaled", Gv[i], e * sc.dg[i], slop * sc.dg[i], fmt("scaled nlp_constraint_violation[%d]", i) + it, ctx);
         double l = lam[i], w;
         // sign convention of the scaled problem decides which side a multiplier belongs to
         if( p.iseq(i) ) w = -(v - p.gl[i]) * l; else w = l > 0 ? -U * l : -L * -l;
         close("query-compl-g", cg[i], w, slop * std::fabs(l) + 1e-300, fmt("compl_g[%d]", i) + it, ctx);
         if( sf > 0 ) close("query-compl-g-scaled", Cg[i], w * sf, slop * std::fabs(l * sf) + 1e-300, fmt("scaled compl_g[%d]", i) + it, ctx);
      }
      out().stat("queries", 4);
      // partial queries give the same
      if( r.chance(0.3) ) {
         Vec a(n, G), b(n, G), l2(m, G); bool scd = r.chance(0.5);
         t.get_curr_iterate(d, cq, scd, r.chance(0.5) ? n : -1 + 0 * n, nullptr, nullptr, nullptr, m, nullptr, l2.data()); if( l2 != (scd ? lams : lam) ) out().viol("", "query-partial", "lambda differs when queried alone" + it + ctx);
         t.get_curr_iterate(d, cq, scd, n, a.data(), nullptr, nullptr, m + 7, nullptr, nullptr); if( a != (scd ? xs : x) ) out().viol("", "query-partial", "x differs when queried alone" + it + ctx);
         Vec e1(n, G), e2(n, G); t.get_curr_violations(d, cq, scd, n, nullptr, e1.data(), nullptr, nullptr, e2.data(), m + 1, nullptr, nullptr); if( e1 != (scd ? Xuv : xuv) || e2 != (scd ? Gl : gl) ) out().viol("", "query-partial", "violations differ when queried partially" + it + ctx);
         Vec e3(n, G), e4(m, G), e5(n, G); t.get_curr_violations(d, cq, scd, n, e3.data(), nullptr, nullptr, e5.data(), nullptr, m, nullptr, e4.data()); if( e3 != (scd ? Xlv : xlv) || e5 != (scd ? Cu : cu) || e4 != (scd ? Cg : cg) ) out().viol("", "query-partial", "violations differ when queried partially" + it + ctx);
         int th = 0; Vec z1(n + 1, 7), z2(m + 1, 7);
         try { t.get_curr_iterate(d, cq, scd, n + 1, z1.data(), nullptr, nullptr, m, nullptr, nullptr); } catch( IpoptException& ) { ++th; }
         try { t.get_curr_iterate(d, cq, scd, n, nullptr, nullptr, nullptr, m + 1, z2.data(), nullptr); } catch( IpoptException& ) { ++th; }
         try { t.get_curr_violations(d, cq, scd, n + 1, nullptr, nullptr, nullptr, z1.data(), nullptr, m, nullptr, nullptr); } catch( IpoptException& ) { ++th; }
         try { t.get_curr_violations(d, cq, scd, n, nullptr, nullptr, nullptr, nullptr, nullptr, m + 1, z2.data(), nullptr); } catch( IpoptException& ) { ++th; }
         if( th != 4 ) out().viol("", "wrong-dimension-accepted", fmt("only %d of 4 queries with wrong dimension refused", th) + it + ctx);
         for( double v : z1 ) if( v != 7 ) out().viol("", "wrong-dimension-written", it + ctx);
         for( double v : z2 ) if( v != 7 ) out().viol("", "wrong-dimension-written", it + ctx);
         Vec z3(n, 7); if( t.get_curr_iterate(nullptr, nullptr, scd, n, z3.data(), z3.data(), z3.data(), m, nullptr, nullptr) || t.get_curr_violations(nullptr, cq, scd, n, z3.data(), nullptr, nullptr, nullptr, nullptr, m, nullptr, nullptr) || t.get_curr_iterate(d, nullptr, scd, n, z3.data(), nullptr, nullptr, m, nullptr, nullptr) ) out().viol("", "query-without-iterate", "query without data object accepted" + it + ctx);
         for( double v : z3 ) if( v != 7 ) { out().viol("", "query-without-iterate", "refused query wrote its arguments" + it + ctx); break; }
      }
   }
};
static int A0(const std::vector<IterRec>& v) { int k = 0; for( auto& i : v ) k += i.mode == RestorationPhaseMode; return k; }
static bool find(const std::string& s, const std::string& key, double& a, double* b = nullptr) { size_t k = s.find(key); if( k == std::string::npos ) return false; k = s.find_first_of(":=", k); if( k == std::string::npos ) return false; double t; int q = sscanf(s.c_str() + k + 1, "%lf %lf", &a, b ? b : &t); return q >= (b ? 2 : 1); }

static void c07(Rng& r, long) {
   Nlp p = genAny(r); CfgOpt co; Config c = randConfig(r, co);
   if( c.s("line_search_method", "filter") == "cg-penalty" ) c.rm("perturb_always_cd");
   if( c.s("alpha_for_y", "") == "acceptor" ) c.rm("alpha_for_y");
   c.I("max_iter", r.picki({2, 10, 60, 200})); if( c.s("line_search_method", "") == "penalty" ) c.I("watchdog_shortened_iter_trigger", 0);
   if( r.chance(0.1) ) c.S("inf_pr_output", "internal");
   if( r.chance(0.2) ) {
      c.S("nlp_scaling_method", "user-scaling"); p.objscal = r.pickd({1, 0.1, 10, 3}); p.usex = r.chance(0.6); p.useg = r.chance(0.6); p.xs.resize(p.n); p.gs.resize(p.m);
      for( auto& v : p.xs ) v = r.logu(0.2, 5); for( auto& v : p.gs ) v = r.logu(0.2, 5); if( r.chance(0.25) ) p.objscal = -p.objscal; if( !p.usex ) for( auto& v : p.xs ) v = 1;
   }
   Judge J(p, c); std::string& ctx = J.ctx; uint64_t seed = r.u64();
   bool degenerate = c.s("fixed_variable_treatment", "make_parameter").substr(0, 4) == "make" && !J.rem && !J.mkc;   // too few degrees of freedom
   bool hon = c.s("honor_original_bounds", "no") == "yes";
   SmartPtr<StrJournal> jr; MonTNLP* tt = nullptr; Ref finRef; bool haveFin = false; IterRec finRec; int stopAt = r.chance(0.1) ? r.ri(0, 5) : -1; IpoptData* dd = nullptr; IpoptCalculatedQuantities* qq = nullptr;
   SmartPtr<MonTNLP> t = new MonTNLP(p, c); t->wantIter = false; t->keepIters = true; t->stopAt = stopAt; tt = GetRawPtr(t); (void) tt; (void) dd; (void) qq;
   SmartPtr<IpoptApplication> app = newApp(c); jr = new StrJournal(J_ITERSUMMARY); app->Jnlst()->AddJournal(SmartPtr<Journal>(GetRawPtr(jr)));
   jr->SetPrintLevel(J_STATISTICS, J_SUMMARY);
   Rng qr(seed);
   t->onIter = [&](MonTNLP& t, IterRec& rec, const IpoptData* d, IpoptCalculatedQuantities* cq) {
      double big = 1 + std::max(d->curr()->x()->Amax(), d->curr()->s()->Amax());
      if( degenerate ) return true;
      J.queries(t, d, cq, qr, rec.mode == RestorationPhaseMode, rec, rec.mode == RestorationPhaseMode ? big : 0);
      bool fin = rec.ok; for( double v : rec.x ) fin = fin && std::fabs(v) < 1e15; if( !fin ) return true;
      std::string it = fmt(" at iteration %d%s", rec.iter, rec.mode == RestorationPhaseMode ? " (restoration)" : "");
      if( rec.mode == RestorationPhaseMode ) {
         double fa, fv = p.f.val(rec.x.data(), &fa); close("callback-obj", rec.obj, fv, 1e-11 * (1 + fa), "obj_value" + it, ctx);
         Ref R = J.ref(rec.x, rec.zl, rec.zu, rec.g, rec.lam, d); close("callback-inf_pr", rec.inf_pr, R.prim, R.conSlop + 1e-13 * big, "inf_pr" + it, ctx);
         return true; }
      Ref R = J.ref(rec.x, rec.zl, rec.zu, rec.g, rec.lam, d);
      close("callback-obj", rec.obj, R.f, 1e-11 * (1 + R.fs), "obj_value" + it, ctx);
      close("callback-inf_pr", rec.inf_pr, R.prim, R.conSlop, "inf_pr" + it, ctx);
      close("callback-inf_du", rec.inf_du, R.sdual, R.sduSlop * 3 + 1e-11 * R.sdual, "inf_du" + it, ctx);
      if( rec.mu != d->curr_mu() ) out().viol("", "callback-mu", it + ctx);
      return true; };
   t->onFinal = [&](MonTNLP& t, const IpoptData* d, IpoptCalculatedQuantities* cq) {
      if( !d || !cq || degenerate ) return; t.contract = false;   // queries may evaluate
      finRec.iter = d->iter_count(); int n = p.n, m = p.m; finRec.x.resize(n); finRec.zl.resize(n); finRec.zu.resize(n); finRec.g.resize(m); finRec.lam.resize(m);
      if( !t.get_curr_iterate(d, cq, false, n, finRec.x.data(), finRec.zl.data(), finRec.zu.data(), m, finRec.g.data(), finRec.lam.data()) ) return;
      bool fin = true; for( double v : finRec.x ) fin = fin && std::fabs(v) < 1e15; if( !fin ) return;
      finRef = J.ref(finRec.x, finRec.zl, finRec.zu, finRec.g, finRec.lam, d); haveFin = true;
   };
   if( app->Initialize("") != Solve_Succeeded ) return;
   app->Options()->SetIntegerValue("print_level", 0);
   ApplicationReturnStatus ret = app->OptimizeTNLP(SmartPtr<TNLP>(GetRawPtr(t)));
   ctx += fmt("| ret=%d", ret); out().stat("solves"); out().stat(fmt("ret:%d", ret)); out().sig(hmix(p.sig(), c.sig()));
   if( degenerate || !t->began || !haveFin || t->fin.count != 1 || ret == Unrecoverable_Exception || ret == Invalid_Option ) return;
   out().stat("judged");
   FinalRec& F = t->fin; int n = p.n, m = p.m;
   // final report equals the final iterate
   double fa, fv = p.f.val(F.x.data(), &fa); if( !hon ) close("final-obj", F.obj, fv, 1e-11 * (1 + fa), "final objective", ctx);
   for( int i = 0; i < m; ++i ) { double ga, gv = p.g[i].val(F.x.data(), &ga); if( !hon ) close("final-g", F.g[i], gv, 1e-11 * (1 + ga), fmt("final g[%d]", i), ctx); if( F.lam[i] != finRec.lam[i] ) close("final-lambda", F.lam[i], finRec.lam[i], 0, fmt("lambda[%d]", i), ctx); }
   for( int j = 0; j < n; ++j ) {
      if( !hon ) close("final-x", F.x[j], finRec.x[j], 0, fmt("final x[%d]", j), ctx);
      if( hon && p.fixed(j) ) continue;
      close("final-z", F.zl[j], finRec.zl[j], 1e-10 * std::fabs(F.zl[j]) + 1e-12, fmt("final z_L[%d]", j), ctx); close("final-z", F.zu[j], finRec.zu[j], 1e-10 * std::fabs(F.zu[j]) + 1e-12, fmt("final z_U[%d]", j), ctx);
   }
   const IterRec& L = t->last; if( L.ok && L.mode == RegularMode && (ret == Solve_Succeeded || ret == Solved_To_Acceptable_Level || ret == Maximum_Iterations_Exceeded || ret == User_Requested_Stop) ) { if( L.iter != finRec.iter ) out().viol("", "final-iter", fmt("last callback %d, final data %d", L.iter, finRec.iter) + ctx); bool rep = false; for( auto& I : t->iters ) rep = rep || (I.mode == RegularMode && I.x == finRec.x); /* an interrupted watchdog returns to an earlier iterate */ if( ret == Solve_Succeeded ? L.x != finRec.x : !rep ) out().viol("", "final-not-last", "final point is not the last reported iterate" + ctx); }
   // statistics (a Hessian with all weights zero is counted but not requested)
   SmartPtr<SolveStatistics> st = app->Statistics();
   const Ref& R = finRef; double duS = R.duSlop * 3 + 1e-11 * R.dual;
   if( IsNull(st) ) { if( ret != Invalid_Number_Detected ) out().viol("", "no-statistics", ctx); }
   else {
      Number dinf, cviol, bviol, compl_, kkt, sd, scv, sbv, scp, skkt; Index ne, nc, ng, nj, nh;
      st->Infeasibilities(dinf, cviol, bviol, compl_, kkt); st->ScaledInfeasibilities(sd, scv, sbv, scp, skkt); st->NumberOfEvaluations(ne, nc, ng, nj, nh);
      Number d1, c1, k1, p1; st->Infeasibilities(d1, c1, p1, k1); if( d1 != dinf || c1 != cviol || k1 != kkt || p1 != compl_ ) out().viol("", "stat-overloads", ctx);
      if( st->IterationCount() != finRec.iter || (L.mode == RegularMode && (int) st->IterationCount() != L.iter) ) out().viol("", "stat-iter", fmt("IterationCount %d, last iteration %d", (int) st->IterationCount(), L.iter) + ctx);
      close("stat-obj", st->FinalObjective(), R.f, 1e-11 * (1 + R.fs), "FinalObjective", ctx); close("stat-obj", st->FinalScaledObjective(), R.f * J.sc.df, 1e-11 * (1 + R.fs) * std::fabs(J.sc.df), "FinalScaledObjective", ctx);
      close("stat-dual", dinf, R.dual, duS, "dual infeasibility", ctx); close("stat-dual", sd, R.sdual, R.sduSlop * 3 + 1e-11 * R.sdual, "scaled dual infeasibility", ctx);
      close("stat-constr", cviol, R.con, R.conSlop, "constraint violation", ctx); close("stat-constr", scv, R.scon, R.conSlop, "scaled constraint violation", ctx);
      close("stat-bound", bviol, R.bnd, 1e-12 * (1 + R.bnd), "bound violation", ctx); close("stat-bound", sbv, R.sbnd, 1e-12 * (1 + R.sbnd), "scaled bound violation", ctx);
      close("stat-compl", std::fabs(compl_), R.com, R.comSlop + 1e-11 * R.com, "complementarity", ctx); close("stat-compl", scp, R.com * std::fabs(J.sc.df), (R.comSlop + 1e-11 * R.com) * std::fabs(J.sc.df), "scaled complementarity", ctx);
      if( st->TotalCpuTime() < 0 || st->TotalWallclockTime() < 0 || st->TotalSysTime() < 0 ) out().viol("", "stat-time", ctx);
      int uf = t->calls['f'], ug = t->calls['g'], uc = t->calls['c'], uj = t->valJ, uh = t->valH;
      bool exact = !c.get("derivative_test") && !c.get("jacobian_approximation") && !c.get("gradient_approximation");
      if( exact ) {
         if( ne != uf ) out().viol("", "stat-evals-f", fmt("statistics: %d objective evaluations, %d callbacks", (int) ne, uf) + ctx);
         if( nh < uh || nh > uh + 5 + ((int) A0(t->iters)) ) out().viol("", "stat-evals-h", fmt("statistics: %d Hessian evaluations, %d callbacks", (int) nh, uh) + ctx);
         if( m && (nc > uc || nc < uc - 3) && !(p.neq() && p.neq() < m) ) out().viol("", "stat-evals-g", fmt("statistics: %d constraint evaluations, %d callbacks", (int) nc, uc) + ctx);
         int q = t->nCB * 8 + 3;   // queries may evaluate gradient and Jacobian again
         if( ng > ug || ng < ug - q ) out().viol("", "stat-evals-grad", fmt("statistics: %d gradient evaluations, %d callbacks", (int) ng, ug) + ctx);
         if( (nj > uj || nj < uj - q) && !(p.neq() && p.neq() < m) && m ) out().viol("", "stat-evals-jac", fmt("statistics: %d Jacobian evaluations, %d callbacks", (int) nj, uj) + ctx);
      }
      // printed summary
      const std::string& S = jr->s; double a, b;
      auto chk = [&](const char* key, double v1, double v2, double rel) { if( !find(S, key, a, &b) ) { out().viol("", "summary-missing", std::string(key) + ctx); return; } if( !(std::fabs(a - v1) <= rel * std::fabs(v1)) || !(std::fabs(b - v2) <= rel * std::fabs(v2)) ) out().viol("", "summary", fmt("%s %.17g %.17g, statistics say %.17g %.17g", key, a, b, v1, v2) + ctx); };
      if( !find(S, "Number of Iterations....", a) || (int) a != (int) st->IterationCount() ) out().viol("", "summary", fmt("Number of Iterations %g vs %d", a, (int) st->IterationCount()) + ctx);
      chk("Objective...............", st->FinalScaledObjective(), st->FinalObjective(), 1e-15); chk("Dual infeasibility......", sd, dinf, 1e-15); chk("Constraint violation....", scv, cviol, 1e-15); chk("Variable bound violation", sbv, bviol, 1e-15); chk("Complementarity.........", scp, compl_, 1e-15); chk("Overall NLP error.......", skkt, kkt, 1e-15);
      if( !(kkt >= dinf * (1 - 1e-12)) || !(kkt >= cviol * (1 - 1e-12)) ) out().viol("", "stat-kkt", ctx);
      auto chk1 = [&](const char* key, int v) { if( !find(S, key, a) || (int) a != v ) out().viol("", "summary-evals", fmt("%s %g vs %d", key, a, v) + ctx); };
      chk1("Number of objective function evaluations", ne); chk1("Number of objective gradient evaluations", ng); chk1("Number of Lagrangian Hessian evaluations", nh);
      static const std::map<int, const char*> ex = {{0, "Optimal Solution Found"}, {1, "Solved To Acceptable Level"}, {2, "Converged to a point of local infeasibility"}, {3, "Search Direction is becoming Too Small"}, {4, "Iterates diverging"}, {5, "as requested by user"}, {6, "Feasible point for square problem found"}, {-1, "Maximum Number of Iterations Exceeded"}, {-2, "Restoration Failed"}, {-3, "Error in step computation"}};
      auto e = ex.find(ret); if( e != ex.end() ) { size_t k = S.find("EXIT: "); if( k == std::string::npos || S.find("EXIT: ", k + 1) != std::string::npos ) out().viol("", "summary-exit", "EXIT line not printed exactly once" + ctx); else if( S.substr(k, 120).find(e->second) == std::string::npos ) out().viol("", "summary-exit", S.substr(k, 80) + ctx); }
      out().stat("summaries");
   }
   // iteration table
   std::map<std::pair<int, int>, const IterRec*> byIter; for( auto& I : t->iters ) byIter[{I.iter, I.mode}] = &I;
   const std::string& S = jr->s; size_t pos = 0; int rows = 0, regRows = 0, needRows = 0; for( auto& e : byIter ) if( e.first.second == RegularMode && !byIter.count({e.first.first, RestorationPhaseMode}) && !byIter.count({e.first.first - 1, RestorationPhaseMode}) && !byIter.count({e.first.first + 1, RestorationPhaseMode}) ) ++needRows;
   while( pos < S.size() ) {
      size_t e = S.find('\n', pos); if( e == std::string::npos ) break; std::string l = S.substr(pos, e - pos); pos = e + 1;
      int it; int used = 0; if( sscanf(l.c_str(), "%d%n", &it, &used) != 1 || l.find('.') == std::string::npos || used > 8 ) continue;
      bool re = l[used] == 'r'; if( !re && l[used] != ' ' ) continue;
      double ob, ip, id, lm, dn, ad, ap; char rg[32], ac; int ls;
      if( sscanf(l.c_str() + used + (re ? 1 : 0), "%lf %lf %lf %lf %lf %31s %lf %lf%c %d", &ob, &ip, &id, &lm, &dn, rg, &ad, &ap, &ac, &ls) != 10 ) continue;
      auto f = byIter.find({it, re ? RestorationPhaseMode : RegularMode}); if( f == byIter.end() ) { out().viol("", "table-extra-row", l + ctx); continue; }
      const IterRec& I = *f->second; ++rows; if( !re ) ++regRows;
      auto eq = [&](double a, double b, double rel) { return !std::isfinite(b) || std::fabs(a - b) <= rel * std::fabs(b) + 1e-99; };
      if( !eq(ob, I.obj, 1e-7) ) out().viol("", "table-objective", l + fmt(" but obj_value=%.17g", I.obj) + ctx);
      if( !eq(id, I.inf_du, 6e-3) ) out().viol("", "table-inf_du", l + fmt(" but inf_du=%.17g", I.inf_du) + ctx);
      if( std::fabs(lm - std::log10(I.mu)) > 0.051 ) out().viol("", "table-mu", l + fmt(" but mu=%.17g", I.mu) + ctx);
      if( !eq(dn, I.dn, 6e-3) ) out().viol("", "table-dnorm", l + fmt(" but d_norm=%.17g", I.dn) + ctx);
      if( !eq(ad, I.ad, 6e-3) || !eq(ap, I.ap, 6e-3) ) out().viol("", "table-alpha", l + fmt(" but alpha=%.17g %.17g", I.ad, I.ap) + ctx);
      if( ls != I.ls ) out().viol("", "table-ls", l + fmt(" but ls_trials=%d", I.ls) + ctx);
      if( (rg[0] == '-' && !rg[1]) ? I.reg != 0 : I.reg == 0 || std::fabs(atof(rg) - std::log10(I.reg)) > 0.051 ) out().viol("", "table-reg", l + fmt(" but regularization %.17g", I.reg) + ctx);
      if( c.s("inf_pr_output", "original") == "internal" ) { if( !eq(ip, I.inf_pr, 6e-3) ) out().viol("", "table-inf_pr", l + fmt(" but inf_pr=%.17g", I.inf_pr) + ctx); }
      else if( I.ok ) { double v = 0, sl = 1e-13; for( int i = 0; i < m; ++i ) { double ga, gv = p.g[i].val(I.x.data(), &ga); v = std::max(v, std::max(Nlp::lo(p.gl[i]) ? p.gl[i] - gv : 0., Nlp::up(p.gu[i]) ? gv - p.gu[i] : 0.)); sl = std::max(sl, 1e-11 * (ga + std::fabs(p.iseq(i) ? p.gl[i] : 0)) + (p.iseq(i) ? 0 : 1.01 * std::max(Nlp::lo(p.gl[i]) ? c.relax(p.gl[i]) : 0, Nlp::up(p.gu[i]) ? c.relax(p.gu[i]) : 0))); }
         if( J.mkc ) for( int j = 0; j < n; ++j ) if( p.fixed(j) ) v = std::max(v, std::fabs(I.x[j] - p.xl[j]));
         if( std::isfinite(v) && !(std::fabs(ip - v) <= 6e-3 * v + sl) ) out().viol("", "table-inf_pr", l + fmt(" but the constraint violation is %.17g", v) + ctx); }
   }
   out().stat("table_rows", rows); if( regRows < needRows - 1 && c.s("print_frequency_iter", "") == "" && ret != Invalid_Number_Detected ) out().viol("", "table-missing-rows", fmt("%d rows for %d iterates", rows, (int) byIter.size()) + ctx);
   // querying does not change the course
   Solve q = solve(p, c, [&](MonTNLP& u) { u.wantIter = false; u.keepIters = true; u.stopAt = stopAt; u.contract = false; });
   size_t k = 0; auto& A = t->iters; auto& B = q.t->iters;
   auto same = [](const IterRec& a, const IterRec& b) { return a.mode == b.mode && a.iter == b.iter && hdbl(a.obj) == hdbl(b.obj) && hdbl(a.inf_pr) == hdbl(b.inf_pr) && hdbl(a.inf_du) == hdbl(b.inf_du) && a.mu == b.mu && hdbl(a.dn) == hdbl(b.dn) && a.reg == b.reg && a.ad == b.ad && a.ap == b.ap && a.ls == b.ls; };
   while( k < A.size() && k < B.size() && same(A[k], B[k]) ) ++k;
   if( k < A.size() || k < B.size() || q.ret != ret || MonTNLP::hx(q.t->fin.x.data(), (int) q.t->fin.x.size()) != MonTNLP::hx(F.x.data(), n) ) out().viol("", "query-changes-course", fmt("solve with queries and output differs from the plain one: ret %d / %d, first different iterate %d of %d/%d", ret, q.ret, (int) k, (int) A.size(), (int) B.size()) + ctx);
   out().sample(p.descr() + " | " + c.str() + fmt(" -> ret %d, %d iterates, %d table rows", ret, (int) A.size(), rows));
}
int main(int argc, char** argv) {
   Args a = parse(argc, argv);
   if( a.mode == "c07" ) runCases(a, c07); else return 7;
   return 0;
}
