// C06: every iterate interior, steps and barrier rules, filter.  C08: search directions and linear systems.
// The line search and the symmetric linear solver of the algorithm are wrapped by observers (via AlgorithmBuilder).
#include "kkt.hpp"
#include "IpAlgBuilder.hpp"
#include "IpLineSearch.hpp"
#include "IpSymLinearSolver.hpp"
#include "IpIpoptAlg.hpp"
#include "IpTripletHelper.hpp"
#include "IpTripletToCSRConverter.hpp"
#include "IpFilter.hpp"
#include "IpLowRankUpdateSymMatrix.hpp"
#include "IpMultiVectorMatrix.hpp"
#include "IpNLPScaling.hpp"
using namespace mon;
using namespace Ipopt;
extern "C" void dsyev_(const char*, const char*, const int*, double*, const int*, double*, double*, const int*, int*, int, int);

static Vec vals(const Vector& v) { Vec r(v.Dim()); if( v.Dim() ) TripletHelper::FillValuesFromVector(v.Dim(), v, r.data()); return r; }
static int negEig(int n, std::vector<double> A, bool& clear) {   // symmetric scaling keeps the inertia
   clear = true; if( !n ) return 0;
   for( int pass = 0; pass < 4; ++pass ) {
      Vec d(n, 1.); for( int i = 0; i < n; ++i ) { double m = 0; for( int j = 0; j < n; ++j ) m = std::max(m, std::fabs(A[i * n + j])); if( m > 0 ) d[i] = 1 / std::sqrt(m); else { clear = false; return 0; } }
      for( int i = 0; i < n; ++i ) for( int j = 0; j < n; ++j ) A[i * n + j] *= d[i] * d[j];
   }
   Vec w(n); int lw = 40 * n, info = 0; Vec wk(lw); char N = 'N', U = 'U'; dsyev_(&N, &U, &n, A.data(), &n, w.data(), wk.data(), &lw, &info, 1, 1);
   double mx = 0; for( double v : w ) mx = std::max(mx, std::fabs(v));
   int neg = 0; for( double v : w ) { if( std::fabs(v) < 1e-8 * mx ) clear = false; neg += v < 0; }
   if( info ) clear = false;
   return neg;
}
struct Watch {
   const Nlp* p; const Config* c; bool c06 = true, c08 = false; Rng* r = nullptr;
   std::string ctx() const { return " | " + p->descr() + " | " + c->str(); }
   void bad(const std::string& k, const std::string& m) { out().viol("", k, m + ctx()); }
   // C06 state
   double lastMu = -1; bool first = true; long nls = 0; bool filterOk = true, fallback = false;
   struct E { double phi, theta; int it; }; std::vector<E> filt;
   bool huge = false; bool softResto = false; bool startedResto = false;
   SmartPtr<const IteratesVector> prevIt; std::map<const void*, SmartPtr<const IteratesVector> > deltaOf; std::vector<SmartPtr<const IteratesVector> > keep;
   bool square = false; char lastCh = ' '; bool inOuter = false; int lastIter = -1, lastMode = 0; bool lastWasResto = false; bool directStep = false;
};
static const char* nm4[4] = {"x_L", "x_U", "s_L", "s_U"};

struct MonLS : public LineSearch {
   SmartPtr<LineSearch> in; Watch* w;
   MonLS(SmartPtr<LineSearch> i, Watch* q) : in(i), w(q) {}
   bool InitializeImpl(const OptionsList& o, const std::string& pre) override { return in->Initialize(Jnlst(), IpNLP(), IpData(), IpCq(), o, pre); }
   void Reset() override { w->filt.clear(); w->softResto = false; in->Reset(); }
   void SetRigorousLineSearch(bool b) override { in->SetRigorousLineSearch(b); }
   bool CheckSkippedLineSearch() override { return in->CheckSkippedLineSearch(); }
   bool ActivateFallbackMechanism() override { bool b = in->ActivateFallbackMechanism(); w->fallback = b; return b; }

   struct Snap { Vec x, s, yc, yd, z[4], sl[4]; };
   Vec rawSlack(int k, const Vector& x, const Vector& s) {
      const Vector& b = k == 0 ? *IpNLP().x_L() : k == 1 ? *IpNLP().x_U() : k == 2 ? *IpNLP().d_L() : *IpNLP().d_U();
      const Matrix& P = k == 0 ? *IpNLP().Px_L() : k == 1 ? *IpNLP().Px_U() : k == 2 ? *IpNLP().Pd_L() : *IpNLP().Pd_U();
      SmartPtr<Vector> t = b.MakeNew(); P.TransMultVector(1., k < 2 ? x : s, 0., *t); Vec a = vals(*t), bb = vals(b);
      for( size_t i = 0; i < a.size(); ++i ) a[i] = k % 2 ? bb[i] - a[i] : a[i] - bb[i];
      return a;
   }
   Vec proj(int k, const Vector& dx, const Vector& ds) {
      const Vector& b = k == 0 ? *IpNLP().x_L() : k == 1 ? *IpNLP().x_U() : k == 2 ? *IpNLP().d_L() : *IpNLP().d_U();
      const Matrix& P = k == 0 ? *IpNLP().Px_L() : k == 1 ? *IpNLP().Px_U() : k == 2 ? *IpNLP().Pd_L() : *IpNLP().Pd_U();
      SmartPtr<Vector> t = b.MakeNew(); P.TransMultVector(k % 2 ? -1. : 1., k < 2 ? dx : ds, 0., *t); return vals(*t);
   }
   Snap snap(const IteratesVector& it, bool slk) {
      Snap q; q.x = vals(*it.x()); q.s = vals(*it.s()); q.yc = vals(*it.y_c()); q.yd = vals(*it.y_d());
      q.z[0] = vals(*it.z_L()); q.z[1] = vals(*it.z_U()); q.z[2] = vals(*it.v_L()); q.z[3] = vals(*it.v_U());
      if( slk ) { q.sl[0] = vals(*IpCq().curr_slack_x_L()); q.sl[1] = vals(*IpCq().curr_slack_x_U()); q.sl[2] = vals(*IpCq().curr_slack_s_L()); q.sl[3] = vals(*IpCq().curr_slack_s_U()); }
      return q;
   }
   void direction(const IteratesVector& d);
   void FindAcceptableTrialPoint() override {
      Watch& W = *w; const Config& c = *W.c; W.nls++;
      SmartPtr<const IteratesVector> it = IpData().curr(), del = IpData().delta(); bool fb = W.fallback; W.fallback = false;
      int iter = IpData().iter_count(); double mu = IpData().curr_mu(), tau = IpData().curr_tau();
      bool free = IpData().FreeMuMode();
      bool haveD = !fb && IsValid(del);
      if( W.c08 && haveD ) { try { direction(*del); } catch( IpoptNLP::Eval_Error& ) {} }
      if( !W.c06 ) { in->FindAcceptableTrialPoint(); return; }
      Snap a = snap(*it, true);
      W.keep.push_back(it); W.keep.push_back(del); if( haveD ) W.deltaOf[GetRawPtr(it)] = del;
      for( int k = 0; k < 4; ++k ) for( size_t i = 0; i < a.z[k].size(); ++i ) {
         if( !(a.sl[k][i] > 0) ) W.bad("slack-not-positive", fmt("iter %d: slack %s[%d] = %g", iter, nm4[k], (int) i, a.sl[k][i]));
         if( !(a.z[k][i] > 0) ) W.bad("mult-not-positive", fmt("iter %d: multiplier for %s[%d] = %g", iter, nm4[k], (int) i, a.z[k][i]));
      }
      // barrier parameter
      if( !(mu > 0) || !std::isfinite(mu) ) W.bad("mu-not-positive", fmt("iter %d: mu = %g", iter, mu));
      if( !(tau > 0 && tau <= 1) ) W.bad("tau", fmt("iter %d: tau = %g", iter, tau));
      bool mono = c.s("mu_strategy", c.s("hessian_approximation", "exact") == "limited-memory" ? "adaptive" : "monotone") == "monotone" && c.s("mehrotra_algorithm", "no") == "no";
      double df = std::fabs(IpNLP().NLP_scaling()->apply_obj_scaling(1.));
      double tol = c.n("tol", 1e-8), btf = c.n("barrier_tol_factor", 10.);
      double taumin = c.n("tau_min", 0.99);
      if( mono ) {
         double floor = std::max(c.n("mu_target", 0.), std::min(tol, df * c.n("compl_inf_tol", 1e-4)) / (btf + 1));
         if( W.lastMu < 0 ) W.lastMu = c.n("mu_init", 0.1);
         if( mu > W.lastMu && mu > floor * (1 + 1e-12) ) W.bad("mu-increased", fmt("iter %d: mu %g -> %g", iter, W.lastMu, mu));
         if( mu < floor * (1 - 1e-12) && mu < W.lastMu ) W.bad("mu-below-floor", fmt("iter %d: mu %g below floor %g", iter, mu, floor));
         double lin = c.n("mu_linear_decrease_factor", 0.2), sup = c.n("mu_superlinear_decrease_power", 1.5), m = W.lastMu; int steps = 0;
         while( m > mu * (1 + 1e-10) && steps < 400 ) { double nw = std::max(std::min(lin * m, std::pow(m, sup)), floor); steps++; if( nw >= m ) break; m = nw; }
         if( mu < W.lastMu && std::fabs(m - mu) > 1e-10 * mu ) W.bad("mu-update", fmt("iter %d: mu %g -> %g is not a documented decrease", iter, W.lastMu, mu));
         if( steps > 1 && c.s("mu_allow_fast_monotone_decrease", "yes") == "no" && !W.first ) W.bad("mu-fast", fmt("iter %d: mu decreased %d times at once although not allowed", iter, steps));
         out().stat("mu_decreases", steps);
         if( steps && std::fabs(tau - std::max(taumin, 1 - mu)) > 1e-15 ) W.bad("tau-update", fmt("iter %d: tau %.17g for mu %g", iter, tau, mu));
         // the barrier problem is left solved to the documented accuracy
         W.lastMu = mu;
      }
      else {
         double mmax = c.n("mu_max", 1e5), mmin = c.n("mu_min", 1e-11); (void) mmax;
         if( c.get("mu_max") && mu > c.n("mu_max", 1e5) * (1 + 1e-12) && free ) W.bad("mu-above-max", fmt("iter %d: mu %g", iter, mu));
         if( c.get("mu_min") && mu < mmin * (1 - 1e-12) && free ) W.bad("mu-below-min", fmt("iter %d: mu %g", iter, mu));
      }
      double th = 0, ph = 0, gb = 0, amax = 0, dmax = 0; bool ref = false;
      if( haveD ) { try { th = IpCq().curr_constraint_violation(); ph = IpCq().curr_barrier_obj(); gb = IpCq().curr_gradBarrTDelta(); ref = true; } catch( IpoptNLP::Eval_Error& ) {} }
      W.first = false; W.inOuter = true; W.startedResto = false;
      auto nresto = out().stats["resto_iterates"];
      in->FindAcceptableTrialPoint();
      W.inOuter = false; bool resto = out().stats["resto_iterates"] > nresto;
      if( in->CheckSkippedLineSearch() ) { out().stat("skipped_ls"); return; }
      SmartPtr<const IteratesVector> tr = IpData().trial(); if( !IsValid(tr) || !IsValid(tr->x()) || !IsValid(tr->z_L()) ) { W.bad("no-trial", fmt("iter %d: no trial point after line search", iter)); return; }
      char ch = IpData().info_alpha_primal_char(); double ap = IpData().info_alpha_primal(), ad = IpData().info_alpha_dual(); int ls = IpData().info_ls_count();
      bool restored = GetRawPtr(IpData().curr()) != GetRawPtr(it);
      bool knownDelta = haveD;
      if( restored ) { // watchdog went back to an earlier iterate
         auto f = W.deltaOf.end(); SmartPtr<const IteratesVector> cur = IpData().curr();
         for( auto e = W.deltaOf.begin(); e != W.deltaOf.end(); ++e ) { const IteratesVector* q = (const IteratesVector*) e->first; if( GetRawPtr(q->x()) == GetRawPtr(cur->x()) && GetRawPtr(q->s()) == GetRawPtr(cur->s()) ) f = e; }
         out().stat("watchdog_restored");
         if( f == W.deltaOf.end() ) { W.bad("restored-unknown", fmt("iter %d: line search continues from an iterate that was never current", iter)); return; }
         del = f->second; knownDelta = true; a = snap(*cur, true); mu = IpData().curr_mu(); ref = false;
      }
      out().stat(std::string("step:") + (ch > 32 ? ch : (char) 95));
      out().stat("steps");
      Snap b = snap(*tr, false);
      // (asking the algorithm for its trial slacks would disturb its count of corrected slacks)
      int nadj = IpCq().AdjustedTrialSlacks(), nneg = 0; std::string negs;
      Vec ts[4]; for( int k = 0; k < 4; ++k ) { ts[k] = rawSlack(k, *tr->x(), *tr->s()); for( size_t i = 0; i < ts[k].size(); ++i ) if( !(ts[k][i] > 0) ) { nneg++; negs += fmt(" %s[%d]=%g", nm4[k], (int) i, ts[k][i]); if( std::isfinite(ts[k][i]) && !resto ) ts[k][i] = 1e-300; } }
      if( nneg > nadj && !resto && c.s("line_search_method", "filter") != "cg-penalty" ) W.bad("slack-not-corrected", fmt("iter %d: %d slacks are not positive:%s but %d will be corrected", iter, nneg, negs.c_str(), nadj));
      if( nadj ) out().stat("slack_corrections", nadj);
      for( int k = 0; k < 4; ++k ) for( size_t i = 0; i < ts[k].size(); ++i ) {
         if( !(ts[k][i] > 0) && !resto ) W.bad("trial-slack-not-positive", fmt("iter %d: slack %s[%d] = %g", iter, nm4[k], (int) i, ts[k][i]));
         if( !(b.z[k][i] > 0) ) W.bad("trial-mult-not-positive", fmt("iter %d: multiplier for %s[%d] = %g", iter, nm4[k], (int) i, b.z[k][i]));
      }
      if( resto ) { if( W.filterOk ) { if( ref && !W.softResto ) W.filt.push_back({ph - c.n("gamma_phi", 1e-8) * th, (1 - c.n("gamma_theta", 1e-5)) * th, iter}); if( !W.square ) checkFilter(iter, "after restoration"); } /* square problems: any feasible point ends the restoration */ W.softResto = false; out().stat("restorations"); return; }
      bool magic = c.s("magic_steps", "no") == "yes", cg = c.s("line_search_method", "filter") == "cg-penalty";
      if( cg && (ch == 'r' || ch == 'X') ) return;
      if( !(ap > 0 && ap <= 1) ) W.bad("alpha-primal-range", fmt("iter %d: alpha_pr = %g (%c)", iter, ap, ch));
      if( !(ad > 0 && ad <= 1) ) W.bad("alpha-dual-range", fmt("iter %d: alpha_du = %g (%c)", iter, ad, ch));
      // fraction to the boundary holds for the new iterate whatever direction was used
      double tEff = tau;
      Vec rs[4];
      for( int k = 0; k < 4; ++k ) {
         rs[k] = rawSlack(k, *tr->x(), *tr->s());
         if( magic && k >= 2 ) continue;
         Vec bb = vals(k == 0 ? *IpNLP().x_L() : k == 1 ? *IpNLP().x_U() : k == 2 ? *IpNLP().d_L() : *IpNLP().d_U());
         for( size_t i = 0; i < rs[k].size(); ++i ) {
            double lim = (1 - tEff) * a.sl[k][i], eps = 1e-14 * (std::fabs(bb[i]) + a.sl[k][i]) * 8;
            if( rs[k][i] < lim * (1 - 1e-9) - eps ) W.bad("fraction-to-boundary", fmt("iter %d: slack %s[%d] %g -> %g with tau %g (%c)", iter, nm4[k], (int) i, a.sl[k][i], rs[k][i], tEff, ch));
            double zl = (1 - tEff) * a.z[k][i];
            if( b.z[k][i] < zl * (1 - 1e-9) - 1e-15 * a.z[k][i] ) W.bad("fraction-to-boundary-dual", fmt("iter %d: multiplier %s[%d] %g -> %g with tau %g (%c)", iter, nm4[k], (int) i, a.z[k][i], b.z[k][i], tEff, ch));
         }
      }
      // the step along the computed direction
      bool soc = ch >= 'A' && ch <= 'Z' && ch != 'T' && ch != 'S';
      bool corr = c.s("corrector_type", "none") != "none";
      if( knownDelta && !soc && !corr ) {
         Snap d = snap(*del, false);
         for( int k = 0; k < 4; ++k ) {
            Vec pr = proj(k, *del->x(), *del->s());
            if( k == 0 ) amax = dmax = 1;
            for( size_t i = 0; i < pr.size(); ++i ) { if( pr[i] < 0 ) amax = std::min(amax, -tEff * a.sl[k][i] / pr[i]); if( d.z[k][i] < 0 ) dmax = std::min(dmax, -tEff * a.z[k][i] / d.z[k][i]); }
         }
         auto cmpv = [&](const char* n, const Vec& n1, const Vec& o, const Vec& dd, double al) {
            for( size_t i = 0; i < n1.size(); ++i ) { double e = o[i] + al * dd[i]; if( !(std::fabs(n1[i] - e) <= 1e-14 * (std::fabs(o[i]) + std::fabs(al * dd[i])) + 1e-300) ) { W.bad(std::string("step-") + n, fmt("iter %d: new %s[%d] = %.17g, old + alpha*delta = %.17g (alpha %g, %c)", iter, n, (int) i, n1[i], e, al, ch)); return; } } };
         cmpv("x", b.x, a.x, d.x, ap); if( !magic ) cmpv("s", b.s, a.s, d.s, ap);
         for( int k = 0; k < 4; ++k ) cmpv(nm4[k], b.z[k], a.z[k], d.z[k], ad);
         std::string ay = c.s("alpha_for_y", "primal"); if( cg && !c.get("alpha_for_y") ) ay = "acceptor";
         double al = -1, dn = 0; for( double v : d.x ) dn = std::max(dn, std::fabs(v)); for( double v : d.s ) dn = std::max(dn, std::fabs(v));
         double ytol = c.n("alpha_for_y_tol", 10.);
         if( ay == "primal" ) al = ap; else if( ay == "bound-mult" ) al = ad; else if( ay == "min" ) al = std::min(ap, ad); else if( ay == "max" ) al = std::max(ap, ad); else if( ay == "full" ) al = 1;
         else if( ay == "primal-and-full" ) al = dn <= ytol ? 1 : ap; else if( ay == "dual-and-full" ) al = dn <= ytol ? 1 : ad;
         if( al >= 0 ) { cmpv("y_c", b.yc, a.yc, d.yc, al); cmpv("y_d", b.yd, a.yd, d.yd, al); out().stat("y_steps"); }
         else if( ay != "acceptor" ) {   // some common step length in the documented range
            double lo = ay == "safer-min-dual-infeas" ? std::min(ap, ad) : 0, hi = ay == "safer-min-dual-infeas" ? std::max(ap, ad) : 1; double best = 0, t = -1;
            for( int q = 0; q < 2; ++q ) { const Vec& dd = q ? d.yd : d.yc; for( size_t i = 0; i < dd.size(); ++i ) if( std::fabs(dd[i]) > best ) { best = std::fabs(dd[i]); t = ((q ? b.yd : b.yc)[i] - (q ? a.yd : a.yc)[i]) / dd[i]; } }
            double my = 0; for( double v : a.yc ) my = std::max(my, std::fabs(v)); for( double v : a.yd ) my = std::max(my, std::fabs(v));
            double e = best > 0 ? 1e-14 * (my + best) / best : 1; 
            if( best > 0 && e < 1e-6 && (t < lo - 2 * e - 1e-12 || t > hi + 2 * e + 1e-12) ) W.bad("step-y-range", fmt("iter %d: equality multiplier step %g not in [%g,%g]", iter, t, lo, hi));
         }
         if( !cg ) {
            bool soft = ch == 's' || ch == 'S';
            if( soft ) { if( std::fabs(ap - ad) > 1e-15 ) W.bad("soft-steps", fmt("iter %d: soft restoration step sizes %g %g", iter, ap, ad)); }
            else if( std::fabs(ad - dmax) > 1e-12 * dmax ) W.bad("alpha-dual-max", fmt("iter %d: alpha_du %.17g, largest allowed %.17g (%c)", iter, ad, dmax, ch));
            if( ap > amax * (1 + 1e-12) ) W.bad("alpha-primal-max", fmt("iter %d: alpha_pr %.17g, largest allowed %.17g (%c)", iter, ap, amax, ch));
            if( !soft && !restored && (ch == 'f' || ch == 'h' || ch == 'k' || ch == 'n') && ls > 0 && c.s("accept_every_trial_step", "no") == "no" ) {
               double e = amax * std::pow(c.n("alpha_red_factor", 0.5), ls - 1);
               if( std::fabs(ap - e) > 1e-10 * e ) W.bad("alpha-backtracking", fmt("iter %d: alpha_pr %.17g after %d trials from %.17g", iter, ap, ls, amax));
            }
         }
         out().stat("full_steps_checked");
      }
      // filter
      if( W.filterOk && ref && !restored ) {
         double gphi = c.n("gamma_phi", 1e-8), gth = c.n("gamma_theta", 1e-5);
         if( (ch == 's' || ch == 'S') && !W.softResto ) W.filt.push_back({ph - gphi * th, (1 - gth) * th, iter});
         if( ch == 's' ) W.softResto = true;
         double tth = IpCq().trial_constraint_violation(), tph = IpCq().trial_barrier_obj();
         if( ch == 'f' || ch == 'h' || ch == 'F' || ch == 'H' ) {
            if( soc && amax == 0 ) { amax = 1; for( int k = 0; k < 4; ++k ) { Vec pr = proj(k, *del->x(), *del->s()); for( size_t i = 0; i < pr.size(); ++i ) if( pr[i] < 0 ) amax = std::min(amax, -tEff * a.sl[k][i] / pr[i]); } }
            double at = soc ? amax : ap;
            double q = gb < 0 ? at * std::pow(-gb, c.n("s_phi", 2.3)) : -1, qq = c.n("delta", 1.) * std::pow(th, c.n("s_theta", 1.1));
            bool ft = gb < 0 && q > qq, clearF = std::fabs(q - qq) > 1e-9 * (std::fabs(q) + qq);
            double lhs = tph - ph, rhs = c.n("eta_phi", 1e-8) * at * gb, se = 1e-14 * std::max(std::fabs(ph), 1e-10) * 10;
            bool ar = lhs - rhs <= se, clearA = std::fabs(lhs - rhs) > 1e-12 * (std::fabs(ph) + std::fabs(tph)) + 1e-16;
            if( clearF && clearA ) {
               bool isf = ft && ar; char e = isf ? 'f' : 'h';
               if( (ch | 32) != e ) W.bad("step-type", fmt("iter %d: step is of type %c (switching %d, Armijo %d) but reported as %c", iter, e, ft, ar, ch));
               out().stat("types_checked");
            }
            double sl = 1e-12 * (std::fabs(ph) + std::fabs(tph)), st = 1e-12 * th + 1e-300; 
            bool thmin = th <= c.n("theta_min_fact", 1e-4);
            if( ft && clearF && thmin ) { if( !(lhs <= rhs + 10 * sl + 1e-15) ) W.bad("armijo", fmt("iter %d: accepted f-type step without sufficient decrease: phi %.17g -> %.17g, need %g", iter, ph, tph, rhs)); else out().stat("armijo_checked"); }
            else if( !(tth <= (1 - gth) * th + st + 1e-13 * std::max(th, 1e-10) || lhs <= -gphi * th + 10 * sl) && !ar ) W.bad("sufficient-decrease", fmt("iter %d: accepted step reduces neither violation (%.17g -> %.17g) nor barrier function (%.17g -> %.17g)", iter, th, tth, ph, tph));
            checkFilter(iter, "");
            if( ((ch | 32) == 'h') ) W.filt.push_back({ph - gphi * th, (1 - gth) * th, iter});
         }
         else if( ch == 'S' ) { W.softResto = false; checkFilter(iter, "leaving soft restoration"); }
      }
      else if( restored ) W.filt.clear();
   }
   void checkFilter(int iter, const char* what) {
      Watch& W = *w; double tth, tph;
      try { tth = IpCq().trial_constraint_violation(); tph = IpCq().trial_barrier_obj(); } catch( IpoptNLP::Eval_Error& ) { return; }
      out().stat("filter_checks"); out().stat("filter_entries_compared", (double) W.filt.size());
      for( auto& e : W.filt ) if( tph > e.phi + 1e-11 * std::fabs(e.phi) + 1e-14 && tth > e.theta * (1 + 1e-11) + 1e-300 ) {
         W.bad("filter-dominated", fmt("iter %d: accepted point (phi %.17g, theta %.17g) %s is dominated by the entry (%.17g, %.17g) of iteration %d", iter, tph, tth, what, e.phi, e.theta, e.it)); return; }
   }
};

// ---- C08: residual of the primal-dual system formed from the user's functions
void MonLS::direction(const IteratesVector& d) {
   Watch& W = *w; const Nlp& p = *W.p; const Config& c = *W.c; int n = p.n, m = p.m;
   OrigIpoptNLP* on = dynamic_cast<OrigIpoptNLP*>(&IpNLP()); if( !on ) return;
   TNLPAdapter* ad = dynamic_cast<TNLPAdapter*>(GetRawPtr(on->nlp())); if( !ad ) return;
   SmartPtr<const IteratesVector> it = IpData().curr(); double mu = IpData().curr_mu(); int iter = IpData().iter_count();
   double dx_, ds_, dc_, dd_; IpData().getPDPert(dx_, ds_, dc_, dd_);
   Scal sc = expectScaling(p, c);
   auto full = [&](const Vector& v, bool fix) { Vec r(n); ad->ResortX(v, r.data(), fix); return r; };
   auto con = [&](const Vector& cc, const Vector& dd) { Vec r(m, 0.); ad->ResortG(cc, dd, r.data()); return r; };
   auto lift = [&](const Matrix& P, const Vector& v, const Vector& like) { SmartPtr<Vector> t = like.MakeNew(); P.MultVector(1., v, 0., *t); return t; };
   bool slackScal = false; (void) slackScal;
   Vec x = full(*it->x(), true), dx = full(*d.x(), false), y = con(*it->y_c(), *it->y_d()), dy = con(*d.y_c(), *d.y_d());
   Vec s = con(*IpCq().curr_c(), *it->s()), dsv; { SmartPtr<Vector> zc = it->y_c()->MakeNew(); zc->Set(0.); dsv = con(*zc, *d.s()); s = con(*zc, *it->s()); }
   Vec Z[4], DZ[4], S[4], has[4];   // expanded to user indices
   const Matrix* P[4] = {GetRawPtr(IpNLP().Px_L()), GetRawPtr(IpNLP().Px_U()), GetRawPtr(IpNLP().Pd_L()), GetRawPtr(IpNLP().Pd_U())};
   SmartPtr<const Vector> zz[4] = {it->z_L(), it->z_U(), it->v_L(), it->v_U()}, dz[4] = {d.z_L(), d.z_U(), d.v_L(), d.v_U()};
   SmartPtr<const Vector> sl[4] = {IpCq().curr_slack_x_L(), IpCq().curr_slack_x_U(), IpCq().curr_slack_s_L(), IpCq().curr_slack_s_U()};
   SmartPtr<Vector> zc0 = it->y_c()->MakeNew(); zc0->Set(0.);
   for( int k = 0; k < 4; ++k ) {
      SmartPtr<Vector> one = zz[k]->MakeNew(); one->Set(1.);
      auto ex = [&](const Vector& v) { SmartPtr<Vector> t = lift(*P[k], v, k < 2 ? *it->x() : *it->s()); return k < 2 ? full(*t, false) : con(*zc0, *t); };
      Z[k] = ex(*zz[k]); DZ[k] = ex(*dz[k]); S[k] = ex(*sl[k]); has[k] = ex(*one);
   }
   bool rem = fixedRemoved(p, c);
   Vec lw(m), dlw(m); for( int i = 0; i < m; ++i ) { lw[i] = sc.dg[i] * y[i]; dlw[i] = sc.dg[i] * dy[i]; }
   double kd = c.n("kappa_d", 1e-5) * mu;
   Vec H, J; p.H(x.data(), sc.df, lw.data(), H); p.J(x.data(), J);
   bool lim = c.s("hessian_approximation", "exact") == "limited-memory";
   Vec Wd(n, 0.);
   if( lim ) { SmartPtr<Vector> t = it->x()->MakeNew(); IpData().W()->MultVector(1., *d.x(), 0., *t); Wd = full(*t, false); }
   else for( int j = 0; j < n; ++j ) for( int k = 0; k < n; ++k ) Wd[j] += H[j * n + k] * dx[k];
   double nres = 0, nrhs = 0, nsol = 0; std::string where; double worst = 0; std::vector<std::pair<double, double> > rows;
   auto row = [&](double lhs, double rhs, double abs, const char* nmr, int i) { double r = std::fabs(lhs + rhs) - 1e-13 * abs; nrhs = std::max(nrhs, std::fabs(rhs)); if( !(r <= nres) ) { nres = r; where = fmt("%s[%d]", nmr, i); } worst = std::max(worst, r); rows.push_back({std::fabs(lhs + rhs), abs + std::fabs(rhs)}); };
   Vec gl(n, 0.), ga(n, 0.); p.f.grad(x.data(), sc.df, gl.data(), ga.data()); for( int i = 0; i < m; ++i ) p.g[i].grad(x.data(), lw[i], gl.data(), ga.data());
   for( int j = 0; j < n; ++j ) {
      if( rem && p.fixed(j) ) continue;
      double rhs = gl[j] - Z[0][j] + Z[1][j]; if( has[0][j] && !has[1][j] ) rhs += kd; if( !has[0][j] && has[1][j] ) rhs -= kd;
      double l = Wd[j], ab = ga[j] + std::fabs(Wd[j]) + Z[0][j] + Z[1][j]; for( int k = 0; k < n; ++k ) ab += std::fabs(H[j * n + k] * dx[k]);
      for( int i = 0; i < m; ++i ) { l += J[i * n + j] * dlw[i]; ab += std::fabs(J[i * n + j] * dlw[i]); }
      l += -DZ[0][j] + DZ[1][j] + dx_ * dx[j]; ab += std::fabs(DZ[0][j]) + std::fabs(DZ[1][j]);
      row(l, rhs, ab, "x", j);
      for( int k = 0; k < 2; ++k ) if( has[k][j] ) row((k ? -1 : 1) * Z[k][j] * dx[j] + S[k][j] * DZ[k][j], S[k][j] * Z[k][j] - mu, std::fabs(Z[k][j] * dx[j]) + std::fabs(S[k][j] * DZ[k][j]) + mu, k ? "z_U" : "z_L", j);
   }
   for( int i = 0; i < m; ++i ) {
      double ga2; double g = p.g[i].val(x.data(), &ga2), jd = 0, ja = 0; for( int k = 0; k < n; ++k ) jd += J[i * n + k] * dx[k], ja += std::fabs(J[i * n + k] * dx[k]);
      if( p.iseq(i) ) row(sc.dg[i] * jd - dc_ * dy[i], sc.dg[i] * (g - p.gl[i]), sc.dg[i] * (ga2 + ja + std::fabs(p.gl[i])), "c", i);
      else {
         row(sc.dg[i] * jd - dsv[i] - dd_ * dy[i], sc.dg[i] * g - s[i], sc.dg[i] * (ga2 + ja) + std::fabs(s[i]), "d", i);
         double rhs = -y[i] - Z[2][i] + Z[3][i]; if( has[2][i] && !has[3][i] ) rhs += kd; if( !has[2][i] && has[3][i] ) rhs -= kd;
         row(-dy[i] - DZ[2][i] + DZ[3][i] + ds_ * dsv[i], rhs, std::fabs(y[i]) + std::fabs(dy[i]) + Z[2][i] + Z[3][i], "s", i);
         for( int k = 2; k < 4; ++k ) if( has[k][i] ) row((k == 3 ? -1 : 1) * Z[k][i] * dsv[i] + S[k][i] * DZ[k][i], S[k][i] * Z[k][i] - mu, std::fabs(Z[k][i] * dsv[i]) + std::fabs(S[k][i] * DZ[k][i]) + mu, k == 3 ? "v_U" : "v_L", i);
      }
   }
   nsol = d.Amax();
   double ratio = nrhs + nsol == 0 ? nres : nres / (std::min(nsol, 1e6 * nrhs) + nrhs);
   out().stat("directions"); if( ratio > 1e-9 ) out().stat("directions_inaccurate");
   if( dx_ > 0 ) out().stat("directions_regularised"); if( dc_ > 0 ) out().stat("directions_delta_c");
   double mabs = 0, comp = 0; for( auto& q : rows ) mabs = std::max(mabs, q.second); for( auto& q : rows ) comp = std::max(comp, q.first / (q.second + 1e-3 * mabs + 1e-300)); if( std::isnan(nres) ) comp = 1;
   bool judged = comp > 1e-4 && nrhs < 1e14 && nsol < 1e9 * (1 + nrhs); if( !judged && ratio > 1e-5 ) out().stat("directions_not_judged");
   bool wrong = judged && !(ratio <= 1e-5);
   if( wrong ) out().stat("directions_bad");
   std::string msg = wrong ? fmt("iter %d: relative residual %.3g in %s (residual %g, rhs %g, step %g, delta_x %g delta_c %g, mu %g)", iter, ratio, where.c_str(), nres, nrhs, nsol, dx_, dc_, mu) : std::string();
   if( wrong && !lim ) W.bad("direction-residual", msg);
   if( lim ) {   // large low-rank terms that cancel limit the accuracy
      double vm = 1e300; const LowRankUpdateSymMatrix* lr = dynamic_cast<const LowRankUpdateSymMatrix*>(GetRawPtr(IpData().W()));
      if( lr ) { vm = 0; SmartPtr<const MultiVectorMatrix> mv[2] = {lr->GetV(), lr->GetU()}; for( int k = 0; k < 2; ++k ) if( IsValid(mv[k]) ) for( Index q = 0; q < mv[k]->NCols(); ++q ) vm = std::max(vm, mv[k]->GetVector(q)->Amax()); }
      double dg = 1; if( lr && IsValid(lr->GetDiag()) ) dg = lr->GetDiag()->Amax();
      if( !(vm * vm <= 1e5 * std::min(1., dg)) ) { out().stat("lowrank_not_judged"); return; }
   }
   if( lim ) {   // the quasi-Newton matrix in the user's indices
      H.assign((size_t) n * n, 0.); Index nn = it->x()->Dim(); SmartPtr<Vector> e = it->x()->MakeNew(), yv = it->x()->MakeNew();
      for( Index q = 0; q < nn; ++q ) { Vec u(nn, 0.); u[q] = 1; TripletHelper::PutValuesInVector(nn, u.data(), *e); IpData().W()->MultVector(1., *e, 0., *yv); Vec eu = full(*e, false), col = full(*yv, false); int j = 0; while( j < n && eu[j] == 0 ) ++j; if( j < n ) for( int i = 0; i < n; ++i ) H[i * n + j] = col[i]; }
   }
   double regu = IpData().info_regu_x(); if( regu != dx_ ) W.bad("regularisation-reported", fmt("iter %d: reported regularisation %g, used %g", iter, regu, dx_));
   if( c.get("neg_curv_test_tol") && !wrong ) return;
   // inertia of the matrix with the user's derivatives
   std::vector<int> xi; for( int j = 0; j < n; ++j ) if( !(rem && p.fixed(j)) ) xi.push_back(j);
   std::vector<int> di; for( int i = 0; i < m; ++i ) if( !p.iseq(i) ) di.push_back(i);
   int nx = xi.size(), ns = di.size(), N = nx + ns + m; if( N > 60 ) return; std::vector<double> A((size_t) N * N, 0.);
   for( int a = 0; a < nx; ++a ) { int j = xi[a]; for( int b = 0; b < nx; ++b ) A[a * N + b] = H[j * n + xi[b]]; for( int k = 0; k < 2; ++k ) if( has[k][j] ) A[a * N + a] += Z[k][j] / S[k][j]; A[a * N + a] += dx_; }
   for( int a = 0; a < ns; ++a ) { int i = di[a]; double v = ds_; for( int k = 2; k < 4; ++k ) if( has[k][i] ) v += Z[k][i] / S[k][i]; A[(nx + a) * N + nx + a] = v; A[(nx + a) * N + nx + ns + i] = A[(nx + ns + i) * N + nx + a] = -1; }
   for( int i = 0; i < m; ++i ) { for( int a = 0; a < nx; ++a ) A[(nx + ns + i) * N + a] = A[a * N + nx + ns + i] = sc.dg[i] * J[i * n + xi[a]]; A[(nx + ns + i) * N + nx + ns + i] = -(p.iseq(i) ? dc_ : dd_); }
   bool clear; int neg = negEig(N, A, clear);
   if( clear && lim && wrong ) W.bad("direction-residual", msg);   // (low-rank solutions may be inaccurate for nearly singular systems)
   if( clear && !(lim && p.unbounded) && !c.get("neg_curv_test_tol") ) { out().stat(lim ? "inertia_checked_lowrank" : "inertia_checked"); if( neg != m ) W.bad("wrong-inertia", fmt("iter %d: matrix of the accepted direction has %d negative eigenvalues, %d constraints (delta_x %g)", iter, neg, m, dx_)); }
}

static bool dense(const SymMatrix& A, const Vector& like, std::vector<double>& D) {
   int N = A.Dim(); D.assign((size_t) N * N, 0.); SmartPtr<Vector> e = like.MakeNew(), y = like.MakeNew(); Vec v(N); bool fin = true;
   for( int j = 0; j < N; ++j ) { Vec u(N, 0.); u[j] = 1; TripletHelper::PutValuesInVector(N, u.data(), *e); A.MultVector(1., *e, 0., *y); TripletHelper::FillValuesFromVector(N, *y, v.data()); for( int i = 0; i < N; ++i ) { D[(size_t) i * N + j] = v[i]; fin = fin && std::isfinite(v[i]); } }
   return fin;
}
static bool wellCond(const SymMatrix& A, const Vector& like) { std::vector<double> D; if( !dense(A, like, D) ) return false; bool clear; negEig(A.Dim(), D, clear); return clear; }
struct MonSym : public SymLinearSolver {
   SmartPtr<SymLinearSolver> in; Watch* w; TaggedObject::Tag lastTag = TaggedObject::Tag();
   MonSym(SmartPtr<SymLinearSolver> i, Watch* q) : in(i), w(q) {}
   bool InitializeImpl(const OptionsList& o, const std::string& pre) override { return HaveIpData() ? in->Initialize(Jnlst(), IpNLP(), IpData(), IpCq(), o, pre) : in->ReducedInitialize(Jnlst(), o, pre); }
   ESymSolverStatus MultiSolve(const SymMatrix& A, std::vector<SmartPtr<const Vector> >& rhs, std::vector<SmartPtr<Vector> >& sol, bool chk, Index nneg) override {
      ESymSolverStatus st = in->MultiSolve(A, rhs, sol, chk, nneg);
      TaggedObject::Tag tg = A.GetTag(); bool newA = tg != lastTag; lastTag = tg;
      out().stat("linear_solves");
      if( st == SYMSOLVER_SINGULAR ) out().stat("singular"); if( st == SYMSOLVER_WRONG_INERTIA ) out().stat("wrong_inertia_answers");
      int N = A.Dim(); double na = -1;
      if( st == SYMSOLVER_SUCCESS ) {
         
         if( newA && chk && in->ProvidesInertia() && in->NumberOfNegEVals() != nneg ) w->bad("inertia-not-checked", fmt("success with %d negative eigenvalues, %d requested", (int) in->NumberOfNegEVals(), (int) nneg));
         for( size_t k = 0; k < rhs.size(); ++k ) {
            SmartPtr<Vector> r = rhs[k]->MakeNewCopy(); A.MultVector(1., *sol[k], -1., *r);
            double nr = r->Amax(), nb = rhs[k]->Amax(), ns = sol[k]->Amax();
            out().stat("systems_checked");
            if( na < 0 ) { Index nz = TripletHelper::GetNumberEntries(A); Vec av(nz); if( nz ) TripletHelper::FillValues(nz, A, av.data()); na = 0; for( double q : av ) na = std::max(na, std::fabs(q)); }
            if( !(ns < 1e30 && na < 1e30 && nb < 1e30) ) { out().stat("nonfinite_solutions"); continue; }
            if( !(nr <= 1e-4 * (na * ns + nb)) ) out().stat("systems_bad");
            if( !(nr <= 1e-4 * (na * ns + nb)) && N <= 60 && wellCond(A, *rhs[0]) ) w->bad("system-not-solved", fmt("%d x %d system: residual %g, |b| %g, |x| %g, |A| %g", N, N, nr, nb, ns, na));
            if( nr > 1e-9 * (na * ns + nb) ) out().stat("systems_inaccurate");
         }
      }
      if( N <= 50 && (st == SYMSOLVER_SUCCESS || st == SYMSOLVER_WRONG_INERTIA) && in->ProvidesInertia() && w->r->chance(0.3) ) {
         std::vector<double> D((size_t) N * N); SmartPtr<Vector> e = rhs[0]->MakeNew(), y = rhs[0]->MakeNew(); Vec v(N);
         for( int j = 0; j < N; ++j ) { Vec u(N, 0.); u[j] = 1; TripletHelper::PutValuesInVector(N, u.data(), *e); A.MultVector(1., *e, 0., *y); TripletHelper::FillValuesFromVector(N, *y, v.data()); for( int i = 0; i < N; ++i ) D[(size_t) i * N + j] = v[i]; }
         for( int i = 0; i < N; ++i ) for( int j = 0; j < i; ++j ) if( std::fabs(D[i * N + j] - D[j * N + i]) > 1e-12 * (std::fabs(D[i * N + j]) + 1e-300) && std::isfinite(D[i * N + j]) ) { w->bad("asymmetric", fmt("entry (%d,%d) %g and %g", i, j, D[i * N + j], D[j * N + i])); i = N; break; }
         bool clear; int neg = negEig(N, D, clear);
         if( clear ) { out().stat("solver_inertia_checked"); if( neg != in->NumberOfNegEVals() && (st == SYMSOLVER_SUCCESS || chk) ) w->bad("solver-inertia", fmt("solver reports %d negative eigenvalues, matrix has %d (size %d, status %d)", (int) in->NumberOfNegEVals(), neg, N, (int) st)); }
         if( clear && st == SYMSOLVER_WRONG_INERTIA && chk && neg == nneg ) w->bad("inertia-refused", fmt("matrix with the %d requested negative eigenvalues refused", (int) nneg));
      }
      return st;
   }
   Index NumberOfNegEVals() const override { return in->NumberOfNegEVals(); }
   bool IncreaseQuality() override { out().stat("increase_quality"); return in->IncreaseQuality(); }
   bool ProvidesInertia() const override { return in->ProvidesInertia(); }
};
struct MonBuilder : public AlgorithmBuilder {
   Watch* w; bool sym;
   MonBuilder(Watch* q, bool s) : w(q), sym(s) {}
   SmartPtr<LineSearch> BuildLineSearch(const Journalist& j, const OptionsList& o, const std::string& p) override { SmartPtr<LineSearch> l = AlgorithmBuilder::BuildLineSearch(j, o, p); return new MonLS(l, w); }
   SmartPtr<SymLinearSolver> SymLinearSolverFactory(const Journalist& j, const OptionsList& o, const std::string& p) override { SmartPtr<SymLinearSolver> s = AlgorithmBuilder::SymLinearSolverFactory(j, o, p); if( sym ) return new MonSym(s, w); return s; }
};

static double it0max(IpoptData& d) { double m = std::max(d.curr()->x()->Amax(), d.curr()->z_L()->Amax()); return std::isfinite(m) ? m : 1e300; }
static void iterRules(Watch& W, MonTNLP&, IterRec& r, const IpoptData* cd, IpoptCalculatedQuantities* cq) {
   IpoptData& d = const_cast<IpoptData&>(*cd); bool resto = r.mode == RestorationPhaseMode; const Config& c = *W.c;
   if( resto ) out().stat("resto_iterates");
   if( !(std::fabs(r.obj) < 1e20 && it0max(d) < 1e20) ) W.huge = true;
   W.lastCh = d.info_alpha_primal_char();   // 'R': a restoration inside the restoration phase follows
   if( W.huge ) { out().stat("iterates_with_huge_numbers"); W.c06 = false; W.lastIter = r.iter; W.lastWasResto = resto; return; }
   // iteration counter
   if( W.lastIter >= 0 ) {
      bool ok = r.iter == W.lastIter + 1 || (!resto && W.lastWasResto && r.iter == W.lastIter);   // the restored point takes the number of the last restoration iterate
      if( !ok ) W.bad("iteration-number", fmt("iteration %d (%s) after %d (%s)", r.iter, resto ? "restoration" : "regular", W.lastIter, W.lastWasResto ? "restoration" : "regular"));
   }
   else if( r.iter != 0 ) W.bad("iteration-number", fmt("first iteration is %d", r.iter));
   bool firstResto = resto != W.lastWasResto;
   W.lastIter = r.iter; W.lastWasResto = resto;
   out().stat("iterates");
   SmartPtr<const IteratesVector> it = d.curr();
   Vec z[4] = {vals(*it->z_L()), vals(*it->z_U()), vals(*it->v_L()), vals(*it->v_U())};
   Vec s[4] = {vals(*cq->curr_slack_x_L()), vals(*cq->curr_slack_x_U()), vals(*cq->curr_slack_s_L()), vals(*cq->curr_slack_s_U())};
   bool square = false; { int nf = 0; for( int j = 0; j < W.p->n; ++j ) nf += !W.p->fixed(j); int ne = 0; for( int i = 0; i < W.p->m; ++i ) ne += W.p->iseq(i); square = ne >= nf; }
   if( square ) out().stat("iterates_of_square_problems");
   double mu = d.curr_mu(), ks = c.n("kappa_sigma", 1e10);
   if( r.iter > 0 && !(mu > 0) ) W.bad("mu-not-positive", fmt("iter %d: mu %g", r.iter, mu));
   for( int k = 0; k < 4; ++k ) for( size_t i = 0; i < z[k].size(); ++i ) {
      if( !(s[k][i] > 0) ) W.bad("iter-slack-not-positive", fmt("iter %d%s: slack %s[%d] = %g", r.iter, resto ? "r" : "", nm4[k], (int) i, s[k][i]));
      if( square && z[k][i] == 0 ) continue;   // multipliers of a feasibility problem are replaced at its end
      if( !(z[k][i] > 0) ) W.bad("iter-mult-not-positive", fmt("iter %d%s: multiplier %s[%d] = %g", r.iter, resto ? "r" : "", nm4[k], (int) i, z[k][i]));
      if( r.iter > 0 && !firstResto && ks >= 1 && !d.FreeMuMode() ) {
         double cp = z[k][i] * s[k][i]; double e = 1e-3 + 1e-15 * (1 + it->x()->Amax() + it->s()->Amax()) / s[k][i]; if( e > 0.5 || z[k][i] > 1e10 ) continue;   // bounds adjusted to tiny slacks are rounded
         if( cp > ks * mu * (1 + e) + 1e-300 || cp < mu / ks * (1 - e) ) W.bad("kappa-sigma", fmt("iter %d%s: multiplier*slack %s[%d] = %g outside [mu/kappa, kappa*mu], mu %g, kappa_sigma %g, slack %g, max %g", r.iter, resto ? "r" : "", nm4[k], (int) i, cp, mu, ks, s[k][i], std::max(it->x()->Amax(), it->s()->Amax())));
         out().stat("kappa_sigma_checks");
      }
   }
   if( r.iter > 0 && !firstResto ) {
      if( !(r.ap > 0 && r.ap <= 1) && !(r.ap == 0 && resto && W.lastCh == 'R') && c.s("line_search_method", "filter") != "cg-penalty" ) W.bad("callback-alpha-primal", fmt("iter %d%s: alpha_pr %g", r.iter, resto ? "r" : "", r.ap));
      if( !(r.ad >= 0 && r.ad <= 1) ) W.bad("callback-alpha-dual", fmt("iter %d%s: alpha_du %g", r.iter, resto ? "r" : "", r.ad));
   }
}
static void run1(Rng& r, bool c06, bool c08) {
   Nlp p; double u = r.u01();
   p = u < 0.25 ? genConvex(r) : u < 0.6 ? genNonconvex(r) : u < 0.65 ? genLP(r) : u < 0.75 ? genDegenerate(r) : u < 0.8 ? genSquare(r) : genAny(r);
   CfgOpt o; o.mehrotra = c06 && r.chance(0.1); Config c = randConfig(r, o); c.I("max_iter", r.picki({40, 150}));
   if( c08 ) {
      if( c.s("fixed_variable_treatment", "") == "make_constraint" ) c.rm("fixed_variable_treatment");
      c.rm("fast_step_computation"); c.rm("corrector_type"); c.rm("skip_corr_if_neg_curv");
      if( c.s("line_search_method", "") != "" ) c.rm("line_search_method");
      if( r.chance(0.15) ) c.S("neg_curv_test_tol_", "x"), c.rm("neg_curv_test_tol_"), c.N("neg_curv_test_tol", 1e-11);
      if( r.chance(0.1) ) c.N("perturb_dec_fact", 0.5);
      if( r.chance(0.1) ) c.I("max_refinement_steps", r.picki({1, 5, 20}));
      if( r.chance(0.1) ) c.N("mumps_pivtol", r.pickd({1e-6, 0.01, 0.5}));
      if( r.chance(0.2) && !c.get("limited_memory_max_history") ) {}
   }
   else {
      if( r.chance(0.3) ) c.I("watchdog_shortened_iter_trigger", 0);
      if( r.chance(0.4) ) { c.I("watchdog_shortened_iter_trigger", 0); c.I("max_filter_resets", 0); for( const char* k : {"corrector_type", "accept_every_trial_step", "magic_steps", "line_search_method", "mehrotra_algorithm"} ) c.rm(k); }
      if( r.chance(0.1) ) c.N("alpha_red_factor", r.uni(0.2, 0.8));
      if( r.chance(0.1) ) c.N("gamma_theta", r.logu(1e-6, 1e-1)); if( r.chance(0.1) ) c.N("gamma_phi", r.logu(1e-9, 1e-2)); if( r.chance(0.1) ) c.N("eta_phi", r.logu(1e-9, 0.4));
      if( r.chance(0.1) ) c.N("mu_max", r.pickd({1e-1, 10})); if( r.chance(0.1) ) c.N("mu_min", r.pickd({1e-13, 1e-9}));
      if( r.chance(0.1) ) c.N("barrier_tol_factor", r.pickd({0.1, 100})); if( r.chance(0.1) ) c.N("mu_superlinear_decrease_power", r.uni(1.1, 1.9));
      if( r.chance(0.1) ) c.N("soft_resto_pderror_reduction_factor", r.pickd({0, 0.5})); 
      if( r.chance(0.05) ) c.N("mu_target", r.pickd({1e-6, 1e-4}));
   }
   out().sig(hmix(p.sig(), c.sig())); out().sample(p.descr() + " | " + c.str());
   Watch W; W.p = &p; W.c = &c; W.c06 = c06; W.c08 = c08; W.r = &r;
   { int nf = 0, ne = 0; for( int j = 0; j < p.n; ++j ) nf += !p.fixed(j) || !fixedRemoved(p, c); for( int i = 0; i < p.m; ++i ) ne += p.iseq(i); for( int j = 0; j < p.n; ++j ) ne += p.fixed(j) && c.s("fixed_variable_treatment", "") == "make_constraint"; W.square = ne >= nf; }
   W.filterOk = c.s("line_search_method", "filter") == "filter" && c.i("watchdog_shortened_iter_trigger", 10) == 0 && c.s("corrector_type", "none") == "none" && c.s("accept_every_trial_step", "no") == "no" && c.i("max_filter_resets", 5) == 0 && c.s("magic_steps", "no") == "no" && c.s("mehrotra_algorithm", "no") == "no";
   SmartPtr<MonTNLP> t = new MonTNLP(p, c); t->contract = false; t->wantIter = false;
   if( c06 ) t->onIter = [&](MonTNLP& q, IterRec& rr, const IpoptData* d, IpoptCalculatedQuantities* cq) { iterRules(W, q, rr, d, cq); return true; };
   SmartPtr<IpoptApplication> app = newApp(c); if( app->Initialize("") != Solve_Succeeded ) return;
   SmartPtr<NLP> nlp = new TNLPAdapter(SmartPtr<TNLP>(GetRawPtr(t)), ConstPtr(app->Jnlst()));
   SmartPtr<AlgorithmBuilder> b = new MonBuilder(&W, c08);
   ApplicationReturnStatus st = app->OptimizeNLP(nlp, b);
   out().stat("solves"); out().stat(fmt("ret%d", (int) st));
}
static void c06(Rng& r, long) { run1(r, true, false); }
static void filterModel(Rng& r) {   // the Filter class against a list of all pairs
   Filter f(2); std::vector<std::pair<double, double> > all; int N = r.ri(1, 60);
   for( int k = 0; k < N; ++k ) {
      double a = r.ri(-5, 5) + (r.chance(0.3) ? r.u01() : 0), b = r.ri(0, 6) + (r.chance(0.3) ? r.u01() : 0);
      if( r.chance(0.03) ) { f.Clear(); all.clear(); }
      bool want = true; for( auto& e : all ) if( a > e.first && b > e.second ) want = false;
      if( f.Acceptable(a, b) != want ) { out().viol("", "filter-class", fmt("pair (%.17g,%.17g) acceptable=%d, expected %d with %d entries added", a, b, !want, want, (int) all.size())); return; }
      out().stat("filter_class_queries"); if( r.chance(0.5) ) { f.AddEntry(a, b, k); all.push_back({a, b}); }
   }
}
static void c06f(Rng& r, long) { for( int k = 0; k < 20; ++k ) filterModel(r); }
static void c08(Rng& r, long) { run1(r, false, true); }
// triplet to compressed formats against a dense sum
static void c08t(Rng& r, long) {
   for( int rep = 0; rep < 10; ++rep ) {
      int n = r.ri(1, 12), nz = r.ri(0, 40); bool full = r.chance(0.4); int off = r.ri(0, 1); std::vector<Index> ir, jc; Vec v; std::map<std::pair<int, int>, double> D;
      for( int i = 0; i < n; ++i ) { ir.push_back(i + 1); jc.push_back(i + 1); v.push_back(r.gauss()); }
      for( int k = 0; k < nz; ++k ) { ir.push_back(r.ri(1, n)); jc.push_back(r.ri(1, n)); v.push_back(r.gauss()); }
      for( size_t k = v.size(); k-- > 1; ) { size_t q = r.ri(0, (int) k); std::swap(ir[k], ir[q]); std::swap(jc[k], jc[q]); std::swap(v[k], v[q]); }
      if( r.chance(0.3) ) { for( size_t k = 0; k < v.size(); ++k ) if( ir[k] < jc[k] ) std::swap(ir[k], jc[k]); }
      for( size_t k = 0; k < v.size(); ++k ) { int a = ir[k] - 1, b = jc[k] - 1; if( !full ) { if( a > b ) std::swap(a, b); D[{a, b}] += v[k]; } else { D[{a, b}] += v[k]; if( a != b ) D[{b, a}] += v[k]; } }
      TripletToCSRConverter cv(off, full ? TripletToCSRConverter::Full_Format : TripletToCSRConverter::Triangular_Format);
      Index nc = cv.InitializeConverter(n, (Index) v.size(), ir.data(), jc.data());
      if( nc != (Index) D.size() ) { out().viol("", "csr-nonzeros", fmt("%d nonzeros instead of %d (n=%d nz=%d full=%d)", (int) nc, (int) D.size(), n, (int) v.size(), full)); continue; }
      for( int pass = 0; pass < 2; ++pass ) {
         if( pass ) { D.clear(); for( double& q : v ) q = r.gauss(); for( size_t k = 0; k < v.size(); ++k ) { int a = ir[k] - 1, b = jc[k] - 1; if( !full ) { if( a > b ) std::swap(a, b); D[{a, b}] += v[k]; } else { D[{a, b}] += v[k]; if( a != b ) D[{b, a}] += v[k]; } } }
         Vec cvals(nc); cv.ConvertValues((Index) v.size(), v.data(), nc, cvals.data());
         const Index* ia = cv.IA(); const Index* ja = cv.JA(); bool ok = ia[0] == off && ia[n] == nc + off; std::map<std::pair<int, int>, double> E;
         for( int i = 0; ok && i < n; ++i ) for( Index k = ia[i] - off; k < ia[i + 1] - off; ++k ) { int j = ja[k] - off; if( j < 0 || j >= n || (k > ia[i] - off && ja[k] <= ja[k - 1]) || (!full && j < i) ) ok = false; E[{i, j}] += cvals[k]; }
         if( !ok || E.size() != D.size() ) { out().viol("", "csr-structure", fmt("malformed compressed structure (n=%d nz=%d full=%d off=%d)", n, (int) v.size(), full, off)); break; }
         for( auto& e : D ) if( !E.count(e.first) || std::fabs(E[e.first] - e.second) > 1e-12 * (1 + std::fabs(e.second)) ) { out().viol("", "csr-value", fmt("entry (%d,%d) is %g, expected %g", e.first.first, e.first.second, E[e.first], e.second)); break; }
         out().stat("csr_entries", (double) D.size());
      }
      out().sig(hmix(n * 100 + nz, full * 2 + off));
   }
}
int main(int argc, char** argv) {
   Args a = parse(argc, argv);
   if( a.mode == "c06" ) runCases(a, c06); else if( a.mode == "c06f" ) runCases(a, c06f); else if( a.mode == "c08" ) runCases(a, c08); else if( a.mode == "c08t" ) runCases(a, c08t); else return 7;
   return 0;
}
