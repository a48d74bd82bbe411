// Independent recomputation of the documented optimality measures.
#pragma once
#include "tnlp.hpp"

namespace mon {
struct Scal { double df = 1; Vec dx, dg; };

/// are fixed variables removed from the problem the algorithm sees?
inline bool fixedRemoved(const Nlp& p, const Config& c) {
   std::string f = c.s("fixed_variable_treatment", "make_parameter");
   return (f == "make_parameter" || f == "make_parameter_nodual") && (p.nfix() == p.n || !(p.nfix() && p.n - p.nfix() < p.neq()));
}
/// scaling factors as documented
inline Scal expectScaling(const Nlp& p, const Config& c) {
   Scal s; s.dx.assign(p.n, 1.); s.dg.assign(p.m, 1.);
   std::string meth = c.s("nlp_scaling_method", "gradient-based");
   if( meth == "user-scaling" ) {
      s.df = p.objscal; if( p.usex ) s.dx = p.xs; if( p.useg ) s.dg = p.gs;
   }
   else if( meth == "gradient-based" ) {
      double mg = c.n("nlp_scaling_max_gradient", 100.), mn = c.n("nlp_scaling_min_value", 1e-8), to = c.n("nlp_scaling_obj_target_gradient", 0.), tc = c.n("nlp_scaling_constr_target_gradient", 0.);
      bool rem = fixedRemoved(p, c);
      Vec x = p.x0; for( int j = 0; j < p.n; ++j ) if( p.fixed(j) && rem ) x[j] = p.xl[j];
      Vec g(p.n, 0.); p.f.grad(x.data(), 1., g.data());
      double mx = 0; for( int j = 0; j < p.n; ++j ) if( !(rem && p.fixed(j)) ) mx = std::max(mx, std::fabs(g[j]));
      if( to == 0 ) { if( mx > mg ) s.df = mg / mx; } else if( mx > 0 ) s.df = to / mx;
      s.df = std::max(s.df, mn);
      Vec J; p.J(x.data(), J); Vec row(p.m, 0.);
      for( auto& e : p.jac ) if( !(rem && p.fixed(e.j)) && e.w != 0 ) row[e.i] = std::max(row[e.i], std::fabs(e.w * J[(size_t) e.i * p.n + e.j]));
      bool mkc = !rem && c.s("fixed_variable_treatment", "make_parameter") == "make_constraint" && p.nfix();
      for( int eq = 0; eq < 2; ++eq ) {
         double am = 0; for( int i = 0; i < p.m; ++i ) if( p.iseq(i) == (eq == 1) ) am = std::max(am, row[i]);
         if( eq && mkc ) am = std::max(am, 1.);
         for( int i = 0; i < p.m; ++i ) if( p.iseq(i) == (eq == 1) ) {
            if( tc > 0 ) s.dg[i] = std::max(mn, am > 0 ? tc / am : 1.);
            else if( am > mg && row[i] > mg ) s.dg[i] = std::max(mn, mg / row[i]);
         }
      }
   }
   s.df *= c.n("obj_scaling_factor", 1.);
   return s;
}

struct Tol { double tol, dual, con, com; };
inline Tol finalTol(const Config& c) { return {c.n("tol", 1e-8), c.n("dual_inf_tol", 1.), c.n("constr_viol_tol", 1e-4), c.n("compl_inf_tol", 1e-4)}; }
inline Tol accTol(const Config& c) { return {c.n("acceptable_tol", 1e-6), c.n("acceptable_dual_inf_tol", 1e10), c.n("acceptable_constr_viol_tol", 0.01), c.n("acceptable_compl_inf_tol", 0.01)}; }

struct KktErr { double dual = 0, con = 0, com = 0, sdual = 0, scon = 0, scom = 0, sd = 1, sc = 1; };

/// "" if (x,zl,zu,lam) satisfies the optimality tolerances on the user's problem
/// fac: all limits multiplied by fac (slop)
inline std::string kktCheck(const Nlp& p, const Config& c, const Tol& t, const Scal& sc, const Vec& x, const Vec& zl, const Vec& zu, const Vec& lam, double fac = 1.001, bool feasOnly = false, KktErr* ke = nullptr, double dms = 0) {
   int n = p.n, m = p.m;
   std::string fvt = c.s("fixed_variable_treatment", "make_parameter");
   bool rem = fixedRemoved(p, c), nodual = rem && fvt == "make_parameter_nodual";
   bool honor = c.s("honor_original_bounds", "no") == "yes";
   for( int j = 0; j < n; ++j ) if( !std::isfinite(x[j]) || !std::isfinite(zl[j]) || !std::isfinite(zu[j]) ) return fmt("non-finite primal/dual value at %d", j);
   for( int i = 0; i < m; ++i ) if( !std::isfinite(lam[i]) ) return fmt("non-finite multiplier %d", i);
   double adf = std::fabs(sc.df);
   double sgn = sc.df < 0 ? -1 : 1;    // negative factor: maximisation, multipliers are returned for the user's objective
   // average multiplier (upper estimate; the slack multipliers are not handed out)
   double sumy = 0, sumz = 0; int cy = 0, cz = 0;
   for( int i = 0; i < m; ++i ) {
      double a = std::fabs(lam[i]) * adf / sc.dg[i]; sumy += a; ++cy;
      if( !p.iseq(i) ) { sumz += 1.05 * a + 0.1; cz += Nlp::lo(p.gl[i]) + Nlp::up(p.gu[i]); }
   }
   for( int j = 0; j < n; ++j ) { if( rem && p.fixed(j) ) continue; sumz += (std::fabs(zl[j]) + std::fabs(zu[j])) * adf / sc.dx[j]; cz += Nlp::lo(p.xl[j]) + Nlp::up(p.xu[j]); }
   double sd = std::max(1., (sumy + sumz) / std::max(1, cy + cz) / 100. * 1.05), scc = std::max(1., sumz / std::max(1, cz) / 100. * 1.05);
   if( ke ) { ke->sd = sd; ke->sc = scc; }
   Vec g(m), ga(m); for( int i = 0; i < m; ++i ) g[i] = p.g[i].val(x.data(), &ga[i]);
   Vec r(n, 0.), ra(n, 0.); p.f.grad(x.data(), 1., r.data(), ra.data());
   for( int i = 0; i < m; ++i ) p.g[i].grad(x.data(), lam[i], r.data(), ra.data());
   Vec hon(n, 0.);
   if( honor ) { Vec H; p.H(x.data(), 1., lam.data(), H); for( int j = 0; j < n; ++j ) for( int k = 0; k < n; ++k ) hon[j] += std::fabs(H[j * n + k]) * 1.5 * c.relax(x[k]); }
   std::string why;
   auto chk = [&](double v, double lim, double& rec, const char* what, int idx, double slop) {
      if( v - slop > rec ) rec = v - slop;
      if( !(v <= fac * lim + slop) && why.empty() ) why = fmt("%s[%d] = %.6g exceeds %.6g (+%.2g)", what, idx, v, lim, slop);
   };
   KktErr k;
   for( int i = 0; i < m; ++i ) {
      double v = 0, b = 0;
      if( Nlp::lo(p.gl[i]) && p.gl[i] - g[i] > v ) v = p.gl[i] - g[i], b = p.gl[i];
      if( Nlp::up(p.gu[i]) && g[i] - p.gu[i] > v ) v = g[i] - p.gu[i], b = p.gu[i];
      double slop = (p.iseq(i) ? 0. : 1.0001 * c.relax(b)) + 1e-12 * (ga[i] + std::fabs(b)) + 1e-14;
      if( honor ) { Vec gg(n, 0.); p.g[i].grad(x.data(), 1., gg.data()); for( int j = 0; j < n; ++j ) slop += std::fabs(gg[j]) * 1.5 * c.relax(x[j]); }
      chk(v, t.con, k.con, "constraint violation", i, slop);
      if( !feasOnly ) chk(v * sc.dg[i], t.tol, k.scon, "scaled constraint violation", i, slop * sc.dg[i]);
   }
   bool repl = c.s("replace_bounds", "no") == "yes";
   for( int j = 0; j < n; ++j ) {
      double v = 0, b = 0;
      if( Nlp::lo(p.xl[j]) && p.xl[j] - x[j] > v ) v = p.xl[j] - x[j], b = p.xl[j];
      if( Nlp::up(p.xu[j]) && x[j] - p.xu[j] > v ) v = x[j] - p.xu[j], b = p.xu[j];
      double lim = (p.fixed(j) && fvt == "make_constraint") || repl ? std::min(t.con, t.tol / std::min(1., sc.dx[j])) : 0.;
      chk(v, lim, k.con, "bound violation", j, honor && !repl ? (p.fixed(j) && fvt == "make_constraint" ? 1e-9 : 0.) : 1.0001 * c.relax(b) + 1e-9 * std::max(1., std::fabs(b)));
   }
   if( feasOnly ) { if( ke ) *ke = k; return why; }
   for( int j = 0; j < n; ++j ) {
      if( !(p.fixed(j) && sgn < 0 && fvt != "relax_bounds") && (sgn * zl[j] < 0 || sgn * zu[j] < 0) ) return fmt("negative bound multiplier at variable %d: %g %g", j, zl[j], zu[j]);
      if( !Nlp::lo(p.xl[j]) && zl[j] != 0 ) return fmt("multiplier %g for absent lower bound of variable %d", zl[j], j);
      if( !Nlp::up(p.xu[j]) && zu[j] != 0 ) return fmt("multiplier %g for absent upper bound of variable %d", zu[j], j);
      if( rem && nodual && p.fixed(j) ) { if( zl[j] != 0 || zu[j] != 0 ) return fmt("multiplier for fixed variable %d although duals not requested", j); continue; }
      double v = std::fabs(r[j] - zl[j] + zu[j]);
      double slop = 1e-12 * (ra[j] + std::fabs(zl[j]) + std::fabs(zu[j])) + 1e-14 + hon[j];
      if( rem && p.fixed(j) ) { chk(v, 0., k.dual, "stationarity (fixed variable)", j, slop + 1e-12); continue; }
      chk(v, t.dual, k.dual, "dual infeasibility", j, slop);
      chk(v * adf / sc.dx[j], t.tol * sd, k.sdual, "scaled dual infeasibility", j, slop * adf / sc.dx[j]);
   }
   for( int j = 0; j < n; ++j ) {
      if( p.fixed(j) && (rem || fvt == "make_constraint") ) continue;
      for( int s = 0; s < 2; ++s ) {
         double z = std::fabs(s ? zu[j] : zl[j]), b = s ? p.xu[j] : p.xl[j];
         if( z == 0 || (s ? !Nlp::up(b) : !Nlp::lo(b)) ) continue;
         double sl = s ? b - x[j] : x[j] - b;
         double v = z * sl;     // may be negative within relaxation
         double slop = z * (c.relax(b) * 1.001 + (honor ? c.relax(b) : 0) + 2e-12 * std::max(1., std::fabs(b))) ;
         if( repl ) slop += z * std::min(t.con, t.tol);
         chk(v, t.com, k.com, s ? "upper bound complementarity" : "lower bound complementarity", j, slop);
         chk(v * adf, t.tol * scc, k.scom, s ? "scaled upper complementarity" : "scaled lower complementarity", j, slop * adf);
         // lower side: z*(x - relaxed bound) must be >= 0; nothing to check beyond feasibility
      }
   }
   for( int i = 0; i < m; ++i ) {
      if( p.iseq(i) ) continue;
      double l = sgn * lam[i]; bool up = l > 0; double a = std::fabs(l);
      double b = up ? p.gu[i] : p.gl[i];
      bool has = up ? Nlp::up(b) : Nlp::lo(b);
      if( !has ) {
         chk(a, t.dual, k.dual, "multiplier sign of inequality", i, 1e-14);
         chk(a * adf / sc.dg[i], t.tol * sd, k.sdual, "scaled multiplier sign of inequality", i, 1e-14);
         continue;
      }
      double sl = std::max(0., up ? b - g[i] : g[i] - b);
      double v = a * sl;
      double other = (Nlp::lo(p.gl[i]) && Nlp::up(p.gu[i])) ? 1. : 0.;
      double slop = a * (1.001 * c.relax(b) + 2e-12 * std::max(1., std::fabs(b)) + 1e-12 * ga[i]) + 1e-14;
      double dcon = std::min(t.con, t.tol / sc.dg[i]);                          // g(x) - s
      // the documented test takes complementarity at the slack and the violation at g(x): a g(x)-s inside the bounds is limited only through tol
      dcon = std::min(t.tol / sc.dg[i], std::max(dcon, 1.001 * dms / sc.dg[i]));
      double ddual = std::min(t.dual, t.tol * sd * sc.dg[i] / adf);             // stationarity of s
      if( honor ) { Vec gg(n, 0.); p.g[i].grad(x.data(), 1., gg.data()); double q = 0; for( int j = 0; j < n; ++j ) q += std::fabs(gg[j]) * 1.5 * c.relax(x[j]); slop += a * q; }
      chk(v, t.com + a * dcon + ddual * sl, k.com, "inequality complementarity", i, slop);
      chk(v * adf, t.tol * scc + (a * dcon + ddual * sl) * adf, k.scom, "scaled inequality complementarity", i, slop * adf);
      (void) other;
   }
   if( ke ) { double a = k.sd, b = k.sc; (void) a; (void) b; k.sd = sd; k.sc = scc; *ke = k; }
   return why;
}
} // namespace mon
