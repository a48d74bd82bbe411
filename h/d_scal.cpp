// C19: scaling of the NLP is invisible to the user.
#include "kkt.hpp"
#include "IpNLPScaling.hpp"
#include "IpTripletHelper.hpp"
#include "IpMc19TSymScalingMethod.hpp"
#include "IpCompoundVector.hpp"
using namespace Ipopt; using namespace mon;
using mon::Opt;

static Vec vals(const Vector& v) { Vec r(v.Dim()); if( v.Dim() ) TripletHelper::FillValuesFromVector(v.Dim(), v, r.data()); return r; }
static void denseGen(const Matrix& A, const Vector& rowlike, const Vector& collike, std::vector<double>& D) {
   int R = A.NRows(), C = A.NCols(); D.assign((size_t) R * C, 0.); SmartPtr<Vector> e = collike.MakeNew(), y = rowlike.MakeNew(); Vec v(R);
   for( int j = 0; j < C; ++j ) { Vec u(C, 0.); u[j] = 1; TripletHelper::PutValuesInVector(C, u.data(), *e); if( R ) { A.MultVector(1., *e, 0., *y); TripletHelper::FillValuesFromVector(R, *y, v.data()); } for( int i = 0; i < R; ++i ) D[(size_t) i * C + j] = v[i]; }
}
static void negate(Nlp& p) { p.f.c0 = -p.f.c0; for( auto& l : p.f.lin ) l.second = -l.second; for( auto& t : p.f.t ) t.c = -t.c; for( auto* v : {&p.lam0, &p.z0l, &p.z0u, &p.lstar, &p.zlstar, &p.zustar} ) for( double& d : *v ) d = -d; p.fstar = -p.fstar; p.objscal = -p.objscal; }

// own MC19: least squares on log|a_ij| + r_i + c_j
static thread_local struct { int calls = 0, n = 0; std::vector<double> a; std::vector<int> ir, ic; std::vector<float> r, c; } g19;
extern "C" void myMc19(const ipindex* N, const ipindex* NZ, ipnumber* A, ipindex* IRN, ipindex* ICN, float* R, float* C, float*) {
   int n = *N, nz = *NZ; g19.calls++; g19.n = n; g19.a.assign(A, A + nz); g19.ir.assign(IRN, IRN + nz); g19.ic.assign(ICN, ICN + nz);
   std::vector<double> r(n, 0.), c(n, 0.);
   for( int it = 0; it < 60; ++it ) for( int h = 0; h < 2; ++h ) {
      std::vector<double> s(n, 0.); std::vector<int> k(n, 0);
      for( int q = 0; q < nz; ++q ) if( A[q] != 0 ) { int i = IRN[q] - 1, j = ICN[q] - 1; double l = std::log(std::fabs(A[q])); if( h == 0 ) { s[i] -= l + c[j]; k[i]++; } else { s[j] -= l + r[i]; k[j]++; } }
      for( int i = 0; i < n; ++i ) if( k[i] ) (h == 0 ? r : c)[i] = s[i] / k[i];
   }
   for( int i = 0; i < n; ++i ) { R[i] = (float) r[i]; C[i] = (float) c[i]; }
   g19.r.assign(R, R + n); g19.c.assign(C, C + n);
}
static void need(const char* key, double got, double want, double tol, const std::string& what, const std::string& ctx, bool& rep) {
   if( rep ) return; if( !(std::fabs(got - want) <= tol) && std::isfinite(want) && std::isfinite(tol) ) { rep = true; out().viol("", key, fmt("%s is %.15g, must be %.15g (difference %g, allowed %g)", what.c_str(), got, want, got - want, tol) + ctx); }
}
static void userScale(Rng& r, Nlp& p, bool pow2, double w) {
   auto f = [&] { double v = pow2 ? std::ldexp(1., r.ri(-(int) (w * 3), (int) (w * 3))) : r.chance(0.2) ? 1. : r.logu(std::pow(10., -w), std::pow(10., w)); return v; };
   p.objscal = r.chance(0.3) ? 1 : f(); p.usex = r.chance(0.7); p.useg = r.chance(0.7); p.xs.resize(p.n); p.gs.resize(p.m); for( auto& v : p.xs ) v = f(); for( auto& v : p.gs ) v = f();
}
static void randScaling(Rng& r, Nlp& p, Config& c, bool equil) {
   for( const char* k : {"nlp_scaling_method", "nlp_scaling_max_gradient", "obj_scaling_factor"} ) c.rm(k);
   double u = r.u01();
   if( u < 0.1 ) c.S("nlp_scaling_method", "none");
   else if( u < 0.45 ) { if( r.chance(0.5) ) c.S("nlp_scaling_method", "gradient-based"); if( r.chance(0.6) ) c.N("nlp_scaling_max_gradient", r.pickd({0.01, 0.5, 1, 10, 1000})); if( r.chance(0.3) ) c.N("nlp_scaling_min_value", r.pickd({0, 1e-3, 0.1, 0.5})); if( r.chance(0.3) ) c.N("nlp_scaling_obj_target_gradient", r.pickd({0.1, 1, 10, 1000})); if( r.chance(0.3) ) c.N("nlp_scaling_constr_target_gradient", r.pickd({0.1, 1, 10, 100})); }
   else if( equil && u < 0.6 ) c.S("nlp_scaling_method", "equilibration-based");
   else { c.S("nlp_scaling_method", "user-scaling"); userScale(r, p, false, r.pickd({0.5, 1, 2})); }
   if( r.chance(0.4) ) c.N("obj_scaling_factor", r.pickd({0.1, 10, 3, 0.25, 100}) );
}

static void c19(Rng& r, long) {
   Nlp p = r.chance(0.45) ? genConvex(r) : r.chance(0.6) ? genNonconvex(r) : r.chance(0.4) ? genLP(r) : genAny(r);
   if( p.n > 16 ) { out().stat("skipped_large"); return; }
   CfgOpt o; o.scal = false; Config c = randConfig(r, o); randScaling(r, p, c, true); for( const char* k : {"start_with_resto", "magic_steps", "least_square_init_primal"} ) c.rm(k);
   if( c.get("line_search_method") ) c.rm("line_search_method");
   bool maxi = r.chance(0.3); if( maxi ) { double os = p.objscal; negate(p); if( c.s("nlp_scaling_method", "") == "user-scaling" && r.chance(0.5) ) { if( os > 0 && p.objscal > 0 ) p.objscal = -p.objscal; } else { p.objscal = std::fabs(p.objscal); c.N("obj_scaling_factor", -c.n("obj_scaling_factor", 1.)); } }
   bool equil = c.s("nlp_scaling_method", "") == "equilibration-based"; if( equil && c.get("fixed_variable_treatment") ) c.rm("fixed_variable_treatment");
   bool warm = r.chance(0.3); 
   if( warm ) {
      c.S("warm_start_init_point", "yes"); for( const char* k : {"warm_start_bound_push", "warm_start_bound_frac", "warm_start_slack_bound_frac", "warm_start_slack_bound_push"} ) c.N(k, 1e-12); c.N("warm_start_mult_bound_push", 1e-14);
      double sg = maxi ? -1 : 1; for( int j = 0; j < p.n; ++j ) { p.z0l[j] = sg * r.logu(0.01, 10); p.z0u[j] = sg * r.logu(0.01, 10); } for( auto& l : p.lam0 ) l = r.gauss();
      for( int j = 0; j < p.n; ++j ) if( !p.fixed(j) ) { double lo = Nlp::lo(p.xl[j]) ? p.xl[j] : -1e9, hi = Nlp::up(p.xu[j]) ? p.xu[j] : 1e9; double w = std::min(1., 0.3 * (hi - lo)); p.x0[j] = std::max(lo + w, std::min(hi - w, p.x0[j])); }
   }
   if( r.chance(0.7) ) c.N("bound_relax_factor", 0);
   if( c.n("bound_relax_factor", 1) == 0 && c.s("fixed_variable_treatment", "") == "relax_bounds" ) c.rm("bound_relax_factor");
   c.I("max_iter", r.chance(0.5) ? 200 : r.ri(0, 15));
   out().sig(hmix(p.sig(), c.sig())); out().sample(p.descr() + " | " + c.str());
   g19.calls = 0; Scal sc; bool rep = false, chk = false; double w19 = 0, b19 = 0;
   std::string ctx = fmt(" | warm=%d maxi=%d objscal=%g usex=%d useg=%d | ", warm, maxi, p.objscal, p.usex, p.useg) + p.descr() + " | " + c.str();
   SmartPtr<MonTNLP> t = new MonTNLP(p, c); t->contract = false; t->wantIter = true;
   bool rem = fixedRemoved(p, c); bool limmem = c.s("hessian_approximation", "exact") != "exact";
   std::vector<int> xi; for( int j = 0; j < p.n; ++j ) if( !(rem && p.fixed(j)) ) xi.push_back(j);
   std::vector<int> re, rd; for( int i = 0; i < p.m; ++i ) (p.iseq(i) ? re : rd).push_back(i);
   t->onIter = [&](MonTNLP& q, IterRec& rr, const IpoptData* d, IpoptCalculatedQuantities* cq) {
      if( rep || rr.mode == RestorationPhaseMode || !rr.ok ) return true;
      for( double v : rr.x ) if( !(std::fabs(v) < 1e12) ) return true;
      if( !chk ) {
         chk = true;
         if( equil ) {
            sc.dx.assign(p.n, 1.); sc.dg.assign(p.m, 1.); if( g19.calls != 1 ) { rep = true; out().viol("", "mc19-calls", fmt("MC19 called %d times", g19.calls) + ctx); return true; }
            // the library hands over variables as rows or as columns; entries tell which: count the constraints' structure
            int nc = (int) re.size(), nd = (int) rd.size(), mr = nc + nd + 1, mxr = 0, mxc = 0; for( int v : g19.ir ) mxr = std::max(mxr, v); for( int v : g19.ic ) mxc = std::max(mxc, v); (void) mxc;
            // the objective is the only row numbered nc+nd+1 in the row array of the transposed or direct matrix
            bool tr = true; { std::set<std::pair<int, int>> D, T; for( size_t k = 0; k < g19.ir.size(); ++k ) { D.insert({g19.ir[k], g19.ic[k]}); } bool okT = true, okD = true; auto has = [&](int row, int col) { const Func& F = row == mr ? p.f : row > nc ? p.g[rd[row - nc - 1]] : p.g[re[row - 1]]; std::set<int> s; F.support(s); if( row != mr ) for( auto& e : p.jac ) if( e.i == (row > nc ? rd[row - nc - 1] : re[row - 1]) ) s.insert(e.j); return col >= 1 && col <= (int) xi.size() && s.count(xi[col - 1]) > 0; };
               for( auto& e : D ) { if( !(e.first <= mr && has(e.first, e.second)) ) okD = false; if( !(e.second <= mr && has(e.second, e.first)) ) okT = false; } if( !okD && !okT ) { rep = true; out().viol("", "mc19-structure", "matrix given to MC19 has entries outside the structure of gradient and Jacobian" + ctx); return true; } if( okD && okT ) { out().stat("mc19_ambiguous"); rep = true; return true; } tr = okT; }
            const std::vector<float>& R = tr ? g19.c : g19.r; const std::vector<float>& C = tr ? g19.r : g19.c;
            sc.df = std::exp((double) R[mr - 1]) * c.n("obj_scaling_factor", 1.); for( int i = 0; i < nc; ++i ) sc.dg[re[i]] = std::exp((double) R[i]); for( int i = 0; i < nd; ++i ) sc.dg[rd[i]] = std::exp((double) R[nc + i]); for( size_t a = 0; a < xi.size(); ++a ) sc.dx[xi[a]] = std::exp(-(double) C[a]);
            for( size_t k = 0; k < g19.a.size(); ++k ) if( g19.a[k] != 0 ) { int row = tr ? g19.ic[k] : g19.ir[k], col = tr ? g19.ir[k] : g19.ic[k]; double l = std::log(std::fabs(g19.a[k])); b19 += l * l; l += R[row - 1] + C[col - 1]; w19 += l * l; }
            out().stat("equilibrated");
         }
         else sc = expectScaling(p, c);
         if( c.s("nlp_scaling_method", "gradient-based") == "gradient-based" ) {
            double of = c.n("obj_scaling_factor", 1.), mn = c.n("nlp_scaling_min_value", 1e-8); (void) mn;
            double df = cq->curr_f(), f = p.f.val(rr.x.data()); (void) of; (void) df; (void) f; bool s = false; for( double v : sc.dg ) s = s || v != 1; if( s || sc.df != of ) out().stat("gradient_scaled");
         }
         for( double v : sc.dg ) if( !(v > 1e-12 && v < 1e12) ) { rep = true; out().stat("extreme_factors"); return true; }
         for( double v : sc.dx ) if( !(v > 1e-12 && v < 1e12) ) { rep = true; out().stat("extreme_factors"); return true; }
         if( !(std::fabs(sc.df) > 1e-12 && std::fabs(sc.df) < 1e12) ) { rep = true; out().stat("extreme_factors"); return true; }
         // bounds in the user's units
         if( c.brf() == 0 && !(p.nfix() && !rem) ) {
            OrigIpoptNLP* on = dynamic_cast<OrigIpoptNLP*>(GetRawPtr(cq->GetIpoptNLP()));
            if( on ) { Vec xl = vals(*on->x_L()), xu = vals(*on->x_U()), dl = vals(*on->d_L()), du = vals(*on->d_U()); size_t a = 0, b = 0;
               for( int j : xi ) { if( Nlp::lo(p.xl[j]) ) { if( a < xl.size() ) need("bound", xl[a] / sc.dx[j], p.xl[j], 1e-9 * std::max(1., std::fabs(p.xl[j])) + 2e-12 / sc.dx[j], fmt("iter %d: lower bound of variable %d in the user's units", rr.iter, j), ctx, rep); ++a; } if( Nlp::up(p.xu[j]) ) { if( b < xu.size() ) need("bound", xu[b] / sc.dx[j], p.xu[j], 1e-9 * std::max(1., std::fabs(p.xu[j])) + 2e-12 / sc.dx[j], fmt("upper bound of variable %d", j), ctx, rep); ++b; } }
               if( !rep && (a != xl.size() || b != xu.size()) ) { rep = true; out().viol("", "bound-count", fmt("%d lower and %d upper bounds, expected %d and %d", (int) xl.size(), (int) xu.size(), (int) a, (int) b) + ctx); }
               a = b = 0; for( int i : rd ) { if( Nlp::lo(p.gl[i]) ) { if( a < dl.size() ) need("bound", dl[a] / sc.dg[i], p.gl[i], 1e-9 * std::max(1., std::fabs(p.gl[i])) + 2e-12 / sc.dg[i], fmt("lower bound of constraint %d", i), ctx, rep); ++a; } if( Nlp::up(p.gu[i]) ) { if( b < du.size() ) need("bound", du[b] / sc.dg[i], p.gu[i], 1e-9 * std::max(1., std::fabs(p.gu[i])) + 2e-12 / sc.dg[i], fmt("upper bound of constraint %d", i), ctx, rep); ++b; } }
               out().stat("bounds_checked"); }
         }
         if( warm && !rep && rr.iter == 0 ) {
            for( int j : xi ) { if( p.fixed(j) ) continue;
               need("start-x", rr.x[j], p.x0[j], 1e-9 * std::max(1., std::fabs(p.x0[j])) + 1e-10 / sc.dx[j], fmt("warm start: x[%d] of the first iterate", j), ctx, rep);
               if( Nlp::lo(p.xl[j]) ) need("start-z", rr.zl[j], p.z0l[j], 1e-9 * std::fabs(p.z0l[j]) + 1e-12 * std::fabs(sc.dx[j] / sc.df), fmt("warm start: lower bound multiplier %d of the first iterate", j), ctx, rep);
               if( Nlp::up(p.xu[j]) ) need("start-z", rr.zu[j], p.z0u[j], 1e-9 * std::fabs(p.z0u[j]) + 1e-12 * std::fabs(sc.dx[j] / sc.df), fmt("warm start: upper bound multiplier %d of the first iterate", j), ctx, rep); }
            for( int i = 0; i < p.m; ++i ) if( std::fabs(p.lam0[i] * sc.df / sc.dg[i]) < 1e6 ) need("start-lambda", rr.lam[i], p.lam0[i], 1e-9 * std::fabs(p.lam0[i]) + 1e-12, fmt("warm start: multiplier of constraint %d of the first iterate", i), ctx, rep);
            out().stat("warm_starts");
         }
      }
      const Vector& xv = *d->curr()->x(); Vec x = vals(xv); if( x.size() != xi.size() ) { rep = true; out().stat("other_dimension"); return true; }
      const Vec& ux = rr.x;
      for( size_t a = 0; a < xi.size(); ++a ) need("x", x[a] / sc.dx[xi[a]], ux[xi[a]], 1e-12 * std::max(1e-3, std::fabs(ux[xi[a]])), fmt("iter %d: x[%d]", rr.iter, xi[a]), ctx, rep);
      double fa, f = p.f.val(ux.data(), &fa); need("objective", cq->curr_f(), sc.df * f, 1e-10 * std::fabs(sc.df) * fa, fmt("iter %d: internal objective (user's %g, factor %g)", rr.iter, f, sc.df), ctx, rep);
      need("reported-objective", rr.obj, f, 1e-10 * fa, fmt("iter %d: objective passed to intermediate_callback", rr.iter), ctx, rep);
      Vec g(p.n, 0.), ga(p.n, 0.); p.f.grad(ux.data(), 1., g.data(), ga.data()); Vec ig = vals(*cq->curr_grad_f());
      for( size_t a = 0; a < xi.size(); ++a ) { int j = xi[a]; need("gradient", ig[a], sc.df * g[j] / sc.dx[j], 1e-10 * std::fabs(sc.df) * ga[j] / sc.dx[j] + 1e-300, fmt("iter %d: internal gradient entry %d", rr.iter, j), ctx, rep); }
      Vec ic = vals(*cq->curr_c()), id = vals(*cq->curr_d());
      if( ic.size() < re.size() || id.size() != rd.size() ) { rep = true; out().stat("other_dimension"); return true; }
      std::vector<double> J, J2; denseGen(*cq->curr_jac_c(), *d->curr()->y_c(), xv, J); denseGen(*cq->curr_jac_d(), *d->curr()->y_d(), xv, J2); Vec yc = vals(*d->curr()->y_c()), yd = vals(*d->curr()->y_d()); int N = (int) xi.size();
      for( int h = 0; h < 2; ++h ) { auto& R = h ? rd : re; for( size_t k = 0; k < R.size(); ++k ) { int i = R[k]; double ca, cv = p.g[i].val(ux.data(), &ca), rhs = h ? 0 : p.gl[i]; need(h ? "inequality" : "equality", h ? id[k] : ic[k], sc.dg[i] * (cv - rhs), 1e-10 * sc.dg[i] * (ca + std::fabs(rhs)) + 1e-300, fmt("iter %d: internal value of constraint %d (factor %g)", rr.iter, i, sc.dg[i]), ctx, rep);
         Vec cg(p.n, 0.), cga(p.n, 0.); p.g[i].grad(ux.data(), 1., cg.data(), cga.data()); for( int a = 0; a < N; ++a ) { double got = h ? J2[k * N + a] : J[k * N + a]; need("jacobian", got, sc.dg[i] * cg[xi[a]] / sc.dx[xi[a]], 1e-10 * sc.dg[i] * cga[xi[a]] / sc.dx[xi[a]] + 1e-300, fmt("iter %d: internal Jacobian entry (%d,%d)", rr.iter, i, xi[a]), ctx, rep); }
         need("multiplier", rr.lam[i], (h ? yd[k] : yc[k]) * sc.dg[i] / sc.df, 1e-10 * std::fabs((h ? yd[k] : yc[k]) * sc.dg[i] / sc.df), fmt("iter %d: multiplier of constraint %d in the user's units", rr.iter, i), ctx, rep); } }
      Vec izl = vals(*d->curr()->z_L()), izu = vals(*d->curr()->z_U()); size_t a1 = 0, b1 = 0;
      for( int j : xi ) { bool lo = Nlp::lo(p.xl[j]), up = Nlp::up(p.xu[j]); if( p.fixed(j) && c.s("fixed_variable_treatment", "") == "make_constraint" ) continue;
         if( lo && a1 < izl.size() ) { double w = izl[a1++] * sc.dx[j] / sc.df; need("bound-multiplier", rr.zl[j], w, 1e-10 * std::fabs(w), fmt("iter %d: lower bound multiplier %d in the user's units", rr.iter, j), ctx, rep); } if( up && b1 < izu.size() ) { double w = izu[b1++] * sc.dx[j] / sc.df; need("bound-multiplier", rr.zu[j], w, 1e-10 * std::fabs(w), fmt("iter %d: upper bound multiplier %d in the user's units", rr.iter, j), ctx, rep); } }
      if( !limmem && !rep && r.chance(0.5) ) {
         SmartPtr<const SymMatrix> W = cq->curr_exact_hessian(); std::vector<double> Hd; denseGen(*W, xv, xv, Hd); Vec H, lam(p.m); for( size_t k = 0; k < re.size(); ++k ) lam[re[k]] = yc[k] * sc.dg[re[k]]; for( size_t k = 0; k < rd.size(); ++k ) lam[rd[k]] = yd[k] * sc.dg[rd[k]];
         p.H(ux.data(), sc.df, lam.data(), H); double hm = 0; { Vec A; p.f.hess(ux.data(), 0, p.n, (A.assign((size_t) p.n * p.n, 0.), A.data())); std::vector<double> T((size_t) p.n * p.n, 0.); p.f.hess(ux.data(), sc.df, p.n, T.data()); for( double v : T ) hm = std::max(hm, std::fabs(v)); for( int i = 0; i < p.m; ++i ) { std::fill(T.begin(), T.end(), 0.); p.g[i].hess(ux.data(), lam[i], p.n, T.data()); for( double v : T ) hm = std::max(hm, std::fabs(v)); } }
         for( int a = 0; a < N; ++a ) for( int b = 0; b <= a; ++b ) need("hessian", Hd[(size_t) a * N + b], H[(size_t) xi[a] * p.n + xi[b]] / sc.dx[xi[a]] / sc.dx[xi[b]], 1e-10 * hm * 4 / sc.dx[xi[a]] / sc.dx[xi[b]] + 1e-300, fmt("iter %d: internal Hessian entry (%d,%d)", rr.iter, xi[a], xi[b]), ctx, rep);
         out().stat("hessians");
      }
      out().stat("iterates_checked"); (void) q; return true; };
   SmartPtr<IpoptApplication> app = newApp(c); if( app->Initialize("") != Solve_Succeeded ) return;
   ApplicationReturnStatus st = app->OptimizeTNLP(SmartPtr<TNLP>(GetRawPtr(t))); out().stat("solves"); out().stat(fmt("ret%d", (int) st)); out().stat("method:" + c.s("nlp_scaling_method", "default")); if( maxi ) out().stat("maximise");
   if( rep ) return;
   if( equil && chk && b19 > 0 && w19 > b19 * 1.01 + 1e-6 ) out().viol("", "equilibration-worse", fmt("sum of squared logs of the derivatives: %g before, %g after equilibration", b19, w19) + ctx);
   if( chk && st == Solve_Succeeded && t->fin.count && t->maxSeen < 1e15 && !(rem && p.nfix() == p.n) ) {
      double dms = 0; std::string e = kktCheck(p, c, finalTol(c), sc, t->fin.x, t->fin.zl, t->fin.zu, t->fin.lam, 1.01, false, nullptr, 1e-9 + dms);
      out().stat("finals"); if( !e.empty() ) out().viol("", "not-optimal", "Solve_Succeeded, but in the user's units: " + e + ctx);
      double fa, f = p.f.val(t->fin.x.data(), &fa); if( c.s("honor_original_bounds", "no") == "no" && std::fabs(f - t->fin.obj) > 1e-10 * fa ) out().viol("", "final-objective", fmt("final objective %.15g, user's function gives %.15g", t->fin.obj, f) + ctx);
      if( p.planted && p.convex && c.n("tol", 1e-8) <= 1e-8 ) {
         double mn = std::min(1., std::fabs(sc.df)), mx = 1; for( double v : sc.dx ) mn = std::min(mn, 1 / v), mx = std::max(mx, 1 / v); for( double v : sc.dg ) mn = std::min(mn, v);
         double e = 0, s = 1; for( int j = 0; j < p.n; ++j ) { e = std::max(e, std::fabs(t->fin.x[j] - p.xstar[j])); s = std::max(s, std::fabs(p.xstar[j])); }
         if( mn > 0.05 && mx < 20 && c.brf() < 1e-7 ) { out().stat("planted_compared"); if( !p.f.linear() && e > 1e-3 * s && std::fabs(f - p.fstar) > 1e-4 * (1 + fa) ) out().viol("", "other-solution", fmt("distance %g from the planted solution, objective %.12g instead of %.12g", e, f, p.fstar) + ctx); }
      }
   }
}

// the problem scaled by hand
struct HandTNLP : public MonTNLP {
   double df; Vec dx, dg;
   HandTNLP(const Nlp& q, const Config& c) : MonTNLP(q, c) {}
   Vec ux(const Number* x) const { Vec v(p->n); for( int j = 0; j < p->n; ++j ) v[j] = x[j] / dx[j]; return v; }
   bool get_bounds_info(Index n, Number* xl, Number* xu, Index m, Number* gl, Number* gu) override { for( int j = 0; j < n; ++j ) { xl[j] = Nlp::lo(p->xl[j]) ? p->xl[j] * dx[j] : -1e20; xu[j] = Nlp::up(p->xu[j]) ? p->xu[j] * dx[j] : 1e20; } for( int i = 0; i < m; ++i ) { gl[i] = Nlp::lo(p->gl[i]) ? p->gl[i] * dg[i] : -1e20; gu[i] = Nlp::up(p->gu[i]) ? p->gu[i] * dg[i] : 1e20; } return true; }
   bool get_starting_point(Index n, bool, Number* x, bool iz, Number* zl, Number* zu, Index m, bool il, Number* lam) override { for( int j = 0; j < n; ++j ) x[j] = p->x0[j] * dx[j]; if( iz ) for( int j = 0; j < n; ++j ) { zl[j] = p->z0l[j] * df / dx[j]; zu[j] = p->z0u[j] * df / dx[j]; } if( il ) for( int i = 0; i < m; ++i ) lam[i] = p->lam0[i] * df / dg[i]; return true; }
   bool get_scaling_parameters(Number& os, bool& ux, Index n, Number* xs, bool& ug, Index m, Number* gs) override { os = 1; ux = p->usex; ug = p->useg; if( ux ) std::fill(xs, xs + n, 1.); if( ug ) std::fill(gs, gs + m, 1.); return true; }   // the same kinds of matrices, so that rounding is the same
   bool eval_f(Index, const Number* x, bool, Number& v) override { v = df * p->f.val(ux(x).data()); return true; }
   bool eval_grad_f(Index n, const Number* x, bool, Number* gr) override { std::fill(gr, gr + n, 0.); p->f.grad(ux(x).data(), 1., gr); for( int j = 0; j < n; ++j ) gr[j] = gr[j] * df / dx[j]; return true; }
   bool eval_g(Index, const Number* x, bool, Index m, Number* g) override { Vec u = ux(x); for( int i = 0; i < m; ++i ) g[i] = dg[i] * p->g[i].val(u.data()); return true; }
   bool eval_jac_g(Index n, const Number* x, bool nx, Index m, Index ne, Index* ir, Index* jc, Number* v) override { if( !v ) return MonTNLP::eval_jac_g(n, x, nx, m, ne, ir, jc, v); Vec d; p->J(ux(x).data(), d); for( size_t k = 0; k < p->jac.size(); ++k ) { auto& e = p->jac[k]; v[k] = (e.w == 0 ? 0. : e.w * d[(size_t) e.i * n + e.j]) * dg[e.i] / dx[e.j]; } return true; }
   bool eval_h(Index n, const Number* x, bool nx, Number of, Index m, const Number* lam, bool nl, Index ne, Index* ir, Index* jc, Number* v) override {
      if( !v ) return MonTNLP::eval_h(n, x, nx, of, m, lam, nl, ne, ir, jc, v);
      Vec l(m); for( int i = 0; i < m; ++i ) l[i] = lam[i] * dg[i]; Vec H; p->H(ux(x).data(), of * df, l.data(), H); for( size_t k = 0; k < p->hes.size(); ++k ) { auto& e = p->hes[k]; v[k] = (e.w == 0 ? 0. : e.w * H[(size_t) e.i * n + e.j]) / dx[e.i] / dx[e.j]; } return true; }
};
struct Run { std::vector<std::string> tr; ApplicationReturnStatus st; Vec x; };
static void record(MonTNLP& t, Run& R, const Nlp& p, double df, const Vec& dx, const Vec& dg, double uf, bool withz = true) {   // iterates in the user's units of the first problem; uf: sign of the objective
   auto line = [&p, df, dx, dg, uf, withz](const char* w, const Vec& x, const Vec& zl, const Vec& zu, const Vec& g, const Vec& lam, double obj) { std::string s = w; for( int j = 0; j < p.n; ++j ) s += fmt(" %a", x[j] / dx[j]); if( withz ) { for( int j = 0; j < p.n; ++j ) if( p.fixed(j) ) s += fmt(" %a", 0. + uf * ((zl[j] - zu[j]) * dx[j] / df)); else s += fmt(" %a %a", 0. + uf * (zl[j] * dx[j] / df), 0. + uf * (zu[j] * dx[j] / df)); for( int i = 0; i < p.m; ++i ) s += fmt(" %a", 0. + uf * (lam[i] * dg[i] / df)); } for( int i = 0; i < p.m; ++i ) s += fmt(" %a", g[i] / dg[i]); s += fmt(" obj %a", 0. + uf * (obj / df)); return s; };
   t.contract = t.boundsCheck = false;
   t.onIter = [line, &R](MonTNLP&, IterRec& q, const IpoptData*, IpoptCalculatedQuantities*) { R.tr.push_back(line(fmt("%d/%d mu %a d %a reg %a a %a %a ls %d", q.mode, q.iter, q.mu, q.dn, q.reg, q.ad, q.ap, q.ls).c_str(), q.x, q.zl, q.zu, q.g, q.lam, q.mode == RegularMode ? q.obj : 0)); return true; };
   t.onFinal = [line, &R](MonTNLP& m, const IpoptData*, IpoptCalculatedQuantities*) { R.tr.push_back(line(fmt("final %d", (int) m.fin.status).c_str(), m.fin.x, m.fin.zl, m.fin.zu, m.fin.g, m.fin.lam, m.fin.obj)); };
}
static void go(MonTNLP& t, const Config& c, Run& R) { SmartPtr<IpoptApplication> app = newApp(c); if( (R.st = app->Initialize("")) != Solve_Succeeded ) return; R.st = app->OptimizeTNLP(SmartPtr<TNLP>(&t)); }
static void cmpRuns(const char* key, const Run& A, const Run& B, const std::string& ctx) {
   out().stat("pairs"); out().stat("lines", A.tr.size()); size_t k = 0; while( k < A.tr.size() && k < B.tr.size() && A.tr[k] == B.tr[k] ) ++k;
   if( k < A.tr.size() || k < B.tr.size() ) out().viol("", key, fmt("iterates differ from entry %d of %d/%d on: %s ### %s", (int) k, (int) A.tr.size(), (int) B.tr.size(), k < A.tr.size() ? A.tr[k].substr(0, 300).c_str() : "-", k < B.tr.size() ? B.tr[k].substr(0, 300).c_str() : "-") + ctx);
   else if( A.st != B.st ) out().viol("", key, fmt("statuses %d and %d", (int) A.st, (int) B.st) + ctx);
}
static void c19b(Rng& r, long) {
   Nlp p = genAny(r); if( p.n > 20 ) { out().stat("skipped_large"); return; }
   CfgOpt o; o.scal = false; Config c = randConfig(r, o); c.I("max_iter", r.ri(5, 60)); 
   if( r.chance(0.3) ) { c.S("warm_start_init_point", "yes"); for( int j = 0; j < p.n; ++j ) { p.z0l[j] = r.logu(0.01, 10); p.z0u[j] = r.logu(0.01, 10); } for( auto& l : p.lam0 ) l = r.gauss(); if( r.chance(0.5) ) c.N("warm_start_mult_bound_push", r.pickd({1e-6, 0.1})); if( r.chance(0.3) ) c.N("warm_start_mult_init_max", r.pickd({1, 100})); }
   if( r.chance(0.5) ) {   // maximise -f instead of minimising f
      Nlp q = p; negate(q); p.objscal = q.objscal = 1; Config cb = c; int w = r.ri(0, 2);
      if( w == 0 ) { double f = r.pickd({1, 0.1, 7}); if( f != 1 ) c.N("obj_scaling_factor", f); cb.N("obj_scaling_factor", -f); if( r.chance(0.3) ) { c.S("nlp_scaling_method", "none"); cb.S("nlp_scaling_method", "none"); } }
      else if( w == 1 ) { userScale(r, p, false, 1); q.usex = p.usex; q.useg = p.useg; q.xs = p.xs; q.gs = p.gs; q.objscal = -p.objscal; c.S("nlp_scaling_method", "user-scaling"); cb.S("nlp_scaling_method", "user-scaling"); }
      else { if( r.chance(0.5) ) { double g = r.pickd({0.1, 1, 10}); c.N("nlp_scaling_max_gradient", g); cb.N("nlp_scaling_max_gradient", g); } cb.N("obj_scaling_factor", -1); }
      Vec on(p.n, 1.), om(p.m, 1.); Run A, B; SmartPtr<MonTNLP> ta = new MonTNLP(p, c), tb = new MonTNLP(q, cb);
      out().sig(hmix(p.sig(), cb.sig())); out().sample("max | " + p.descr() + " | " + cb.str());
      record(*ta, A, p, 1, on, om, 1.); record(*tb, B, q, 1, on, om, -1.); go(*ta, c, A); go(*tb, cb, B); out().stat("maximise_pairs"); cmpRuns("maximisation", A, B, " | " + p.descr() + " | " + cb.str());
      return;
   }
   // power-of-two user scaling against the problem scaled by hand
   userScale(r, p, true, 2); if( r.chance(0.2) ) p.objscal = -p.objscal;
   for( double b : p.xl ) if( Nlp::lo(b) && std::fabs(b) > 1e12 ) return;
   for( const char* k : {"honor_original_bounds", "fixed_variable_treatment", "expect_infeasible_problem", "line_search_method"} ) c.rm(k); c.N("bound_relax_factor", 0);
   if( r.chance(0.3) ) c.S("fixed_variable_treatment", "make_parameter_nodual");
   for( const char* k : {"dual_inf_tol", "constr_viol_tol", "compl_inf_tol", "acceptable_dual_inf_tol", "acceptable_constr_viol_tol", "acceptable_compl_inf_tol"} ) c.N(k, 1e20);
   c.I("acceptable_iter", 0); Config ca = c, cb = c; ca.S("nlp_scaling_method", "user-scaling"); cb.S("nlp_scaling_method", "user-scaling"); double of = r.chance(0.3) ? r.pickd({2, 0.25, -1}) : 1; if( of != 1 ) ca.N("obj_scaling_factor", of);
   double df = p.objscal * of; if( df < 0 ) { for( auto* v : {&p.z0l, &p.z0u} ) for( double& d : *v ) d = -d; }
   SmartPtr<MonTNLP> ta = new MonTNLP(p, ca); SmartPtr<HandTNLP> tb = new HandTNLP(p, cb); tb->df = df; tb->dx.assign(p.n, 1.); tb->dg.assign(p.m, 1.); if( p.usex ) tb->dx = p.xs; if( p.useg ) tb->dg = p.gs;
   Vec on(p.n, 1.), om(p.m, 1.); Run A, B; out().sig(hmix(p.sig(), ca.sig())); out().sample("hand | " + p.descr() + " | " + ca.str());
   record(*ta, A, p, 1, on, om, 1.); record(*tb, B, p, df, tb->dx, tb->dg, 1.); go(*ta, ca, A); go(*tb, cb, B); out().stat("hand_pairs"); cmpRuns("hand-scaled", A, B, fmt(" | objscal=%g usex=%d useg=%d df=%g | ", p.objscal, p.usex, p.useg, df) + p.descr() + " | " + ca.str());
}
int main(int argc, char** argv) {
   Args a = parse(argc, argv); if( out().prop.empty() ) out().prop = "C19";
   Mc19TSymScalingMethod::SetFunctions(myMc19);
   runCases(a, [&](Rng& r, long i) { if( a.mode == "c19" ) c19(r, i); else c19b(r, i); });
   return 0;
}
