// C21: starting points and warm starts.
#include "kkt.hpp"
#include "IpTripletHelper.hpp"
#include "IpExpansionMatrix.hpp"
#include "IpDenseVector.hpp"
#include "IpIteratesVector.hpp"
using namespace Ipopt; using namespace mon;
using mon::Opt;
extern "C" void dsyev_(const char*, const char*, const int*, double*, const int*, double*, double*, const int*, int*, int, int);

static Vec vals(const Vector& v) { Vec r(v.Dim()); if( v.Dim() ) TripletHelper::FillValuesFromVector(v.Dim(), v, r.data()); return r; }
static void dense(const Matrix& A, const Vector& rowlike, const Vector& collike, std::vector<double>& D) {
   int R = A.NRows(), C = A.NCols(); D.assign((size_t) R * C, 0.); SmartPtr<Vector> e = collike.MakeNew(), y = rowlike.MakeNew(); Vec v(R);
   for( int j = 0; j < C; ++j ) { Vec u(C, 0.); u[j] = 1; TripletHelper::PutValuesInVector(C, u.data(), *e); if( R ) { A.MultVector(1., *e, 0., *y); TripletHelper::FillValuesFromVector(R, *y, v.data()); } for( int i = 0; i < R; ++i ) D[(size_t) i * C + j] = v[i]; }
}
// index of the entry an expansion matrix maps each small entry to
static std::vector<int> pos(const Matrix& P, const Vector& big, const Vector& small) {
   std::vector<int> r; int k = small.Dim(); if( !k ) return r; SmartPtr<Vector> s = small.MakeNew(), b = big.MakeNew(); Vec v(k); for( int i = 0; i < k; ++i ) v[i] = i + 1; TripletHelper::PutValuesInVector(k, v.data(), *s); P.MultVector(1., *s, 0., *b); Vec w = vals(*b); r.assign(k, -1); for( size_t j = 0; j < w.size(); ++j ) if( w[j] > 0.5 ) r[(int) (w[j] + 0.5) - 1] = (int) j; return r;
}
static bool rep; static std::string ctx;
static void bad(const char* key, const std::string& m) { if( !rep ) { rep = true; out().viol("", key, m + ctx); } }
static void need(const char* key, double got, double want, double tol, const std::string& what) { if( !rep && !(std::fabs(got - want) <= tol) && std::isfinite(want) ) bad(key, fmt("%s is %.17g, must be %.17g (difference %g, allowed %g)", what.c_str(), got, want, got - want, tol)); }
struct Box { Vec lo, up; };
static Box box(const Vector& xl, const Vector& xu, const Matrix& PL, const Matrix& PU, const Vector& x) { Box b; int n = x.Dim(); b.lo.assign(n, -1e300); b.up.assign(n, 1e300); Vec l = vals(xl), u = vals(xu); auto pl = pos(PL, x, xl), pu = pos(PU, x, xu); for( size_t k = 0; k < l.size(); ++k ) b.lo[pl[k]] = l[k]; for( size_t k = 0; k < u.size(); ++k ) b.up[pu[k]] = u[k]; return b; }
/// documented rule for moving a value into the interior
static double pushed(double v, double lo, double up, double push, double frac, bool& moved) {
   bool hl = lo > -1e299, hu = up < 1e299; double pl = push * std::max(1., std::fabs(lo)), pu = push * std::max(1., std::fabs(up)); if( hl && hu ) { pl = std::min(pl, frac * (up - lo)); pu = std::min(pu, frac * (up - lo)); }
   double w = v; if( hl && w < lo + pl ) w = lo + pl; if( hu && w > up - pu ) w = up - pu; moved = w != v; return w;
}
static void checkPush(const char* what, const Vec& start, const Vec& got, const Box& b, double push, double frac, double reltol) {
   for( size_t k = 0; k < start.size(); ++k ) {
      bool mv; double w = pushed(start[k], b.lo[k], b.up[k], push, frac, mv); double hl = b.lo[k] > -1e299, hu = b.up[k] < 1e299;
      double sc = std::max({std::fabs(start[k]), hl ? std::fabs(b.lo[k]) : 0., hu ? std::fabs(b.up[k]) : 0.});
      if( !mv && reltol == 0 ) { if( got[k] != start[k] && !(hl && start[k] - b.lo[k] < 1e-15 * sc + push * 1.0000001 * std::max(1., std::fabs(b.lo[k]))) && !(hu && b.up[k] - start[k] < 1e-15 * sc + push * 1.0000001 * std::max(1., std::fabs(b.up[k]))) ) bad("moved-needlessly", fmt("%s[%d] = %.17g is inside [%g,%g] by more than push %g / frac %g, but the first iterate has %.17g", what, (int) k, start[k], b.lo[k], b.up[k], push, frac, got[k])); }
      need("push", got[k], w, std::max(reltol, 1e-14) * 4 * std::max(sc, std::fabs(w)) + 1e-300, fmt("%s[%d] of the first iterate (start %.17g, bounds [%.17g,%.17g], push %g frac %g)", what, (int) k, start[k], b.lo[k], b.up[k], push, frac));
      out().stat(mv ? "entries_pushed" : "entries_kept"); if( (hl && start[k] < b.lo[k]) || (hu && start[k] > b.up[k]) ) out().stat("starts_outside"); if( hl && hu && mv && frac * (b.up[k] - b.lo[k]) < push ) out().stat("pushed_by_frac");
   }
}
/// symmetric solve with inertia; false if ill-conditioned
static bool symSolve(int n, Vec A, const Vec& b, Vec& x, int& neg, double& cond) {
   Vec w(n), wk(40 * n + 10); int lw = (int) wk.size(), info = 0; char V = 'V', U = 'U'; x.assign(n, 0.); neg = 0; cond = 1; if( !n ) return true;
   dsyev_(&V, &U, &n, A.data(), &n, w.data(), wk.data(), &lw, &info, 1, 1); if( info ) return false;
   double mx = 0, mn = 1e300; for( double v : w ) { mx = std::max(mx, std::fabs(v)); mn = std::min(mn, std::fabs(v)); if( v < 0 ) neg++; } cond = mn > 0 ? mx / mn : 1e300; if( !(cond < 1e9) ) return false;
   for( int k = 0; k < n; ++k ) { double d = 0; for( int i = 0; i < n; ++i ) d += A[(size_t) k * n + i] * b[i]; d /= w[k]; for( int i = 0; i < n; ++i ) x[i] += d * A[(size_t) k * n + i]; } return true;
}
struct St { Vec x, s, yc, yd, zl, zu, vl, vu; std::vector<int> xl, xu, dl, du; std::vector<double> Jc, Jd; Vec g, c, d; Box bx, bs; std::string info; int nx, ns, nc; };
static bool grab(const IpoptData* d, IpoptCalculatedQuantities* cq, St& q) {
   OrigIpoptNLP* on = dynamic_cast<OrigIpoptNLP*>(GetRawPtr(cq->GetIpoptNLP())); if( !on ) return false; SmartPtr<const IteratesVector> it = d->curr();
   q.x = vals(*it->x()); q.s = vals(*it->s()); q.yc = vals(*it->y_c()); q.yd = vals(*it->y_d()); q.zl = vals(*it->z_L()); q.zu = vals(*it->z_U()); q.vl = vals(*it->v_L()); q.vu = vals(*it->v_U());
   q.xl = pos(*on->Px_L(), *it->x(), *it->z_L()); q.xu = pos(*on->Px_U(), *it->x(), *it->z_U()); q.dl = pos(*on->Pd_L(), *it->s(), *it->v_L()); q.du = pos(*on->Pd_U(), *it->s(), *it->v_U());
   q.bx = box(*on->x_L(), *on->x_U(), *on->Px_L(), *on->Px_U(), *it->x()); q.bs = box(*on->d_L(), *on->d_U(), *on->Pd_L(), *on->Pd_U(), *it->s());
   dense(*cq->curr_jac_c(), *it->y_c(), *it->x(), q.Jc); dense(*cq->curr_jac_d(), *it->y_d(), *it->x(), q.Jd); q.g = vals(*cq->curr_grad_f()); q.c = vals(*cq->curr_c()); q.d = vals(*cq->curr_d()); q.info = d->info_string(); q.nx = (int) q.x.size(); q.ns = (int) q.s.size(); q.nc = (int) q.yc.size();
   return true;
}
static double amax(const Vec& v) { double m = 0; for( double d : v ) m = std::max(m, std::fabs(d)); return m; }
/// x0 at, in or out of the bounds, near the thresholds of the push
static void wildStart(Rng& r, Nlp& p, double push, double frac) {
   for( int j = 0; j < p.n; ++j ) {
      bool l = Nlp::lo(p.xl[j]), u = Nlp::up(p.xu[j]); double s = std::max(1., std::fabs(p.x0[j])); double b = l && (!u || r.chance(0.5)) ? p.xl[j] : u ? p.xu[j] : 0, dir = b == p.xl[j] ? 1 : -1; double pp = push * std::max(1., std::fabs(b)); if( l && u ) pp = std::min(pp, frac * (p.xu[j] - p.xl[j]));
      switch( r.ri(0, 7) ) { case 0: p.x0[j] = b; break; case 1: p.x0[j] = b + dir * pp * r.uni(0.1, 0.95); break; case 2: p.x0[j] = b + dir * pp * r.uni(1.05, 3); break; case 3: p.x0[j] = b - dir * r.logu(1e-9, 1e3); break; case 4: p.x0[j] = s * r.gauss(); break; case 5: if( l && u ) p.x0[j] = r.uni(p.xl[j], p.xu[j]); break; case 6: p.x0[j] = 0; break; default: break; }
   }
}
static double ropt(Rng& r, Config& c, const char* n, double p, double dflt, std::initializer_list<double> v) { if( r.chance(p) ) c.N(n, r.pickd(v)); return c.n(n, dflt); }
static Nlp prob(Rng& r) { return r.chance(0.3) ? genConvex(r) : r.chance(0.4) ? genNonconvex(r) : r.chance(0.15) ? genSquare(r) : r.chance(0.3) ? genLP(r) : genAny(r); }
static void scaling(Rng& r, Nlp& p, Config& c) {
   for( const char* k : {"nlp_scaling_method", "nlp_scaling_max_gradient", "obj_scaling_factor"} ) c.rm(k);
   double u = r.u01(); if( u < 0.35 ) c.S("nlp_scaling_method", "none"); else if( u < 0.6 ) { c.S("nlp_scaling_method", "user-scaling"); p.objscal = r.logu(0.1, 10); p.usex = r.chance(0.6); p.useg = r.chance(0.6); p.xs.resize(p.n); p.gs.resize(p.m); for( auto& v : p.xs ) v = r.logu(0.1, 10); for( auto& v : p.gs ) v = r.logu(0.1, 10); }
   else if( r.chance(0.4) ) c.N("nlp_scaling_max_gradient", r.pickd({0.5, 1, 10}));
   if( r.chance(0.15) ) c.N("obj_scaling_factor", r.pickd({0.1, 5}));
}
static void run(const Nlp& p, const Config& c, const std::function<void(const IterRec&, const St&, const Scal&, const std::vector<int>&)>& chk, bool stopAfter, SmartPtr<MonTNLP> t = nullptr) {
   if( IsNull(t) ) t = new MonTNLP(p, c); t->contract = false; t->wantIter = true; bool seen = false;
   t->onIter = [&](MonTNLP& q, IterRec& rr, const IpoptData* d, IpoptCalculatedQuantities* cq) {
      if( seen || rep ) return !stopAfter; if( rr.mode != RegularMode || rr.iter != 0 ) { if( rr.iter == 0 && !seen ) out().stat("first_callback_in_restoration"); seen = true; return !stopAfter; } seen = true;
      (void) q; St s; if( !grab(d, cq, s) ) { out().stat("not_original"); return !stopAfter; }
      Scal sc = expectScaling(p, c); std::vector<int> xi; bool rem = fixedRemoved(p, c); for( int j = 0; j < p.n; ++j ) if( !(rem && p.fixed(j)) ) xi.push_back(j);
      if( (int) xi.size() != s.nx ) { out().stat("other_dimension"); return !stopAfter; }
      for( const Vec* v : {&s.x, &s.g, &s.c, &s.d, &s.Jc, &s.Jd} ) if( !(amax(*v) < 1e15) ) { out().stat("huge_values"); return !stopAfter; }
      out().stat("first_iterates"); chk(rr, s, sc, xi); return !stopAfter; };
   SmartPtr<IpoptApplication> app = newApp(c); if( app->Initialize("") != Solve_Succeeded ) { out().stat("init_refused"); return; }
   app->OptimizeTNLP(SmartPtr<TNLP>(GetRawPtr(t))); if( !seen ) out().stat("no_first_iterate");
}
static void c21(Rng& r, long) {
   Nlp p = prob(r); if( p.n > 20 ) { out().stat("skipped_large"); return; }
   CfgOpt o; o.init = false; o.scal = false; Config c = randConfig(r, o); for( const char* k : {"line_search_method", "mu_init", "start_with_resto", "magic_steps", "linear_system_scaling", "recalc_y"} ) c.rm(k);
   scaling(r, p, c);
   double push = ropt(r, c, "bound_push", 0.6, 0.01, {1e-8, 1e-4, 0.1, 1, 10}), frac = ropt(r, c, "bound_frac", 0.6, 0.01, {1e-8, 1e-4, 0.1, 0.4, 0.5}), sp = ropt(r, c, "slack_bound_push", 0.4, push, {1e-8, 1e-3, 0.1, 2}), sf = ropt(r, c, "slack_bound_frac", 0.4, frac, {1e-6, 0.2, 0.5});
   bool mub = r.chance(0.3); if( mub ) c.S("bound_mult_init_method", "mu-based"); else if( r.chance(0.2) ) c.S("bound_mult_init_method", "constant"); double zv = ropt(r, c, "bound_mult_init_val", 0.5, 1, {1e-3, 0.1, 7, 1e3}), mui = ropt(r, c, "mu_init", 0.4, 0.1, {1e-4, 0.01, 1, 50});
   double ymax = ropt(r, c, "constr_mult_init_max", 0.4, 1000, {0, 0.5, 5, 1e8}); bool lsd = r.chance(0.2); if( lsd ) c.S("least_square_init_duals", "yes"); if( r.chance(0.15) ) c.S("least_square_init_primal", r.chance(0.5) ? "yes" : "no"); bool lsp = c.s("least_square_init_primal", "no") == "yes";
   if( r.chance(0.5) ) wildStart(r, p, push, frac);
   c.I("max_iter", 0); out().sig(hmix(p.sig(), c.sig())); ctx = " | " + p.descr() + " | " + c.str(); out().sample(ctx); rep = false;
   run(p, c, [&](const IterRec&, const St& s, const Scal& sc, const std::vector<int>& xi) {
      bool us = c.s("nlp_scaling_method", "") == "user-scaling" && p.usex; int N = s.nx, M = s.ns, C = s.nc;
      if( !lsp ) { Vec x0; for( int j : xi ) x0.push_back(p.x0[j] * (us ? sc.dx[j] : 1.)); checkPush("x", x0, s.x, s.bx, push, frac, us ? 1e-14 : 0); out().stat("primal_starts"); }
      else { for( int k = 0; k < N && !rep; ++k ) { bool mv; double w = pushed(s.x[k], s.bx.lo[k], s.bx.up[k], push * (1 - 1e-9), frac * (1 - 1e-9), mv); if( mv && std::fabs(w - s.x[k]) > 1e-13 * std::max(1., std::fabs(w)) ) bad("not-pushed", fmt("x[%d]=%.17g is closer to a bound of [%g,%g] than push %g frac %g allow", k, s.x[k], s.bx.lo[k], s.bx.up[k], push, frac)); } out().stat("least_square_primals"); }
      if( !lsp ) checkPush("s", s.d, s.s, s.bs, sp, sf, 0);
      // bound multipliers
      double lz = zv; auto mult = [&](const char* w, const Vec& z, const std::vector<int>& ix, const Vec& v, const Box& b, bool low) { for( size_t k = 0; k < z.size() && !rep; ++k ) { double sl = low ? v[ix[k]] - b.lo[ix[k]] : b.up[ix[k]] - v[ix[k]], want = mub ? mui / sl : lz; if( mub && !(sl > 1e-9 * std::max(1., std::fabs(v[ix[k]]))) ) { out().stat("tiny_slacks"); continue; } double tol = mub ? want * (1e-14 * (std::fabs(v[ix[k]]) + 1) / sl + 1e-13) : 0; if( lsd ) { if( z[k] < (mub ? 0 : want) ) bad("ls-mult-small", fmt("%s[%d]=%g below the initial value %g", w, (int) k, z[k], want)); } else need("bound-mult", z[k], want, tol, fmt("%s[%d] (slack %g)", w, (int) k, sl)); out().stat(mub ? "mu_based_multipliers" : "constant_multipliers"); } };
      mult("z_L", s.zl, s.xl, s.x, s.bx, true); mult("z_U", s.zu, s.xu, s.x, s.bx, false); mult("v_L", s.vl, s.dl, s.s, s.bs, true); mult("v_U", s.vu, s.du, s.s, s.bs, false); if( rep ) return;
      // equality multipliers
      int K = N + M + C + M; Vec A((size_t) K * K, 0.), b(K, 0.), y; auto at = [&](int i, int j) -> double& { return A[(size_t) i * K + j]; };
      auto jac = [&] { for( int i = 0; i < C; ++i ) for( int k = 0; k < N; ++k ) at(N + M + i, k) = at(k, N + M + i) = s.Jc[(size_t) i * N + k]; for( int i = 0; i < M; ++i ) { for( int k = 0; k < N; ++k ) at(N + M + C + i, k) = at(k, N + M + C + i) = s.Jd[(size_t) i * N + k]; at(N + M + C + i, N + i) = at(N + i, N + M + C + i) = -1; } };
      int neg; double cond; bool lsok = false;
      if( lsd ) {
         jac(); for( int k : s.xl ) at(k, k) -= 1; for( int k : s.xu ) at(k, k) -= 1; for( int k : s.dl ) at(N + k, N + k) -= 1; for( int k : s.du ) at(N + k, N + k) -= 1; for( int k = 0; k < N; ++k ) b[k] = s.g[k];
         bool ok = symSolve(K, A, b, y, neg, cond); if( !ok ) { out().stat("ls_duals_ill"); return; }
         if( neg == N + M ) { lsok = true; out().stat("ls_duals"); double tol = 1e-11 * cond * amax(y) + 1e-7 * amax(y); if( cond > 1e7 ) return;
            for( int i = 0; i < C; ++i ) need("ls-duals-y", s.yc[i], -y[N + M + i], tol, fmt("least-square y_c[%d]", i)); for( int i = 0; i < M; ++i ) need("ls-duals-y", s.yd[i], -y[N + M + C + i], tol, fmt("least-square y_d[%d]", i));
            if( !mub ) { for( size_t k = 0; k < s.xl.size(); ++k ) need("ls-duals-z", s.zl[k], std::max(lz, -y[s.xl[k]]), tol, fmt("least-square z_L[%d]", (int) k)); for( size_t k = 0; k < s.xu.size(); ++k ) need("ls-duals-z", s.zu[k], std::max(lz, y[s.xu[k]]), tol, fmt("least-square z_U[%d]", (int) k)); for( size_t k = 0; k < s.dl.size(); ++k ) need("ls-duals-z", s.vl[k], std::max(lz, -y[N + s.dl[k]]), tol, fmt("least-square v_L[%d]", (int) k)); for( size_t k = 0; k < s.du.size(); ++k ) need("ls-duals-z", s.vu[k], std::max(lz, y[N + s.du[k]]), tol, fmt("least-square v_U[%d]", (int) k)); } }
         if( lsok ) return; out().stat("ls_duals_impossible");
      }
      double ya = std::max(amax(s.yc), amax(s.yd));
      if( C == N ) { if( ya != 0 ) bad("square-y", fmt("square problem, but initial multipliers up to %g", ya)); out().stat("square"); return; }
      if( ymax == 0 || !(C + M) ) { if( ya != 0 ) bad("y-nonzero", fmt("constr_mult_init_max=0, but initial multipliers up to %g", ya)); out().stat("zero_y"); return; }
      std::fill(A.begin(), A.end(), 0.); std::fill(b.begin(), b.end(), 0.); jac(); for( int k = 0; k < N + M; ++k ) at(k, k) = 1; for( int k = 0; k < N; ++k ) b[k] = s.g[k]; for( size_t k = 0; k < s.xl.size(); ++k ) b[s.xl[k]] -= s.zl[k]; for( size_t k = 0; k < s.xu.size(); ++k ) b[s.xu[k]] += s.zu[k]; for( size_t k = 0; k < s.dl.size(); ++k ) b[N + s.dl[k]] -= s.vl[k]; for( size_t k = 0; k < s.du.size(); ++k ) b[N + s.du[k]] += s.vu[k];
      for( double& v : b ) v = -v;
      if( !symSolve(K, A, b, y, neg, cond) || cond > 1e6 ) { out().stat("ls_y_ill"); if( ya > ymax ) bad("y-too-large", fmt("initial multipliers up to %g exceed constr_mult_init_max %g", ya, ymax)); return; }
      double am = 0; for( int i = 0; i < C + M; ++i ) am = std::max(am, std::fabs(y[N + M + i])); double tol = 1e-11 * cond * (amax(y) + amax(b)) + 1e-7 * am;
      if( std::fabs(am - ymax) <= tol * 2 ) { out().stat("at_threshold"); return; }
      if( am > ymax ) { if( ya != 0 ) bad("y-too-large", fmt("least-squares multipliers up to %g exceed constr_mult_init_max %g, but initial multipliers up to %g are used", am, ymax, ya)); out().stat("ls_y_discarded"); return; }
      for( int i = 0; i < C; ++i ) need("ls-y", s.yc[i], y[N + M + i], tol, fmt("least-squares y_c[%d] (condition %g)", i, cond)); for( int i = 0; i < M; ++i ) need("ls-y", s.yd[i], y[N + M + C + i], tol, fmt("least-squares y_d[%d] (condition %g)", i, cond)); out().stat("ls_y");
   }, true);
}
static void c21w(Rng& r, long) {
   Nlp p = prob(r); if( p.n > 20 ) { out().stat("skipped_large"); return; }
   CfgOpt o; o.scal = false; Config c = randConfig(r, o); for( const char* k : {"line_search_method", "start_with_resto", "magic_steps", "bound_push", "bound_frac", "linear_system_scaling", "recalc_y"} ) c.rm(k); scaling(r, p, c);
   c.S("warm_start_init_point", "yes"); auto val = [&] { return r.chance(0.1) ? 0. : r.chance(0.1) ? -r.logu(1e-3, 10) : r.logu(1e-9, 1e7); }; for( auto& v : p.z0l ) v = val(); for( auto& v : p.z0u ) v = val(); for( auto& v : p.lam0 ) v = r.sgn() * r.logu(1e-6, 1e7);
   double push = ropt(r, c, "bound_push", 0.3, 0.01, {1e-8, 0.1}), frac = ropt(r, c, "bound_frac", 0.3, 0.01, {1e-4, 0.5}); bool bp = c.get("bound_push"), bf = c.get("bound_frac");
   double wp = ropt(r, c, "warm_start_bound_push", 0.5, bp ? push : 0.001, {1e-12, 1e-5, 0.05, 3}), wf = ropt(r, c, "warm_start_bound_frac", 0.5, bf ? frac : 0.001, {1e-12, 1e-3, 0.3}), sp = ropt(r, c, "warm_start_slack_bound_push", 0.5, bp ? push : 0.001, {1e-12, 1e-4, 0.3}), sf = ropt(r, c, "warm_start_slack_bound_frac", 0.5, bf ? frac : 0.001, {1e-12, 1e-4, 0.4});
   // without an explicit value the documentation offers both the option's default and the corresponding cold-start value
   double mp = ropt(r, c, "warm_start_mult_bound_push", 0.6, 0.001, {1e-12, 1e-6, 0.1, 5}), mm = ropt(r, c, "warm_start_mult_init_max", 0.5, 1e6, {1, 100, 1e9});
   if( !c.get("warm_start_bound_push") ) wp = bp ? push : 0.01; if( !c.get("warm_start_bound_frac") ) wf = bf ? frac : 0.01; if( !c.get("warm_start_slack_bound_push") ) sp = bp ? push : -1; if( !c.get("warm_start_slack_bound_frac") ) sf = bf ? frac : -1;
   bool knowx = c.get("warm_start_bound_push") && c.get("warm_start_bound_frac"), knows = c.get("warm_start_slack_bound_push") && c.get("warm_start_slack_bound_frac");
   if( r.chance(0.5) ) wildStart(r, p, wp, wf);
   c.I("max_iter", 0); out().sig(hmix(p.sig(), c.sig())); ctx = " | " + p.descr() + " | " + c.str(); out().sample(ctx); rep = false;
   run(p, c, [&](const IterRec&, const St& s, const Scal& sc, const std::vector<int>& xi) {
      bool us = c.s("nlp_scaling_method", "") == "user-scaling" && p.usex; Vec x0; for( int j : xi ) x0.push_back(p.x0[j] * (us ? sc.dx[j] : 1.));
      if( knowx ) checkPush("x", x0, s.x, s.bx, wp, wf, us ? 1e-14 : 0); else for( size_t k = 0; k < x0.size() && !rep; ++k ) { // at most as far as the larger of the candidates
         bool mv; double w = pushed(x0[k], s.bx.lo[k], s.bx.up[k], std::max({wp, 0.01, 0.001}), std::max({wf, 0.01, 0.001}), mv); if( !mv && std::fabs(s.x[k] - x0[k]) > 1e-14 * std::fabs(x0[k]) ) bad("moved-needlessly", fmt("warm start: x[%d]=%.17g moved to %.17g in [%g,%g]", (int) k, x0[k], s.x[k], s.bx.lo[k], s.bx.up[k])); (void) w; }
      out().stat("warm_primals"); if( rep ) return;
      bool same = true; for( size_t k = 0; k < x0.size(); ++k ) same = same && std::fabs(s.x[k] - x0[k]) <= 1e-15 * std::fabs(x0[k]); if( same && knows ) checkPush("s", s.d, s.s, s.bs, sp, sf, us ? 1e-9 : 1e-13);
      double df = sc.df; std::vector<int> re, rd; for( int i = 0; i < p.m; ++i ) (p.iseq(i) ? re : rd).push_back(i); if( s.ns != (int) rd.size() ) { out().stat("other_dimension"); return; }
      auto clip = [&](double y) { return mm > 0 ? std::max(-mm, std::min(mm, y)) : y; }; auto up = [&](double z) { return mm > 0 ? std::min(mm, z) : z; };
      for( size_t k = 0; k < re.size() && !rep; ++k ) { double w = clip(p.lam0[re[k]] * df / sc.dg[re[k]]); need("warm-y", s.yc[k], w, 1e-12 * std::fabs(w), fmt("warm start: y_c[%d]", (int) k)); } Vec yd(rd.size());
      for( size_t k = 0; k < rd.size() && !rep; ++k ) { double w = yd[k] = clip(p.lam0[rd[k]] * df / sc.dg[rd[k]]); need("warm-y", s.yd[k], w, 1e-12 * std::fabs(w), fmt("warm start: y_d[%d]", (int) k)); }
      for( size_t k = 0; k < s.xl.size() && !rep; ++k ) { int j = xi[s.xl[k]]; if( p.fixed(j) ) continue; double w = std::max(mp, up(p.z0l[j] * df / sc.dx[j])); need("warm-z", s.zl[k], w, 1e-12 * std::fabs(w), fmt("warm start: z_L of variable %d (given %g)", j, p.z0l[j])); out().stat("warm_multipliers"); }
      for( size_t k = 0; k < s.xu.size() && !rep; ++k ) { int j = xi[s.xu[k]]; if( p.fixed(j) ) continue; double w = std::max(mp, up(p.z0u[j] * df / sc.dx[j])); need("warm-z", s.zu[k], w, 1e-12 * std::fabs(w), fmt("warm start: z_U of variable %d (given %g)", j, p.z0u[j])); out().stat("warm_multipliers"); }
      for( size_t k = 0; k < s.dl.size() && !rep; ++k ) { double w = std::max(mp, -yd[s.dl[k]]); need("warm-v", s.vl[k], w, 1e-12 * std::fabs(w), fmt("warm start: v_L[%d]", (int) k)); } for( size_t k = 0; k < s.du.size() && !rep; ++k ) { double w = std::max(mp, yd[s.du[k]]); need("warm-v", s.vu[k], w, 1e-12 * std::fabs(w), fmt("warm start: v_U[%d]", (int) k)); }
   }, true);
}
// restart from the solution, from a saved iterate, or with refused values
struct ItTNLP : public MonTNLP { using MonTNLP::MonTNLP; Vec it[8]; bool give = true; int asked = 0;
   bool get_warm_start_iterate(IteratesVector& w) override { asked++; if( !give ) return false; for( int k = 0; k < 8; ++k ) { SmartPtr<Vector> v = w.GetCompNonConst(k); if( IsNull(v) || (int) v->Dim() != (int) it[k].size() ) { bad("iterate-dims", fmt("component %d of the iterate to fill has another dimension", k)); return false; } if( v->Dim() ) TripletHelper::PutValuesInVector(v->Dim(), it[k].data(), *v); } return true; } };
static void c21r(Rng& r, long) {
   int kind = r.chance(0.5) ? 0 : r.chance(0.6) ? 1 : 2; rep = false;
   Nlp p = kind == 0 ? genConvex(r) : prob(r); if( p.n > 20 ) { out().stat("skipped_large"); return; }
   CfgOpt o; o.scal = kind != 0; o.limmem = kind != 0; Config c = randConfig(r, o); for( const char* k : {"line_search_method", "start_with_resto", "magic_steps", "accept_every_trial_step", "linear_system_scaling", "alpha_for_y", "expect_infeasible_problem"} ) c.rm(k);
   if( kind == 0 ) { c = Config(); if( r.chance(0.4) ) scaling(r, p, c); if( r.chance(0.3) ) c.S("mu_strategy", "adaptive"); if( r.chance(0.3) ) c.S("fixed_variable_treatment", r.pick({"make_parameter", "make_constraint", "relax_bounds", "make_parameter_nodual"})); }
   out().sig(hmix(p.sig(), c.sig())); ctx = " | " + p.descr() + " | " + c.str(); out().sample(ctx);
   if( kind == 0 ) {
      Solve a = solve(p, c, [](MonTNLP& t) { t.contract = false; }); if( a.ret != Solve_Succeeded ) { out().stat("first_not_solved"); return; } FinalRec f = a.t->fin; int it1 = a.app->Statistics()->IterationCount();
      // regular solution: strict complementarity
      double marg = 1e300, scl = 1; for( int j = 0; j < p.n; ++j ) { scl = std::max({scl, std::fabs(f.zl[j]), std::fabs(f.zu[j])}); if( p.fixed(j) ) continue; if( Nlp::lo(p.xl[j]) ) marg = std::min(marg, std::max(f.x[j] - p.xl[j], f.zl[j])); if( Nlp::up(p.xu[j]) ) marg = std::min(marg, std::max(p.xu[j] - f.x[j], f.zu[j])); } for( int i = 0; i < p.m; ++i ) { scl = std::max(scl, std::fabs(f.lam[i])); if( p.iseq(i) ) continue; if( Nlp::lo(p.gl[i]) ) marg = std::min(marg, std::max(f.g[i] - p.gl[i], -f.lam[i])); if( Nlp::up(p.gu[i]) ) marg = std::min(marg, std::max(p.gu[i] - f.g[i], f.lam[i])); }
      if( !(marg > 1e-4) || scl > 1e5 ) { out().stat("irregular_solutions"); return; }
      Nlp q = p; q.x0 = f.x; q.z0l = f.zl; q.z0u = f.zu; q.lam0 = f.lam; Config d = c; d.S("warm_start_init_point", "yes"); for( const char* k : {"warm_start_bound_push", "warm_start_bound_frac", "warm_start_slack_bound_frac", "warm_start_slack_bound_push", "warm_start_mult_bound_push"} ) d.N(k, 1e-9); d.N("mu_init", 1e-8); d.rm("mu_strategy"); bool viaRe = r.chance(0.4);
      SmartPtr<MonTNLP> t2 = new MonTNLP(q, d); t2->contract = false; ApplicationReturnStatus st; SmartPtr<IpoptApplication> app; double d0x = -1, d0z = -1;
      t2->onIter = [&](MonTNLP&, IterRec& rr, const IpoptData*, IpoptCalculatedQuantities*) { if( rr.iter == 0 && rr.ok ) { d0x = d0z = 0; for( int j = 0; j < p.n; ++j ) if( !p.fixed(j) ) { d0x = std::max(d0x, std::fabs(rr.x[j] - f.x[j]) / std::max(1., std::fabs(f.x[j]))); } for( int i = 0; i < p.m; ++i ) d0z = std::max(d0z, std::fabs(rr.lam[i] - f.lam[i])); } return true; };
      if( viaRe ) { app = a.app; a.t->p = &q; for( auto& e : d.o ) if( e.t == 'n' ) app->Options()->SetNumericValue(e.name, e.d); else if( e.t == 's' ) app->Options()->SetStringValue(e.name, e.s); app->Options()->UnsetValue("mu_strategy"); a.t->resetRecords(); a.t->cfg = &d; a.t->onIter = t2->onIter; st = app->ReOptimizeTNLP(SmartPtr<TNLP>(GetRawPtr(a.t))); t2 = a.t; out().stat("reoptimized"); }
      else { app = newApp(d); app->Initialize(""); st = app->OptimizeTNLP(SmartPtr<TNLP>(GetRawPtr(t2))); }
      out().stat("restarts"); int it2 = IsValid(app->Statistics()) ? app->Statistics()->IterationCount() : -1; out().maxstat("restart_iterations", it2); out().stat("restart_iterations_total", it2); out().stat("cold_iterations_total", it1);
      if( d0x > 1e-6 ) bad("restart-x", fmt("first iterate is %g away from the given solution", d0x)); if( d0z > 1e-6 * scl ) bad("restart-lambda", fmt("multipliers of the first iterate are %g away from the given ones", d0z));
      if( !isSuccess(st) ) bad("restart-status", fmt("restarting from the solution ends with status %d (first solve %d iterations)", (int) st, it1));
      else if( it2 > 6 ) bad("restart-iterations", fmt("restarting from the solution takes %d iterations (first solve %d), regularity margin %g", it2, it1, marg));
      else { double tolf = 1e-5 * std::max(1., std::fabs(f.obj)) * std::max(1., scl); if( std::fabs(t2->fin.obj - f.obj) > tolf ) bad("restart-solution", fmt("objective %.12g after the restart, %.12g before", t2->fin.obj, f.obj)); }
   }
   else if( kind == 1 ) {
      SmartPtr<ItTNLP> t = new ItTNLP(p, c); t->contract = false; int stop = r.ri(1, 6); bool got = false; int phase = 1; c.I("max_iter", 40); std::string cctx;
      t->onIter = [&](MonTNLP&, IterRec& rr, const IpoptData* d, IpoptCalculatedQuantities* cq) {
         if( phase == 1 ) { if( rr.mode != RegularMode || rr.iter < stop ) return true; if( !dynamic_cast<OrigIpoptNLP*>(GetRawPtr(cq->GetIpoptNLP())) ) return false; for( int k = 0; k < 8; ++k ) t->it[k] = vals(*d->curr()->GetComp(k)); got = true; return false; }
         if( rr.iter == 0 && rr.mode == RegularMode && phase == 2 ) { phase = 3; if( !t->asked ) bad("iterate-not-asked", "get_warm_start_iterate was not called"); else { double mx = c.n("warm_start_mult_init_max", 1e6); for( int k = 0; k < 8 && !rep; ++k ) { Vec v = vals(*d->curr()->GetComp(k)); for( size_t i = 0; i < v.size(); ++i ) { double w = t->it[k][i]; if( k >= 2 ) w = std::min(w, mx); if( k == 2 || k == 3 ) w = std::max(w, -mx); double tol = k < 2 ? 1e-10 * std::max(1., std::fabs(w)) : k < 4 ? 1e-14 * std::fabs(w) : 1e-13 + 1e-14 * std::fabs(w); need("entire-iterate", v[i], w, tol, fmt("component %d entry %d of the iterate given by get_warm_start_iterate", k, (int) i)); } } out().stat("entire_iterates"); } } return false; };
      Solve a; a.t = GetRawPtr(t); a.app = newApp(c); if( a.app->Initialize("") != Solve_Succeeded ) return; a.app->OptimizeTNLP(SmartPtr<TNLP>(GetRawPtr(t))); if( !got ) { out().stat("no_iterate_saved"); return; }
      phase = 2; Config d = c; d.S("warm_start_init_point", "yes"); d.S("warm_start_entire_iterate", "yes"); for( const char* k : {"warm_start_bound_push", "warm_start_bound_frac", "warm_start_slack_bound_frac", "warm_start_slack_bound_push"} ) d.N(k, 1e-12); d.N("warm_start_mult_bound_push", 1e-14); if( r.chance(0.2) ) { d.N("warm_start_mult_init_max", 10); c.N("warm_start_mult_init_max", 10); } if( r.chance(0.15) ) { t->give = false; phase = 4; }
      t->resetRecords(); SmartPtr<IpoptApplication> app = r.chance(0.5) ? a.app : newApp(d); if( app == a.app ) d.apply(*app->Options()); if( app->Initialize("") != Solve_Succeeded ) return; bool re = app == a.app && r.chance(0.5);
      if( re ) app->ReOptimizeTNLP(SmartPtr<TNLP>(GetRawPtr(t))); else app->OptimizeTNLP(SmartPtr<TNLP>(GetRawPtr(t))); if( phase == 4 && !t->sInitX ) bad("no-fallback", "get_warm_start_iterate refused, but the starting point was not requested"); if( phase == 4 ) out().stat("iterate_refused");
   }
   else {   // refused values
      Config d = c; d.I("max_iter", 50); bool mult = r.chance(0.5); if( mult ) d.S("warm_start_init_point", "yes"); SmartPtr<MonTNLP> t = new MonTNLP(p, d); t->contract = false; (mult ? t->refuseMult : t->refuseStart) = true; SmartPtr<IpoptApplication> app = newApp(d); if( app->Initialize("") != Solve_Succeeded ) return;
      if( p.nfix() == p.n && fixedRemoved(p, d) ) { out().stat("nothing_needed"); return; }
      int st = app->OptimizeTNLP(SmartPtr<TNLP>(GetRawPtr(t))); out().stat("refusals");
      if( t->nCB ) bad("refused-iterates", fmt("%s refused, but the algorithm iterates (status %d)", mult ? "multipliers" : "start", st)); else if( st >= 0 ) bad("refused-status", fmt("%s refused, but status %d", mult ? "multipliers" : "start", st));
   }
}
int main(int argc, char** argv) {
   Args a = parse(argc, argv); if( out().prop.empty() ) out().prop = "C21";
   runCases(a, [&](Rng& r, long i) { if( a.mode == "c21" ) c21(r, i); else if( a.mode == "c21w" ) c21w(r, i); else c21r(r, i); });
   return 0;
}
