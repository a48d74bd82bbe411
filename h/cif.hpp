#pragma once
// C15: the same problem through the C++, C and Fortran interfaces. The user's functions are one object (QMon) that records every call with all
// of its arguments, the flags, and the answers to queries of the current iterate made in the callback; the records must be bit-identical.
#include "job.hpp"
#include "IpStdCInterface.h"
#include <sys/stat.h>
using namespace mon;
typedef std::vector<Number> NV;

struct QMon;
typedef std::function<bool(int which, bool scaled, unsigned mask, Number** a, Number** b)> QueryFn;   // 0 iterate (5 arrays), 1 violations (7 arrays)
struct QMon : public MonTNLP {
   uint64_t qseed = 0; bool lamNull = false, zNull = false; QueryFn query; int queries = 0, foreign = 0; bool silent = false; std::function<void(QMon&)> inEval;
   QMon(const Nlp& q, const Config& c) : MonTNLP(q, c) {}
   void fl(char k, bool a, bool b = false) { tr('n', {}, {(double) k, (double) a, (double) b}); if( inEval ) inEval(*this); }
   bool get_starting_point(Index n, bool ix, Number* x, bool iz, Number* zl, Number* zu, Index m, bool il, Number* lam) override {
      if( (iz && zNull) || (il && lamNull && p->m > 0) ) return false;
      return MonTNLP::get_starting_point(n, ix, x, iz, zl, zu, m, il, lam);
   }
   bool eval_f(Index n, const Number* x, bool nx, Number& v) override { fl('f', nx); return MonTNLP::eval_f(n, x, nx, v); }
   bool eval_grad_f(Index n, const Number* x, bool nx, Number* g) override { fl('g', nx); return MonTNLP::eval_grad_f(n, x, nx, g); }
   bool eval_g(Index n, const Number* x, bool nx, Index m, Number* g) override { fl('c', nx); return MonTNLP::eval_g(n, x, nx, m, g); }
   bool eval_jac_g(Index n, const Number* x, bool nx, Index m, Index k, Index* i, Index* j, Number* v) override { fl(v ? 'j' : 'J', v ? nx : false); return MonTNLP::eval_jac_g(n, x, nx, m, k, i, j, v); }
   bool eval_h(Index n, const Number* x, bool nx, Number o, Index m, const Number* l, bool nl, Index k, Index* i, Index* j, Number* v) override { fl(v ? 'h' : 'H', v ? nx : false, v ? nl : false); return MonTNLP::eval_h(n, x, nx, o, m, l, nl, k, i, j, v); }
   bool intermediate_callback(Ipopt::AlgorithmMode mode, Index iter, Number a, Number b, Number c, Number d, Number e, Number f, Number g, Number h, Index ls, const IpoptData* ip, IpoptCalculatedQuantities* cq) override {
      if( silent ) return true;
      if( ip ) query = [=](int w, bool sc, unsigned mask, Number** A, Number** B) {
         (void) mask;
         try { return w == 0 ? get_curr_iterate(ip, cq, sc, p->n, A[0], A[1], A[2], p->m, B[0], B[1]) : get_curr_violations(ip, cq, sc, p->n, A[0], A[1], A[2], A[3], A[4], p->m, B[0], B[1]); } catch( IpoptException& ) { out().stat("queries_failed"); return false; } };
      bool go = MonTNLP::intermediate_callback(mode, iter, a, b, c, d, e, f, g, h, ls, ip, cq);
      Rng r(hmix(qseed, nCB));
      for( int q = 0; q < 2; ++q ) if( r.chance(0.5) ) {
         // groups of arrays as the Fortran interface offers them: iterate x | z | g | lambda ; violations bounds | complementarity | gradient | constraints
         unsigned mask = (unsigned) r.ri(0, 15); bool sc = r.chance(0.4); double mark = -7.25;
         Vec A[5], B[2]; for( auto& v : A ) v.assign(p->n, mark); for( auto& v : B ) v.assign(p->m, mark);
         Number *a[5], *b[2];
         auto on = [&](int bit) { return (mask >> bit) & 1; };
         if( q == 0 ) { bool s[5] = {(bool) on(0), (bool) on(1), (bool) on(1), false, false}, t[2] = {(bool) on(2), (bool) on(3)}; for( int i = 0; i < 5; ++i ) a[i] = s[i] ? A[i].data() : NULL; for( int i = 0; i < 2; ++i ) b[i] = t[i] ? B[i].data() : NULL; }
         else { bool s[5] = {(bool) on(0), (bool) on(0), (bool) on(1), (bool) on(1), (bool) on(2)}, t[2] = {(bool) on(3), (bool) on(1)}; for( int i = 0; i < 5; ++i ) a[i] = s[i] ? A[i].data() : NULL; for( int i = 0; i < 2; ++i ) b[i] = t[i] ? B[i].data() : NULL; }
         bool ok = query(q, sc, mask, a, b); ++queries;
         if( !ok ) { tr('q', {}, {(double) q, -1.}); continue; }
         tr('q', {{A[0].data(), p->n}, {A[1].data(), p->n}, {A[2].data(), p->n}, {A[3].data(), p->n}, {A[4].data(), p->n}, {B[0].data(), p->m}, {B[1].data(), p->m}}, {(double) q, (double) ok, (double) mode});
      }
      query = nullptr;
      return go;
   }
};
struct Plan { Job j; bool cb = true, optFile = false; bool nG = false, nObj = false, nLam = false, nZl = false, nZu = false, scal = false; uint64_t qs = 0; };
static void armQ(QMon& t, const Plan& q) { arm(t, q.j); t.giveLinearity = false; t.qseed = q.qs; t.lamNull = q.nLam; t.zNull = q.nZl || q.nZu; }
static std::string clip(const Plan& q) { return q.j.p.descr() + " | " + q.j.c.str() + fmt("| stop=%d fault=%c%d@%d cb=%d optfile=%d null=%d%d%d%d%d", q.j.stopAt, q.j.fkind, q.j.fk, q.j.fpos, q.cb, q.optFile, q.nG, q.nObj, q.nLam, q.nZl, q.nZu); }

// ---------------------------------------------------------------- reference: C++ interface
struct Ref { int ret; std::vector<uint64_t> tr; std::vector<std::string> desc; FinalRec fin; int queries = 0; };
static bool g_desc = false;
static Ref reference(const Plan& q, IpoptApplication& app) {
   SmartPtr<QMon> t = new QMon(q.j.p, q.j.c); armQ(*t, q); t->descOn = g_desc; t->silent = !q.cb;
   app.RethrowNonIpoptException(false);
   Ref r; Ipopt::ApplicationReturnStatus s = app.Initialize();
   if( s != Ipopt::Solve_Succeeded ) r.ret = s;
   else r.ret = app.OptimizeTNLP(SmartPtr<TNLP>(GetRawPtr(t)));
   r.tr = t->trace; r.desc = t->tdesc; r.fin = t->fin; if( t->fin.count && !r.tr.empty() ) r.tr.pop_back(); r.queries = t->queries;
   return r;
}
// ---------------------------------------------------------------- C interface
static const UserDataPtr COOKIE_BAD = (UserDataPtr) 0x1;
struct CUser { uint64_t magic = 0xC0FFEE; QMon* t = nullptr; IpoptProblem pr = nullptr; } *g_expect = nullptr;
static CUser* U(UserDataPtr u) { if( u != (UserDataPtr) g_expect || ((CUser*) u)->magic != 0xC0FFEE ) { out().viol("", "user-data", "user_data pointer passed to a callback is not the one given to IpoptSolve"); return g_expect; } return (CUser*) u; }
static bool cF(ipindex n, ipnumber* x, bool nx, ipnumber* v, UserDataPtr u) { return U(u)->t->eval_f(n, x, nx, *v); }
static bool cGf(ipindex n, ipnumber* x, bool nx, ipnumber* v, UserDataPtr u) { return U(u)->t->eval_grad_f(n, x, nx, v); }
static bool cG(ipindex n, ipnumber* x, bool nx, ipindex m, ipnumber* g, UserDataPtr u) { return U(u)->t->eval_g(n, x, nx, m, g); }
static bool cJ(ipindex n, ipnumber* x, bool nx, ipindex m, ipindex k, ipindex* i, ipindex* j, ipnumber* v, UserDataPtr u) { return U(u)->t->eval_jac_g(n, x, nx, m, k, i, j, v); }
static bool cH(ipindex n, ipnumber* x, bool nx, ipnumber o, ipindex m, ipnumber* l, bool nl, ipindex k, ipindex* i, ipindex* j, ipnumber* v, UserDataPtr u) { return U(u)->t->eval_h(n, x, nx, o, m, l, nl, k, i, j, v); }
static bool cI(ipindex mode, ipindex it, ipnumber a, ipnumber b, ipnumber c, ipnumber d, ipnumber e, ipnumber f, ipnumber g, ipnumber h, ipindex ls, UserDataPtr u) {
   CUser* q = U(u); IpoptProblem pr = q->pr; Index n = q->t->p->n, m = q->t->p->m;
   q->t->query = [=](int w, bool sc, unsigned, Number** A, Number** B) { return w == 0 ? GetIpoptCurrentIterate(pr, sc, n, A[0], A[1], A[2], m, B[0], B[1]) : GetIpoptCurrentViolations(pr, sc, n, A[0], A[1], A[2], A[3], A[4], m, B[0], B[1]); };
   return q->t->intermediate_callback((Ipopt::AlgorithmMode) mode, it, a, b, c, d, e, f, g, h, ls, NULL, NULL);
}
// ---------------------------------------------------------------- Fortran interface (as a Fortran program sees it)
extern "C" {
typedef void* fptr;
fptr ipcreate_(ipindex*, ipnumber*, ipnumber*, ipindex*, ipnumber*, ipnumber*, ipindex*, ipindex*, ipindex*, void*, void*, void*, void*, void*);
void ipfree_(fptr*);
ipindex ipsolve_(fptr*, ipnumber*, ipnumber*, ipnumber*, ipnumber*, ipnumber*, ipnumber*, ipindex*, ipnumber*);
ipindex ipaddstroption_(fptr*, const char*, const char*, int, int);
ipindex ipaddnumoption_(fptr*, const char*, ipnumber*, int);
ipindex ipaddintoption_(fptr*, const char*, ipindex*, int);
ipindex ipopenoutputfile_(fptr*, const char*, ipindex*, int);
void ipsetcallback_(fptr*, void*);
void ipunsetcallback_(fptr*);
ipindex ipgetcurriterate_(fptr*, ipindex*, ipindex*, ipindex*, ipindex*, ipindex*, ipindex*, ipnumber*, ipnumber*, ipnumber*, ipindex*, ipnumber*, ipnumber*);
ipindex ipgetcurrviolations_(fptr*, ipindex*, ipindex*, ipindex*, ipindex*, ipindex*, ipindex*, ipnumber*, ipnumber*, ipnumber*, ipnumber*, ipnumber*, ipindex*, ipnumber*, ipnumber*);
ipindex ipsetproblemscaling_(fptr*, ipnumber*, ipnumber*, ipnumber*);
}
static struct { QMon* t; ipindex* I; ipnumber* D; fptr pr; } g_f;
static void fchk(ipindex* I, ipnumber* D) { if( I != g_f.I || D != g_f.D ) out().viol("", "user-data-fortran", "IDAT/DDAT passed to a callback are not the ones given to IPSOLVE"); }
static void ffF(ipindex* n, ipnumber* x, ipindex* nx, ipnumber* v, ipindex* I, ipnumber* D, ipindex* e) { fchk(I, D); *e = g_f.t->eval_f(*n, x, *nx != 0, *v) ? 0 : 1 + (g_f.t->nCB % 3) * 7; }
static void ffGf(ipindex* n, ipnumber* x, ipindex* nx, ipnumber* v, ipindex* I, ipnumber* D, ipindex* e) { fchk(I, D); *e = g_f.t->eval_grad_f(*n, x, *nx != 0, v) ? 0 : -1; }
static void ffG(ipindex* n, ipnumber* x, ipindex* nx, ipindex* m, ipnumber* v, ipindex* I, ipnumber* D, ipindex* e) { fchk(I, D); *e = g_f.t->eval_g(*n, x, *nx != 0, *m, v) ? 0 : 1; }
static void ffJ(ipindex* task, ipindex* n, ipnumber* x, ipindex* nx, ipindex* m, ipindex* k, ipindex* i, ipindex* j, ipnumber* v, ipindex* I, ipnumber* D, ipindex* e) {
   fchk(I, D); if( *task != 0 && *task != 1 ) out().viol("", "fortran-task", fmt("TASK=%d", (int) *task));
   *e = g_f.t->eval_jac_g(*n, x, *nx != 0, *m, *k, *task ? NULL : i, *task ? NULL : j, *task ? v : NULL) ? 0 : 1; }
static void ffH(ipindex* task, ipindex* n, ipnumber* x, ipindex* nx, ipnumber* o, ipindex* m, ipnumber* l, ipindex* nl, ipindex* k, ipindex* i, ipindex* j, ipnumber* v, ipindex* I, ipnumber* D, ipindex* e) {
   fchk(I, D); *e = g_f.t->eval_h(*n, x, *nx != 0, *o, *m, l, *nl != 0, *k, *task ? NULL : i, *task ? NULL : j, *task ? v : NULL) ? 0 : 1; }
static void ffI(ipindex* mode, ipindex* it, ipnumber* a, ipnumber* b, ipnumber* c, ipnumber* d, ipnumber* e, ipnumber* f, ipnumber* g, ipnumber* h, ipindex* ls, ipindex* I, ipnumber* D, ipindex* stop) {
   fchk(I, D); Index n = g_f.t->p->n, m = g_f.t->p->m;
   g_f.t->query = [=](int w, bool sc, unsigned mask, Number** A, Number** B) mutable {
      ipindex s = sc ? 1 : 0, on[4]; for( int i = 0; i < 4; ++i ) on[i] = ((mask >> i) & 1) ? 1 + i : 0;
      // a Fortran program always passes arrays
      std::vector<Vec> dA(5, Vec(n, 0.)), dB(2, Vec(m, 0.)); Number *pa[5], *pb[2]; for( int i = 0; i < 5; ++i ) pa[i] = A[i] ? A[i] : dA[i].data(); for( int i = 0; i < 2; ++i ) pb[i] = B[i] ? B[i] : dB[i].data();
      ipindex nn = n, mm = m; ipindex rc = w == 0 ? ipgetcurriterate_(&g_f.pr, &s, &on[0], &on[1], &on[2], &on[3], &nn, pa[0], pa[1], pa[2], &mm, pb[0], pb[1])
         : ipgetcurrviolations_(&g_f.pr, &s, &on[0], &on[1], &on[2], &on[3], &nn, pa[0], pa[1], pa[2], pa[3], pa[4], &mm, pb[0], pb[1]);
      for( auto& v : dA ) for( double d : v ) if( d != 0. ) { out().viol("", "fortran-query-writes", "IPGETCURR... wrote to an array that was not requested"); break; }
      for( auto& v : dB ) for( double d : v ) if( d != 0. ) { out().viol("", "fortran-query-writes", "IPGETCURR... wrote to an array that was not requested"); break; }
      return rc == 0; };
   bool go = g_f.t->intermediate_callback((Ipopt::AlgorithmMode) *mode, *it, *a, *b, *c, *d, *e, *f, *g, *h, *ls, NULL, NULL);
   *stop = go ? 0 : 1;
}
static std::string pad(Rng& r, const std::string& s) { return s + std::string(r.ri(0, 12), ' '); }
static bool same(const Vec& a, const Vec& b) { return a.size() == b.size() && (a.empty() || !std::memcmp(a.data(), b.data(), a.size() * sizeof(double))); }

struct Arrays { Vec x, g, lam, zl, zu; Number obj; };
static Arrays startArrays(const Plan& q) { const Nlp& p = q.j.p; return {p.x0, Vec(p.m, 4.5), p.lam0, p.z0l, p.z0u, 12.25}; }
static void judge(const std::string& how, const Plan& q, const Ref& ref, const QMon& t, int ret, const Arrays& in, const Arrays& o) {
   std::vector<uint64_t> want = ref.tr;
   // the start call is not visible to the user of the C interface; the final call appears as output arrays
   out().stat("solves_compared"); out().stat("events_compared", (double) want.size()); out().stat("queries_compared", ref.queries); out().stat("how:" + how);
   if( ret != ref.ret ) { out().viol("", how + "-status", fmt("status %d, C++ interface %d | ", ret, ref.ret) + clip(q)); return; }
   size_t k = 0; const std::vector<uint64_t>& got = t.trace; while( k < got.size() && k < want.size() && got[k] == want[k] ) ++k;
   if( k < got.size() || k < want.size() ) { out().viol("", how + "-trace", fmt("evaluation/callback records differ from the C++ interface at event %d of %d/%d | ", (int) k, (int) got.size(), (int) want.size()) + clip(q));
      if( g_desc ) for( size_t d = k > 3 ? k - 3 : 0; d < k + 3; ++d ) fprintf(stderr, "got  %s\nwant %s\n", d < t.tdesc.size() ? t.tdesc[d].c_str() : "-", d < ref.desc.size() ? ref.desc[d].c_str() : "-"); return; }
   const char* bad = nullptr; const FinalRec& F = ref.fin;
   if( F.count ) {
      out().stat("final_compared");
      if( !same(o.x, F.x) ) bad = "x"; else if( !q.nG && !same(o.g, F.g) ) bad = "g"; else if( !q.nObj && hdbl(o.obj) != hdbl(F.obj) ) bad = "objective"; else if( !q.nLam && !same(o.lam, F.lam) ) bad = "constraint multipliers";
      else if( !q.nZl && !same(o.zl, F.zl) ) bad = "lower bound multipliers"; else if( !q.nZu && !same(o.zu, F.zu) ) bad = "upper bound multipliers";
      if( bad ) out().viol("", how + "-final", fmt("final %s differs from the C++ interface | ", bad) + clip(q));
   }
   else if( !same(o.x, in.x) || !same(o.g, in.g) || hdbl(o.obj) != hdbl(in.obj) || !same(o.lam, in.lam) || !same(o.zl, in.zl) || !same(o.zu, in.zu) )
      out().viol("", how + "-side-effect", "no solution was reported but an output array was changed | " + clip(q));
}
static Plan genPlan(Rng& r, const Plan* prev) {
   Plan q;
   for( ;; ) {
      if( prev ) { q = *prev; q.nG = q.nObj = q.nLam = q.nZl = q.nZu = false; q.j.c = randConfig(r); q.j.c.I("max_iter", r.picki({5, 30, 80})); if( r.chance(0.5) ) q.j.c.S("warm_start_init_point", "yes"); for( auto& v : q.j.p.x0 ) v += 0.1 * r.gauss(); q.j.stopAt = r.chance(0.2) ? r.ri(0, 6) : -1; }
      else q.j = genJob(r);
      const Nlp& p = q.j.p; if( p.n < 1 || (p.m > 0 && p.jac.empty()) ) continue;
      break;
   }
   if( q.j.c.s("linear_system_scaling", "") == "slack-based" ) q.j.c.rm("linear_system_scaling");   // KF-SLACKSCALE: options accumulate over the solves of a problem object
   q.j.extra = false; if( q.j.fk > 3 ) q.j.fk = F_FALSE;
   q.cb = r.chance(0.85); if( !q.cb ) q.j.stopAt = -1;
   if( r.chance(0.25) && !q.j.c.get("warm_start_init_point") ) q.j.c.S("warm_start_init_point", "yes");
   if( r.chance(0.3) ) { q.nG = r.chance(0.5); q.nObj = r.chance(0.5); q.nLam = r.chance(0.4); q.nZl = r.chance(0.4); q.nZu = r.chance(0.4); }
   q.scal = r.chance(0.2); if( q.j.c.s("nlp_scaling_method", "") == "user-scaling" ) q.scal = true;
   if( q.scal ) { Nlp& p = q.j.p; if( r.chance(0.6) ) q.j.c.S("nlp_scaling_method", "user-scaling"); p.objscal = r.pickd({1, 0.5, 3, -1}); p.usex = r.chance(0.6); p.useg = p.m > 0 && r.chance(0.6); p.xs.clear(); p.gs.clear(); for( int i = 0; i < p.n; ++i ) p.xs.push_back(r.logu(0.1, 10)); for( int i = 0; i < p.m; ++i ) p.gs.push_back(r.logu(0.1, 10)); }
   else { q.j.p.objscal = 1; q.j.p.usex = q.j.p.useg = false; if( q.j.c.s("nlp_scaling_method", "") == "user-scaling" ) q.j.c.rm("nlp_scaling_method"); }
   q.qs = r.u64(); q.optFile = r.chance(0.15);
   return q;
}
static void writeOptFile(const Plan& q) {
   unlink("ipopt.opt"); if( !q.optFile ) return;
   FILE* f = fopen("ipopt.opt", "w"); for( size_t i = 0; i < q.j.c.o.size(); i += 2 ) { auto& o = q.j.c.o[i]; if( o.t == 's' ) fprintf(f, "%s %s\n", o.name.c_str(), o.s.c_str()); else if( o.t == 'n' ) fprintf(f, "%s %.17g # comment\n", o.name.c_str(), o.d); else fprintf(f, "%s\t%d\n", o.name.c_str(), o.i); } fclose(f);
}
static bool viaFile(const Plan& q, size_t i) { return q.optFile && i % 2 == 0; }

static void c15(Rng& r, long) {
   g_desc = getenv("MON_DESC") != NULL;
   Plan q = genPlan(r, nullptr);
   const bool fort = r.chance(0.4); int solves = r.ri(1, 3);
   IpoptProblem pr = NULL; fptr fp = NULL; Nlp p0 = q.j.p;
   {  // problem creation: arrays are copied
      Nlp c = p0; Index sty = p0.fortran ? 1 : 0; Index n = c.n, m = c.m, nj = (Index) c.jac.size(), nh = (Index) c.hes.size();
      if( !fort ) {
         if( r.chance(0.2) ) { // refused arguments
            Number *xl = c.xl.data(), *xu = c.xu.data(), *gl = c.gl.data(), *gu = c.gu.data(); IpoptProblem z[] = {
               CreateIpoptProblem(0, xl, xu, m, gl, gu, nj, nh, sty, cF, cG, cGf, cJ, cH), CreateIpoptProblem(n, xl, xu, -1, gl, gu, nj, nh, sty, cF, cG, cGf, cJ, cH), CreateIpoptProblem(n, NULL, xu, m, gl, gu, nj, nh, sty, cF, cG, cGf, cJ, cH),
               CreateIpoptProblem(n, xl, NULL, m, gl, gu, nj, nh, sty, cF, cG, cGf, cJ, cH), CreateIpoptProblem(n, xl, xu, m, gl, gu, nj, -1, sty, cF, cG, cGf, cJ, cH), CreateIpoptProblem(n, xl, xu, m, gl, gu, nj, nh, sty, NULL, cG, cGf, cJ, cH),
               CreateIpoptProblem(n, xl, xu, m, gl, gu, nj, nh, sty, cF, cG, NULL, cJ, cH), m ? CreateIpoptProblem(n, xl, xu, m, NULL, gu, nj, nh, sty, cF, cG, cGf, cJ, cH) : NULL, m ? CreateIpoptProblem(n, xl, xu, m, gl, NULL, nj, nh, sty, cF, cG, cGf, cJ, cH) : NULL,
               m ? CreateIpoptProblem(n, xl, xu, m, gl, gu, nj, nh, sty, cF, NULL, cGf, cJ, cH) : NULL, m ? CreateIpoptProblem(n, xl, xu, m, gl, gu, nj, nh, sty, cF, cG, cGf, NULL, cH) : NULL };
            for( auto& e : z ) { out().stat("refused_creates"); if( e ) { out().viol("", "create-accepts", fmt("CreateIpoptProblem accepted invalid arguments (case %d)", (int) (&e - z))); FreeIpoptProblem(e); } }
         }
         pr = CreateIpoptProblem(n, c.xl.data(), c.xu.data(), m, m ? c.gl.data() : NULL, m ? c.gu.data() : NULL, nj, nh, sty, cF, cG, cGf, cJ, cH);
      }
      else {
         ipindex zero = 0; if( r.chance(0.1) && ipcreate_(&zero, c.xl.data(), c.xu.data(), &m, c.gl.data(), c.gu.data(), &nj, &nh, &sty, (void*) ffF, (void*) ffG, (void*) ffGf, (void*) ffJ, (void*) ffH) ) out().viol("", "create-accepts", "IPCREATE accepted n=0");
         fp = ipcreate_(&n, c.xl.data(), c.xu.data(), &m, c.gl.data(), c.gu.data(), &nj, &nh, &sty, (void*) ffF, (void*) ffG, (void*) ffGf, (void*) ffJ, (void*) ffH);
      }
      if( fort ? !fp : !pr ) { out().viol("", "create-fails", "problem creation failed for valid arguments | " + p0.descr()); return; }
      for( auto v : {&c.xl, &c.xu, &c.gl, &c.gu} ) std::fill(v->begin(), v->end(), 1e3 * r.gauss());
   }
   auto setS = [&](const std::string& k, const std::string& v) { std::string a = k, b = v; if( fort ) { a = pad(r, a); b = pad(r, b); return ipaddstroption_(&fp, a.c_str(), b.c_str(), (int) a.size(), (int) b.size()) == 0; } return AddIpoptStrOption(pr, &a[0], &b[0]); };
   auto setN = [&](const std::string& k, double v) { std::string a = k; if( fort ) { a = pad(r, a); return ipaddnumoption_(&fp, a.c_str(), &v, (int) a.size()) == 0; } return AddIpoptNumOption(pr, &a[0], v); };
   auto setI = [&](const std::string& k, int v) { std::string a = k; ipindex vv = v; if( fort ) { a = pad(r, a); return ipaddintoption_(&fp, a.c_str(), &vv, (int) a.size()) == 0; } return AddIpoptIntOption(pr, &a[0], v); };
   SmartPtr<IpoptApplication> rapp = new IpoptApplication(); rapp->Options()->SetIntegerValue("print_level", 0); rapp->Options()->SetStringValue("sb", "yes");
   setI("print_level", 0); setS("sb", "yes");
   bool cbSet = false;
   for( int s = 0; s < solves; ++s ) {
      if( s ) { q = genPlan(r, &q); q.j.p.xl = p0.xl; }
      std::string how = fort ? "fortran" : "c";
      writeOptFile(q);
      // options accumulate in an application; both sides get the same history
      for( size_t i = 0; i < q.j.c.o.size(); ++i ) if( !viaFile(q, i) ) {
         auto& o = q.j.c.o[i]; bool b = o.t == 's' ? rapp->Options()->SetStringValue(o.name, o.s) : o.t == 'n' ? rapp->Options()->SetNumericValue(o.name, o.d) : rapp->Options()->SetIntegerValue(o.name, o.i);
         bool a = o.t == 's' ? setS(o.name, o.s) : o.t == 'n' ? setN(o.name, o.d) : setI(o.name, o.i);
         if( a != b ) out().viol("", how + "-option", fmt("setting option %s returned %d, C++ interface %d", o.name.c_str(), a, b));
      }
      if( r.chance(0.3) ) { out().stat("refused_options"); if( setS("mu_strategy", "nonsense") || setN("tol", -1.) || setI("max_iter", -5) || setS("no_such_option", "x") || setI("tol", 3) || setN("mu_strategy", 1.) ) out().viol("", how + "-option", "an invalid option setting was reported as successful"); }
      Ref ref = reference(q, *rapp);
      SmartPtr<QMon> t = new QMon(q.j.p, q.j.c); armQ(*t, q); t->descOn = g_desc; t->sInitX = true;
      Arrays in = startArrays(q), o = in; const Nlp& p = q.j.p;
      // scaling
      {  Vec xs = p.xs, gs = p.gs; bool un = r.chance(0.3); if( un ) { Vec a(p.n, 7.), b(p.m, 3.); Number c = 9.; if( fort ) ipsetproblemscaling_(&fp, &c, a.data(), b.data()); else SetIpoptProblemScaling(pr, c, a.data(), b.data()); }
         Number os = p.objscal; if( fort ) ipsetproblemscaling_(&fp, &os, p.usex ? xs.data() : NULL, p.useg ? gs.data() : NULL); else if( q.scal || un || s ) SetIpoptProblemScaling(pr, os, p.usex ? xs.data() : NULL, p.useg ? gs.data() : NULL);
         for( auto& v : xs ) v = 99; for( auto& v : gs ) v = 99; }
      int ret = -999; Vec qx(p.n, 1.5);
      if( !fort ) {
         if( q.cb ) SetIntermediateCallback(pr, cI); else if( cbSet || r.chance(0.5) ) SetIntermediateCallback(pr, NULL); cbSet = q.cb;
         CUser u; u.t = GetRawPtr(t); u.pr = pr; g_expect = &u;
         t->inEval = [&](QMon& m) { if( !m.query && m.calls['f'] % 5 == 1 ) { ++m.foreign; if( GetIpoptCurrentIterate(pr, false, p.n, qx.data(), NULL, NULL, p.m, NULL, NULL) ) out().viol("", "query-outside", "GetIpoptCurrentIterate succeeded outside the intermediate callback"); } };
         if( r.chance(0.05) ) { out().stat("null_x"); if( IpoptSolve(pr, NULL, o.g.data(), &o.obj, o.lam.data(), o.zl.data(), o.zu.data(), &u) == Ipopt::Solve_Succeeded ) out().viol("", "null-x", "IpoptSolve without start point succeeded"); if( t->nCB || !same(o.g, in.g) ) out().viol("", "null-x", "refused IpoptSolve had side effects"); }
         ret = IpoptSolve(pr, o.x.data(), q.nG ? NULL : o.g.data(), q.nObj ? NULL : &o.obj, q.nLam ? NULL : o.lam.data(), q.nZl ? NULL : o.zl.data(), q.nZu ? NULL : o.zu.data(), &u);
         if( GetIpoptCurrentIterate(pr, false, p.n, qx.data(), NULL, NULL, p.m, NULL, NULL) || GetIpoptCurrentViolations(pr, false, p.n, qx.data(), NULL, NULL, NULL, NULL, p.m, NULL, NULL) ) out().viol("", "query-outside", "query of the current iterate succeeded after the solve");
         g_expect = nullptr;
      }
      else {
         if( q.cb ) ipsetcallback_(&fp, (void*) ffI); else if( cbSet || r.chance(0.5) ) ipunsetcallback_(&fp); cbSet = q.cb;
         ipindex I[3] = {1, 2, 3}; ipnumber D[3] = {1, 2, 3}; g_f = {GetRawPtr(t), I, D, fp};
         ret = ipsolve_(&fp, o.x.data(), q.nG ? NULL : o.g.data(), q.nObj ? NULL : &o.obj, q.nLam ? NULL : o.lam.data(), q.nZl ? NULL : o.zl.data(), q.nZu ? NULL : o.zu.data(), I, D);
         ipindex one = 1, zero = 0, n = p.n, m = p.m; if( ipgetcurriterate_(&fp, &zero, &one, &zero, &zero, &zero, &n, qx.data(), NULL, NULL, &m, NULL, NULL) == 0 ) out().viol("", "query-outside", "IPGETCURRITERATE succeeded after the solve");
         if( I[0] != 1 || I[2] != 3 || D[1] != 2 ) out().viol("", "user-data-fortran", "user data were changed");
      }
      for( double v : qx ) if( v != 1.5 ) { out().viol("", "query-outside", "a refused query wrote to its array"); break; }
      out().stat("outside_queries", 1 + t->foreign);
      judge(how, q, ref, *t, ret, in, o);
      out().sig(hmix(hmix(q.j.p.sig(), q.j.c.sig()), fort * 2 + q.cb));
      if( out().nviol > 60 ) break;
   }
   if( fort ) { ipfree_(&fp); if( fp ) out().viol("", "fortran-free", "IPFREE leaves the handle"); } else FreeIpoptProblem(pr);
   unlink("ipopt.opt");
   out().sample((fort ? "fortran " : "c ") + clip(q));
}
