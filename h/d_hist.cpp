// C11 determinism and independence of history: the full trace (every evaluation point, every callback argument, the final report) of
// each solve in a random history is compared bit by bit with that of the same solve by a fresh application in a fresh state.
#include "job.hpp"
#include <malloc.h>
using namespace mon;
using namespace Ipopt;

static void perturb(Rng& r) { mallopt(M_PERTURB, r.chance(0.5) ? 0 : r.ri(1, 255)); }
static void c11(Rng& r, long) {
   int K = r.ri(2, 3); std::vector<Job> J(K); std::vector<Result> ref(K);
   perturb(r);
   for( auto& j : J ) j = genJob(r);
   auto fresh = [&](const Job& j) { SmartPtr<MonTNLP> t = new MonTNLP(j.p, j.c); arm(*t, j); SmartPtr<IpoptApplication> a = new IpoptApplication(false); setOpts(*a, j.c); return runJob(j, a, t); };
   for( int k = 0; k < K; ++k ) { ref[k] = fresh(J[k]); out().sig(hmix(J[k].p.sig(), J[k].c.sig())); }
   std::vector<SmartPtr<IpoptApplication> > A; std::vector<int> cur; A.push_back(new IpoptApplication(false)); A.push_back(new IpoptApplication(false)); cur = {-1, -1};
   std::vector<SmartPtr<MonTNLP> > last(2);
   auto take = [&](int a, int k) { if( cur[a] >= 0 ) unsetOpts(*A[a], J[cur[a]].c); setOpts(*A[a], J[k].c); cur[a] = k; };
   std::string hist; int S = r.ri(3, 7);
   auto judge = [&](int k, const Result& x, const std::string& how) {
      std::string s = cmp(ref[k], x); out().stat("solves_compared"); out().stat("events_compared", (double) x.tr.size()); out().stat("how:" + how);
      if( !s.empty() ) out().viol("", "differs-" + how, s + " | history: " + hist + " | " + J[k].p.descr() + " | " + J[k].c.str() + fmt("| stop=%d fault=%c%d@%d", J[k].stopAt, J[k].fkind, J[k].fk, J[k].fpos)); };
   for( int s = 0; s < S; ++s ) {
      int k = r.ri(0, K - 1), a = r.ri(0, 1); perturb(r);
      double u = r.u01();
      if( u < 0.35 ) {   // another solve of the same application
         hist += fmt("S%d@%d ", k, a); take(a, k); last[a] = new MonTNLP(J[k].p, J[k].c); arm(*last[a], J[k]); judge(k, runJob(J[k], A[a], last[a], r.chance(0.8) || s == 0), "same-app");
         if( cur[a] < 0 ) {}
      }
      else if( u < 0.5 ) { hist += fmt("N%d ", k); judge(k, fresh(J[k]), "new-app"); }
      else if( u < 0.75 ) {   // nested
         int q = r.ri(0, K - 1), at = r.ri(0, 8); bool inEval = r.chance(0.4), other = r.chance(0.4);
         hist += fmt("nest(%d in %d at %s%d%s) ", q, k, inEval ? "eval" : "iter", at, other ? " other app" : "");
         SmartPtr<MonTNLP> t = new MonTNLP(J[k].p, J[k].c); arm(*t, J[k]); int cnt = 0; bool done = false; Result inner; bool have = false;
         auto nest = [&]() { if( done || cnt++ < at ) return; done = true; have = true; int b = 1 - a; if( other ) { take(b, q); last[b] = new MonTNLP(J[q].p, J[q].c); arm(*last[b], J[q]); inner = runJob(J[q], A[b], last[b]); } else inner = fresh(J[q]); };
         if( inEval ) t->onEval = [&](MonTNLP&, char) { nest(); }; else t->onIter = [&](MonTNLP&, IterRec&, const IpoptData*, IpoptCalculatedQuantities*) { nest(); return true; };
         take(a, k); last[a] = t; Result outer = runJob(J[k], A[a], t); t->onEval = nullptr; t->onIter = nullptr;
         judge(k, outer, "nest-outer"); if( have ) { judge(q, inner, "nest-inner"); out().stat("nested"); }
      }
      else {    // re-optimise: unchanged or with other data of the same structure
         bool dep = false; const Config& c = J[k].c; if( J[k].fk > 2 ) continue; (void) dep;
         hist += fmt("R%d@%d ", k, a); take(a, k); Nlp p2 = J[k].p; SmartPtr<MonTNLP> t = new MonTNLP(p2, J[k].c); arm(*t, J[k]);
         Result r1 = runJob(J[k], A[a], t); judge(k, r1, "same-app"); last[a] = t;
         int f = t->fin.count; if( !f || r1.ret < -99 || r1.ret == Invalid_Problem_Definition || r1.ret == Not_Enough_Degrees_Of_Freedom ) { last[a] = nullptr; cur[a] = k; A[a] = new IpoptApplication(false); cur[a] = -1; continue; }
         if( r.chance(0.5) ) {   // same data
            t->resetRecords(); Result x = runJob(J[k], A[a], t, false, true); judge(k, x, "reoptimize");
         }
         else {
            Job j2 = J[k]; Nlp& q = j2.p; for( int i = 0; i < q.n; ++i ) { double d = 0.1 * r.gauss(); q.x0[i] += r.gauss(); if( q.fixed(i) ) { q.xl[i] += d; q.xu[i] = q.xl[i]; } else { if( Nlp::lo(q.xl[i]) ) q.xl[i] -= std::fabs(d); if( Nlp::up(q.xu[i]) ) q.xu[i] += std::fabs(d); } }
            for( auto& e : q.f.t ) e.c *= r.uni(0.8, 1.2); for( auto& l : q.f.lin ) l.second *= r.uni(0.8, 1.2); for( auto& g : q.g ) { g.c0 += 0; for( auto& e : g.t ) e.c *= r.uni(0.9, 1.1); }
            for( int i = 0; i < q.m; ++i ) { double d = 0.1 * r.gauss(); bool e = q.iseq(i); if( Nlp::lo(q.gl[i]) ) q.gl[i] += d; if( Nlp::up(q.gu[i]) ) q.gu[i] = e ? q.gl[i] : q.gu[i] + d; }
            Result want = fresh(j2);
            p2 = q; t->resetRecords(); Result x = runJob(J[k], A[a], t, false, true); std::string sx = cmp(want, x); out().stat("solves_compared"); out().stat("how:reoptimize-data"); out().stat("events_compared", (double) x.tr.size());
            if( !sx.empty() ) out().viol("", "differs-reoptimize-data", sx + " | history: " + hist + " | " + q.descr() + " | " + c.str() + fmt("| stop=%d fault=%c%d@%d", J[k].stopAt, J[k].fkind, J[k].fk, J[k].fpos));
         }
         last[a] = nullptr; A[a] = new IpoptApplication(false); cur[a] = -1;     // p2 goes away
      }
   }
   out().sample(hist + "| " + J[0].p.descr() + " | " + J[0].c.str());
   mallopt(M_PERTURB, 0);
}
int main(int argc, char** argv) {
   Args a = parse(argc, argv);
   if( a.mode == "c11" ) runCases(a, c11); else return 7;
   return 0;
}
