// C12: applications used by different threads at the same time. Verdict: ThreadSanitizer (no report) and bitwise comparison of every
// thread's traces with those of the same solves run alone afterwards. Delays are injected at callbacks.
#include "job.hpp"
#include <thread>
#include <atomic>
#include <fstream>
#include <sched.h>
#include <unistd.h>
#include <sys/stat.h>
using namespace mon;
using namespace Ipopt;
static std::string scratch = "/tmp";
struct Plan { Job j; int reps = 1; bool re = false; uint64_t delay = 0; int print = 0; bool optfile = false, output = false, docs = false, ownj = false; std::vector<Result> par, seq; long text = 0, text2 = 0; };
static std::atomic<int> waiting; static std::atomic<long> overlaps, active;
struct StrJ : public Journal { std::string s; StrJ(EJournalLevel l) : Journal("str", l) {} std::string GetName() { return "str"; } protected: void PrintImpl(EJournalCategory, EJournalLevel, const char* c) override { s += c; } void PrintfImpl(EJournalCategory, EJournalLevel, const char* f, va_list ap) override { char b[8192]; vsnprintf(b, sizeof b, f, ap); s += b; } void FlushBufferImpl() override {} };
static void runPlan(Plan& P, int id, bool par, std::vector<Result>& out_, long& text) {
   SmartPtr<IpoptApplication> app = new IpoptApplication(false); setOpts(*app, P.j.c); StrJ* sj = nullptr;
   if( P.output ) { std::string f = scratch + fmt("/thr%d%s.txt", id, par ? "p" : "s"); app->Options()->SetStringValue("output_file", f); app->Options()->SetIntegerValue("file_print_level", P.print); app->Options()->SetStringValue("print_user_options", "yes"); }
   if( P.ownj ) { sj = new StrJ((EJournalLevel) P.print); app->Jnlst()->AddJournal(SmartPtr<Journal>(sj)); }
   if( P.docs ) { app->Options()->SetStringValue("print_options_documentation", "yes"); }
   std::string of = scratch + fmt("/thr%d.opt", id);
   if( P.optfile && par ) std::ofstream(of) << "# options\nmax_soc 3\nkappa_d 1e-6\n";
   uint64_t d = P.delay; if( P.delay == 0 || !par ) d = 0;
   for( int k = 0; k < P.reps; ++k ) {
      SmartPtr<MonTNLP> t = new MonTNLP(P.j.p, P.j.c); arm(*t, P.j);
      t->onEval = [&](MonTNLP&, char) { if( d ) { d = hmix(d, 1); if( d % 3 == 0 ) sched_yield(); else if( d % 7 == 0 ) { for( volatile int q = 0; q < (int) (d % 4000); ++q ) {} } if( active.load(std::memory_order_relaxed) > 1 ) overlaps.fetch_add(1, std::memory_order_relaxed); } };
      if( par ) active.fetch_add(1, std::memory_order_relaxed);
      if( P.optfile ) { if( app->Initialize(of) != Ipopt::Solve_Succeeded ) out_.push_back({-998, {}, {}, -1, 0, false, 0}); else out_.push_back(runJob(P.j, app, t, false, false)); }
      else out_.push_back(runJob(P.j, app, t));
      if( P.re && out_.back().fin.count ) { SmartPtr<MonTNLP> u = t; u->resetRecords(); bool th = false; int ret = -999; try { ret = app->ReOptimizeTNLP(SmartPtr<TNLP>(GetRawPtr(u))); } catch( int ) { th = true; } catch( std::exception& ) { th = true; } catch( IpoptException& ) { th = true; } out_.push_back(res(*u, *app, ret, th)); }
      if( par ) active.fetch_sub(1, std::memory_order_relaxed);
   }
   if( sj ) { // text without timings: count of lines starting with an iteration number
      long h = 7; size_t a = 0; while( a < sj->s.size() ) { size_t e = sj->s.find('\n', a); if( e == std::string::npos ) e = sj->s.size(); std::string l = sj->s.substr(a, e - a); a = e + 1; if( l.find("seconds") != std::string::npos || l.find("CPU") != std::string::npos || l.find("0x") != std::string::npos || l.find("****") == 0 || l.find("This program") == 0 || l.find(" Ipopt is rel") == 0 || l.find("  ") == 0 && l.find("http") != std::string::npos || l.find("For more") != std::string::npos || l.find("sys time") != std::string::npos || l.find("tag") != std::string::npos || l.find("thr") != std::string::npos || l.empty() ) continue; h = (long) hstr(l, h); }
      text = h;
   }
}
static void c12(Rng& r, long) {
   int T = r.ri(2, 6); uint64_t sg = T; std::vector<Plan> P(T); bool same = r.chance(0.25);
   for( int k = 0; k < T; ++k ) {
      if( same && k ) P[k].j = P[0].j; else P[k].j = genJob(r);
      if( r.chance(0.15) ) { P[k].j.c.S("dependency_detector", "mumps"); P[k].j.c.S("dependency_detection_with_rhs", r.pick({"yes", "no"})); }
      if( r.chance(0.2) ) { P[k].j.c.S("derivative_test", r.pick({"first-order", "second-order", "only-second-order"})); P[k].j.c.N("point_perturbation_radius", r.pickd({10, 1, 0.1})); }
      P[k].reps = r.ri(1, 3); P[k].re = r.chance(0.2); P[k].delay = r.u64(); P[k].optfile = r.chance(0.25); P[k].output = r.chance(0.3); P[k].print = r.ri(0, 8); P[k].docs = r.chance(0.05); P[k].ownj = r.chance(0.4);
      if( P[k].docs ) { P[k].docs = false; }
      sg = hmix(sg, hmix(P[k].j.p.sig(), P[k].j.c.sig()));
   }
   out().sig(sg); if( r.chance(0.01) ) out().sample(fmt("%d threads; first: ", T) + P[0].j.p.descr() + " | " + P[0].j.c.str());
   waiting = 0; active = 0; overlaps = 0; std::vector<std::thread> th;
   for( int k = 0; k < T; ++k ) th.emplace_back([&, k]() { waiting++; while( waiting.load() < T ) {} runPlan(P[k], k, true, P[k].par, P[k].text); });
   for( auto& t : th ) t.join();
   out().stat("threads", T); out().stat("evals_while_others_active", (double) overlaps.load());
   for( int k = 0; k < T; ++k ) {
      runPlan(P[k], k, false, P[k].seq, P[k].text2);
      if( P[k].par.size() != P[k].seq.size() ) { out().viol("", "solve-count", fmt("thread made %d solves, alone %d", (int) P[k].par.size(), (int) P[k].seq.size())); continue; }
      for( size_t q = 0; q < P[k].par.size(); ++q ) { std::string s = cmp(P[k].seq[q], P[k].par[q]); out().stat("solves_compared"); out().stat("events_compared", P[k].par[q].tr.size());
         if( !s.empty() ) out().viol("", "differs", s + fmt(" | solve %d of thread %d of %d | ", (int) q, k, T) + P[k].j.p.descr() + " | " + P[k].j.c.str()); }
      if( P[k].ownj ) { out().stat("texts_compared"); if( P[k].text != P[k].text2 ) out().viol("", "output-differs", fmt("printed text of thread %d of %d (level %d) differs from that of the same solves alone | ", k, T, P[k].print) + P[k].j.p.descr() + " | " + P[k].j.c.str()); }
   }
}
int main(int argc, char** argv) {
   Args a = parse(argc, argv); scratch = a.scratch + fmt("/%d", (int) getpid()); mkdir(scratch.c_str(), 0755);
   if( a.mode == "c12" ) runCases(a, c12); else return 7;
   for( int k = 0; k < 8; ++k ) for( const char* f : {"p.txt", "s.txt", ".opt"} ) unlink((scratch + fmt("/thr%d%s", k, f)).c_str());
   rmdir(scratch.c_str());
   return 0;
}
