// A solve as a value: problem, options, fault plan; its result with the full trace.
#pragma once
#include "tnlp.hpp"
namespace mon {
using namespace Ipopt;
struct Job { Nlp p; Config c; int stopAt = -1; int fk = 0, fpos = -1; char fkind = 'f'; bool extra = false; };
struct Result { int ret; std::vector<uint64_t> tr; FinalRec fin; int stats = -1; double sobj = 0; bool thrown = false; int ncb = 0; };
inline void arm(MonTNLP& t, const Job& j) {
   t.wantIter = false; t.contract = false; t.traceOn = true; t.stopAt = j.stopAt; t.giveNonlin = t.giveLinearity = j.extra;
   if( j.fk ) { int fk = j.fk, fp = j.fpos; char k = j.fkind; t.fault = [=](char kk, int n, const double*) { return kk == k && n >= fp && (fk > 2 || n == fp) ? fk : 0; }; }
}
inline Result res(MonTNLP& t, IpoptApplication& app, int ret, bool thrown) {
   Result r; r.ret = ret; r.tr = t.trace; r.fin = t.fin; r.thrown = thrown; r.ncb = t.nCB;
   if( !thrown && IsValid(app.Statistics()) && (t.fin.count) ) { r.stats = app.Statistics()->IterationCount(); r.sobj = app.Statistics()->FinalObjective(); }
   return r;
}
inline void setOpts(IpoptApplication& app, const Config& c) { app.Options()->SetIntegerValue("print_level", 0); app.Options()->SetStringValue("sb", "yes"); c.apply(*app.Options()); }
inline void unsetOpts(IpoptApplication& app, const Config& c) { for( auto& o : c.o ) app.Options()->UnsetValue(o.name); }
inline Result runJob(const Job& j, SmartPtr<IpoptApplication> app, SmartPtr<MonTNLP> t, bool init = true, bool re = false) {
   int ret = -999; bool th = false;
   if( init && app->Initialize("") != Solve_Succeeded ) return {-998, {}, {}, -1, 0, false, 0};
   try { ret = re ? app->ReOptimizeTNLP(SmartPtr<TNLP>(GetRawPtr(t))) : app->OptimizeTNLP(SmartPtr<TNLP>(GetRawPtr(t))); } catch( int ) { th = true; } catch( std::exception& ) { th = true; }
   return res(*t, *app, ret, th);
}
inline std::string cmp(const Result& a, const Result& b) {
   if( a.thrown != b.thrown || a.ret != b.ret ) return fmt("status %d%s instead of %d%s", b.ret, b.thrown ? " (exception)" : "", a.ret, a.thrown ? " (exception)" : "");
   size_t k = 0; while( k < a.tr.size() && k < b.tr.size() && a.tr[k] == b.tr[k] ) ++k;
   if( k < a.tr.size() || k < b.tr.size() ) return fmt("traces differ at event %d of %d/%d", (int) k, (int) a.tr.size(), (int) b.tr.size());
   if( a.fin.count != b.fin.count || hdbl(a.fin.obj) != hdbl(b.fin.obj) ) return "final reports differ";
   if( a.stats != b.stats || hdbl(a.sobj) != hdbl(b.sobj) ) return fmt("statistics differ: iterations %d/%d", a.stats, b.stats);
   return "";
}
inline Job genJob(Rng& r) {
   Job j; j.p = genAny(r); j.c = randConfig(r); j.c.I("max_iter", r.picki({5, 30, 80})); j.extra = r.chance(0.2);
   if( r.chance(0.15) ) j.c.S("warm_start_init_point", "yes");
   if( r.chance(0.1) ) { j.c.S("nlp_scaling_method", "user-scaling"); j.p.objscal = r.pickd({1, 3, -1}); j.p.usex = j.p.useg = true; for( int i = 0; i < j.p.n; ++i ) j.p.xs.push_back(r.logu(0.1, 10)); for( int i = 0; i < j.p.m; ++i ) j.p.gs.push_back(r.logu(0.1, 10)); }
   if( r.chance(0.08) ) j.c.S("jacobian_approximation", "finite-difference-values");
   if( r.chance(0.08) ) j.c.S("gradient_approximation", "finite-difference-values");
   if( r.chance(0.08) ) { j.c.S("derivative_test", r.pick({"first-order", "second-order"})); }
   if( r.chance(0.15) ) j.stopAt = r.ri(0, 6);
   if( r.chance(0.25) ) { j.fk = r.picki({F_FALSE, F_NAN, F_INF, F_THROW_INT, F_THROW_STD}); j.fkind = "fgcjh"[r.ri(0, 4)]; j.fpos = r.ri(0, 12); if( j.fk == F_NAN || j.fk == F_INF ) j.c.S("check_derivatives_for_naninf", "yes"); }
   if( r.chance(0.05) ) j.c.S("linear_solver", r.pick({"ma27", "ma57", "ma97", "pardiso"}));     // library cannot be loaded
   return j;
}
} // namespace mon
