// C16: AMPL interface. Random problems are written as .nl files; AmplTNLP is exercised directly (evaluations, bounds, starting point, scaling suffixes)
// against the analytic problem, and the solver program runs the same stub: its .sol file is judged against the AMPL conventions.
#include "job.hpp"
#include "AmplTNLP.hpp"
#include <sys/stat.h>
#include <sys/wait.h>
#include <spawn.h>
#include <fcntl.h>
#include <unistd.h>
using namespace mon;
static std::string g_exe;
static std::string num(double d) { return fmt("%.17g", d); }
static std::string nN(double d) { return "n" + num(d) + "\n"; }
static std::string nV(int i) { return fmt("v%d\n", i); }
static std::string termNl(const Term& e) {
   std::string c = e.c == 1 ? "" : "o2\n" + nN(e.c);
   auto sq = [](std::string a) { return "o5\n" + a + "n2\n"; };
   auto aff = [&](double a, double b) { return "o0\no2\n" + nN(a) + nV(e.i) + nN(b); };
   switch( e.k ) {
      case QUAD: return c + "o2\n" + nV(e.i) + nV(e.j);
      case SQ: return c + sq("o1\n" + nV(e.i) + nN(e.a));
      case CUB: return c + "o5\n" + nV(e.i) + "n3\n";
      case QRT: return c + "o5\no0\n" + nV(e.i) + nN(-e.a) + "n4\n";
      case EXPT: return c + "o44\n" + aff(e.a, e.b);
      case SINT: return c + "o41\n" + aff(e.a, e.b);
      case LOGT: return c + "o43\no0\n" + nV(e.i) + nN(e.a);
      case SQR: return c + "o39\no0\nn1\n" + sq("o1\n" + nV(e.i) + nN(e.a));
      case DIVT: return c + "o3\n" + nV(e.i) + "o0\nn1\n" + sq(nV(e.j));
      case PSIN: return c + "o2\n" + nV(e.i) + "o41\n" + nV(e.j);
      case SQL: { std::string s = fmt("o54\n%d\n", (int) e.w.size() + 2); for( auto& p : e.w ) s += "o2\n" + nN(p.second) + nV(p.first); return c + sq(s + nN(-e.b) + "n0\n"); }
      case SQRTT: return c + "o39\n" + nV(e.i);
   }
   return "n0\n";
}
static std::string funcNl(const Func& f) {   // nonlinear part and constant
   int k = (int) f.t.size() + (f.c0 != 0); if( k == 0 ) return "n0\n";
   std::string s; for( auto& e : f.t ) s += termNl(e); if( f.c0 != 0 ) s += nN(f.c0);
   if( k == 1 ) return s; if( k == 2 ) return "o0\n" + s; return fmt("o54\n%d\n", k) + s;
}
struct Model { Nlp p; bool maxi = false, hasObj = true; std::vector<int> sufX, sufG; bool zin = false, xin = true, din = true; std::vector<char> hasx, hasd; Vec sx, sg; double sobj = 0; bool suf = false; int nint = 0; int nlc = 0, nlvc = 0, nlvo = 0; };
/// order of variables and constraints required by the .nl format
static void order(Model& M) {
   Nlp& p = M.p; std::set<int> vc, vo; for( auto& g : p.g ) if( !g.t.empty() ) { for( auto& e : g.t ) { Func q; q.t.push_back(e); q.support(vc); } } for( auto& e : p.f.t ) { Func q; q.t.push_back(e); q.support(vo); }
   std::vector<int> ord; auto cls = [&](int i) { return vc.count(i) ? (vo.count(i) ? 0 : 1) : (vo.count(i) ? 2 : 3); };
   for( int k = 0; k < 4; ++k ) for( int i = 0; i < p.n; ++i ) if( cls(i) == k ) ord.push_back(i);
   std::vector<int> pv(p.n), oc; for( int i = 0; i < p.n; ++i ) pv[ord[i]] = i;
   for( int k = 0; k < 2; ++k ) for( int i = 0; i < p.m; ++i ) if( (p.g[i].t.empty() ? 1 : 0) == k ) oc.push_back(i);
   Nlp q = p; auto pf = [&](const Func& a) { Func b; b.c0 = a.c0; for( auto& l : a.lin ) b.lin[pv[l.first]] = l.second; for( auto e : a.t ) { if( e.i >= 0 ) e.i = pv[e.i]; if( e.j >= 0 ) e.j = pv[e.j]; for( auto& w : e.w ) w.first = pv[w.first]; b.t.push_back(e); } return b; };
   q.f = pf(p.f); for( int i = 0; i < p.m; ++i ) { q.g[i] = pf(p.g[oc[i]]); q.gl[i] = p.gl[oc[i]]; q.gu[i] = p.gu[oc[i]]; q.lam0[i] = p.lam0[oc[i]]; }
   for( int i = 0; i < p.n; ++i ) { q.xl[pv[i]] = p.xl[i]; q.xu[pv[i]] = p.xu[i]; q.x0[pv[i]] = p.x0[i]; q.z0l[pv[i]] = p.z0l[i]; q.z0u[pv[i]] = p.z0u[i]; }
   for( int i = 0; i < q.m; ++i ) if( q.g[i].t.empty() && q.g[i].c0 != 0 ) { if( Nlp::lo(q.gl[i]) ) q.gl[i] -= q.g[i].c0; if( Nlp::up(q.gu[i]) ) q.gu[i] -= q.g[i].c0; q.g[i].c0 = 0; }
   q.planted = false; p = q; int both = 0, con = 0, ob = 0; for( int i = 0; i < p.n; ++i ) { if( vc.count(i) ) { ++con; if( vo.count(i) ) ++both; } else if( vo.count(i) ) ++ob; }
   M.nlvc = con; M.nlvo = ob ? con + ob : both; M.nlc = 0; for( auto& g : p.g ) M.nlc += !g.t.empty(); M.nint = M.nint > p.n - std::max(M.nlvc, M.nlvo) ? 0 : M.nint;
}
static void writeNl(const Model& M, const std::string& stub) {
   const Nlp& p = M.p; std::string s; std::vector<std::set<int>> sup(p.m); int nzc = 0, nzo = 0; std::vector<int> col(p.n, 0);
   for( int i = 0; i < p.m; ++i ) { p.g[i].support(sup[i]); nzc += (int) sup[i].size(); for( int j : sup[i] ) col[j]++; }
   std::set<int> so; if( M.hasObj ) p.f.support(so); nzo = (int) so.size(); int rng = 0, eq = 0, both = 0;
   for( int i = 0; i < p.m; ++i ) { if( p.iseq(i) ) ++eq; else if( Nlp::lo(p.gl[i]) && Nlp::up(p.gu[i]) ) ++rng; }
   { std::set<int> vc, vo; for( auto& g : p.g ) for( auto& e : g.t ) { Func q; q.t.push_back(e); q.support(vc); } for( auto& e : p.f.t ) { Func q; q.t.push_back(e); q.support(vo); } for( int v : vc ) both += (int) vo.count(v); }
   s += "g3 1 1 0\t# problem\n" + fmt(" %d %d %d %d %d\n %d %d\n 0 0\n %d %d %d\n 0 0 0 1\n 0 %d 0 0 0\n %d %d\n 0 0\n 0 0 0 0 0\n", p.n, p.m, (int) M.hasObj, rng, eq, M.nlc, M.hasObj && !p.f.t.empty() ? 1 : 0, M.nlvc, M.hasObj ? M.nlvo : 0, M.hasObj ? both : 0, M.nint, nzc, nzo);
   auto sfx = [&](int kind, const char* nm, const Vec& v) { int k = 0; std::string b; for( size_t i = 0; i < v.size(); ++i ) if( v[i] != 0 ) { ++k; b += fmt("%d %s\n", (int) i, num(v[i]).c_str()); } if( k ) s += fmt("S%d %d %s\n", kind + 4, k, nm) + b; };
   if( M.suf ) { sfx(0, "scaling_factor", M.sx); sfx(1, "scaling_factor", M.sg); if( M.sobj != 0 && M.hasObj ) sfx(2, "scaling_factor", Vec(1, M.sobj)); }
   if( M.zin ) { sfx(0, "ipopt_zL_in", p.z0l); Vec zu = p.z0u; sfx(0, "ipopt_zU_in", zu); }
   for( int i = 0; i < p.m; ++i ) s += fmt("C%d\n", i) + funcNl(p.g[i]);
   if( M.hasObj ) s += fmt("O0 %d\n", (int) M.maxi) + funcNl(p.f);
   if( M.din ) { int k = 0; std::string b; for( int i = 0; i < p.m; ++i ) if( M.hasd[i] ) { ++k; b += fmt("%d %s\n", i, num(p.lam0[i]).c_str()); } if( k ) s += fmt("d%d\n", k) + b; }
   if( M.xin ) { int k = 0; std::string b; for( int i = 0; i < p.n; ++i ) if( M.hasx[i] ) { ++k; b += fmt("%d %s\n", i, num(p.x0[i]).c_str()); } if( k ) s += fmt("x%d\n", k) + b; }
   auto bd = [](double l, double u) { bool a = Nlp::lo(l), b = Nlp::up(u); if( a && b ) return l == u ? "4 " + num(l) + "\n" : "0 " + num(l) + " " + num(u) + "\n"; if( a ) return "2 " + num(l) + "\n"; if( b ) return "1 " + num(u) + "\n"; return std::string("3\n"); };
   if( p.m ) { s += "r\n"; for( int i = 0; i < p.m; ++i ) s += bd(p.gl[i], p.gu[i]); }
   s += "b\n"; for( int i = 0; i < p.n; ++i ) s += bd(p.xl[i], p.xu[i]);
   s += fmt("k%d\n", p.n - 1); for( int i = 0, c = 0; i + 1 < p.n; ++i ) { c += col[i]; s += fmt("%d\n", c); }
   for( int i = 0; i < p.m; ++i ) if( !sup[i].empty() ) { s += fmt("J%d %d\n", i, (int) sup[i].size()); for( int j : sup[i] ) { auto l = p.g[i].lin.find(j); s += fmt("%d %s\n", j, num(l == p.g[i].lin.end() ? 0. : l->second).c_str()); } }
   if( nzo ) { s += fmt("G0 %d\n", nzo); for( int j : so ) { auto l = p.f.lin.find(j); s += fmt("%d %s\n", j, num(l == p.f.lin.end() ? 0. : l->second).c_str()); } }
   FILE* f = fopen((stub + ".nl").c_str(), "w"); fputs(s.c_str(), f); fclose(f);
}
struct Sol { bool ok = false; int code = -1; Vec x, lam; std::map<std::string, Vec> suf; std::string msg; };
static Sol readSol(const std::string& fn, int n, int m) {
   Sol S; FILE* f = fopen(fn.c_str(), "r"); if( !f ) return S; char buf[1000]; std::vector<std::string> L; while( fgets(buf, sizeof buf, f) ) { std::string l = buf; while( !l.empty() && (l.back() == '\n' || l.back() == '\r') ) l.pop_back(); L.push_back(l); } fclose(f);
   size_t i = 0; while( i < L.size() && L[i] != "Options" ) { S.msg += L[i] + " "; ++i; } if( i == L.size() ) return S; ++i; int no = atoi(L[i].c_str()); i += 1 + no; if( i + 4 > L.size() ) return S;
   int a = atoi(L[i].c_str()), b = atoi(L[i + 1].c_str()), c = atoi(L[i + 2].c_str()), d = atoi(L[i + 3].c_str()); i += 4; if( a != m || c != n || (b != m && b != 0) || (d != n && d != 0) ) return S; if( i + b + d > L.size() ) return S;
   for( int k = 0; k < b; ++k ) S.lam.push_back(strtod(L[i++].c_str(), NULL)); for( int k = 0; k < d; ++k ) S.x.push_back(strtod(L[i++].c_str(), NULL));
   if( i >= L.size() || sscanf(L[i].c_str(), "objno %*d %d", &S.code) != 1 ) return S; ++i;
   while( i < L.size() ) { int kind, cnt, nl, t1, t2; if( sscanf(L[i].c_str(), "suffix %d %d %d %d %d", &kind, &cnt, &nl, &t1, &t2) != 5 ) { ++i; continue; } ++i; if( i >= L.size() ) return S; Vec& v = S.suf[L[i++]]; v.assign((kind & 3) == 0 ? n : m, 0.); for( int k = 0; k < cnt && i < L.size(); ++k, ++i ) { int j; double x; if( sscanf(L[i].c_str(), "%d %lf", &j, &x) == 2 && j >= 0 && j < (int) v.size() ) v[j] = x; } }
   S.ok = true; return S;
}
/// delegate that records the final report
struct Spy : public TNLP {
   SmartPtr<AmplTNLP> t; int fin = 0; SolverReturn st = UNASSIGNED; Vec x, zl, zu, g, lam; double obj = 0; int it = -1; int stopAt = -1;
   bool get_nlp_info(Index& a, Index& b, Index& c, Index& d, IndexStyleEnum& e) override { return t->get_nlp_info(a, b, c, d, e); }
   bool get_var_con_metadata(Index n, StringMetaDataMapType& a, IntegerMetaDataMapType& b, NumericMetaDataMapType& c, Index m, StringMetaDataMapType& d, IntegerMetaDataMapType& e, NumericMetaDataMapType& f) override { return t->get_var_con_metadata(n, a, b, c, m, d, e, f); }
   bool get_bounds_info(Index n, Number* a, Number* b, Index m, Number* c, Number* d) override { return t->get_bounds_info(n, a, b, m, c, d); }
   bool get_constraints_linearity(Index m, LinearityType* l) override { return t->get_constraints_linearity(m, l); }
   bool get_starting_point(Index n, bool a, Number* b, bool c, Number* d, Number* e, Index m, bool f, Number* h) override { return t->get_starting_point(n, a, b, c, d, e, m, f, h); }
   bool eval_f(Index n, const Number* x_, bool nx, Number& v) override { return t->eval_f(n, x_, nx, v); }
   bool eval_grad_f(Index n, const Number* x_, bool nx, Number* v) override { return t->eval_grad_f(n, x_, nx, v); }
   bool eval_g(Index n, const Number* x_, bool nx, Index m, Number* v) override { return t->eval_g(n, x_, nx, m, v); }
   bool eval_jac_g(Index n, const Number* x_, bool nx, Index m, Index k, Index* i, Index* j, Number* v) override { return t->eval_jac_g(n, x_, nx, m, k, i, j, v); }
   bool eval_h(Index n, const Number* x_, bool nx, Number o, Index m, const Number* l, bool nl, Index k, Index* i, Index* j, Number* v) override { return t->eval_h(n, x_, nx, o, m, l, nl, k, i, j, v); }
   bool get_scaling_parameters(Number& o, bool& a, Index n, Number* b, bool& c, Index m, Number* d) override { return t->get_scaling_parameters(o, a, n, b, c, m, d); }
   Index get_number_of_nonlinear_variables() override { return t->get_number_of_nonlinear_variables(); }
   bool get_list_of_nonlinear_variables(Index k, Index* p) override { return t->get_list_of_nonlinear_variables(k, p); }
   bool intermediate_callback(AlgorithmMode, Index i, Number, Number, Number, Number, Number, Number, Number, Number, Index, const IpoptData*, IpoptCalculatedQuantities*) override { it = i; return stopAt < 0 || i < stopAt; }
   void finalize_solution(SolverReturn s, Index n, const Number* x_, const Number* a, const Number* b, Index m, const Number* g_, const Number* l, Number o, const IpoptData* d, IpoptCalculatedQuantities* q) override {
      ++fin; st = s; x.assign(x_, x_ + n); zl.assign(a, a + n); zu.assign(b, b + n); g.assign(g_, g_ + m); lam.assign(l, l + m); obj = o; t->finalize_solution(s, n, x_, a, b, m, g_, l, o, d, q); }
};
static int run(const std::vector<std::string>& av, const std::string& env, const std::string& log) {
   std::vector<char*> a; for( auto& s : av ) a.push_back((char*) s.c_str()); a.push_back(NULL);
   std::vector<std::string> ev; for( char** e = environ; *e; ++e ) if( strncmp(*e, "ipopt_options=", 14) ) ev.push_back(*e); if( !env.empty() ) ev.push_back("ipopt_options=" + env);
   std::vector<char*> ep; for( auto& s : ev ) ep.push_back((char*) s.c_str()); ep.push_back(NULL);
   posix_spawn_file_actions_t fa; posix_spawn_file_actions_init(&fa); posix_spawn_file_actions_addopen(&fa, 1, log.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); posix_spawn_file_actions_adddup2(&fa, 1, 2);
   pid_t pid; int rc = posix_spawn(&pid, g_exe.c_str(), &fa, NULL, a.data(), ep.data()); posix_spawn_file_actions_destroy(&fa); if( rc ) return -1000; int st = 0; waitpid(pid, &st, 0); return WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st);
}
static std::string slurp(const std::string& fn) { std::string s; FILE* f = fopen(fn.c_str(), "r"); if( !f ) return s; char b[4096]; size_t k; while( (k = fread(b, 1, sizeof b, f)) > 0 ) s.append(b, k); fclose(f); return s; }
static SmartPtr<AmplSuffixHandler> suffixes() {
   SmartPtr<AmplSuffixHandler> h = new AmplSuffixHandler(); typedef AmplSuffixHandler A;
   h->AddAvailableSuffix("scaling_factor", A::Variable_Source, A::Number_Type); h->AddAvailableSuffix("scaling_factor", A::Constraint_Source, A::Number_Type); h->AddAvailableSuffix("scaling_factor", A::Objective_Source, A::Number_Type);
   for( const char* s : {"ipopt_zL_out", "ipopt_zU_out", "ipopt_zL_in", "ipopt_zU_in"} ) h->AddAvailableSuffix(s, A::Variable_Source, A::Number_Type);
   return h;
}
static Model genModel(Rng& r) {
   Model M; M.p = genAny(r); if( M.p.fam == "chain" && r.chance(0.5) ) M.p = genConvex(r); Nlp& p = M.p;
   if( r.chance(0.25) ) for( int j = 0; j < p.n; ++j ) if( r.chance(0.3) ) { p.f.t.push_back(T1(LOGT, -r.uni(0.2, 1), j, r.uni(0.01, 1.))); }
   M.maxi = r.chance(0.5); if( M.maxi ) { p.f.c0 *= -1; for( auto& l : p.f.lin ) l.second *= -1; for( auto& e : p.f.t ) e.c *= -1; }
   M.hasObj = p.m == 0 || !r.chance(0.07); if( !M.hasObj ) { p.f = Func(); M.maxi = false; }
   M.nint = r.chance(0.15) ? r.ri(1, p.n) : 0; order(M);
   M.xin = r.chance(0.9); M.din = r.chance(0.5); for( int i = 0; i < p.n; ++i ) M.hasx.push_back(M.xin && r.chance(0.9)); for( int i = 0; i < p.m; ++i ) M.hasd.push_back(M.din && r.chance(0.9));
   M.zin = r.chance(0.4); for( int i = 0; i < p.n; ++i ) { double s = M.maxi ? -1 : 1; p.z0l[i] = s * r.uni(0.1, 2); p.z0u[i] = -s * r.uni(0.1, 2); }
   if( (M.suf = r.chance(0.4)) ) { if( r.chance(0.7) ) for( int i = 0; i < p.n; ++i ) M.sx.push_back(r.chance(0.7) ? r.logu(0.1, 10) : r.pickd({0, -2})); if( r.chance(0.7) ) for( int i = 0; i < p.m; ++i ) M.sg.push_back(r.chance(0.7) ? r.logu(0.1, 10) : r.pickd({0, -2})); if( r.chance(0.6) ) M.sobj = r.pickd({0.1, 3, 0.5}); }
   return M;
}
static bool anyNZ(const Vec& v) { for( double d : v ) if( d != 0 ) return true; return false; }
struct AOpt { std::string name, val; char t; double d; int i; };
static AOpt mkOpt(Rng& r) {
   static const std::vector<AOpt>& pool = *new std::vector<AOpt>{{"max_iter", "", 'i', 0, 0}, {"tol", "", 'n', 0, 0}, {"mu_strategy", "", 's', 0, 0}, {"nlp_scaling_method", "", 's', 0, 0}, {"hessian_approximation", "", 's', 0, 0}, {"warm_start_init_point", "", 's', 0, 0}, {"bound_push", "", 'n', 0, 0}, {"max_soc", "", 'i', 0, 0}, {"fixed_variable_treatment", "", 's', 0, 0}, {"mu_init", "", 'n', 0, 0}};
   AOpt o = pool[r.ri(0, (int) pool.size() - 1)];
   if( o.t == 'i' ) { o.i = o.name == "max_iter" ? r.picki({0, 1, 3, 20, 100}) : r.ri(0, 6); o.val = fmt("%d", o.i); }
   else if( o.t == 'n' ) { o.d = o.name == "tol" ? r.logu(1e-9, 1e-4) : r.logu(1e-4, 0.5); o.val = fmt("%.9g", o.d); o.d = strtod(o.val.c_str(), NULL); }
   else o.val = o.name == "mu_strategy" ? r.pick({"monotone", "adaptive"}) : o.name == "nlp_scaling_method" ? r.pick({"none", "user-scaling", "gradient-based"}) : o.name == "hessian_approximation" ? r.pick({"exact", "limited-memory"}) : o.name == "warm_start_init_point" ? r.pick({"yes", "no"}) : r.pick({"make_parameter", "make_constraint", "relax_bounds"});
   return o;
}
static bool closeTo(double a, double b, double scale) { if( std::isnan(a) || std::isnan(b) ) return false; return a == b || std::fabs(a - b) <= 1e-9 * (1 + scale + std::fabs(b)); }

static void c16(Rng& r, long) {
   Model M = genModel(r); const Nlp& p = M.p; const int n = p.n, m = p.m; const double sg = M.maxi ? -1. : 1.;
   writeNl(M, "m"); unlink("m.sol"); unlink("ipopt.opt"); unlink("alt.opt");
   // options through the channels
   std::vector<AOpt> cmd, env, file; for( int k = r.ri(0, 3); k > 0; --k ) cmd.push_back(mkOpt(r)); for( int k = r.ri(0, 2); k > 0; --k ) env.push_back(mkOpt(r)); if( r.chance(0.4) ) for( int k = r.ri(1, 3); k > 0; --k ) { AOpt o = mkOpt(r); bool dup = false; for( auto& q : file ) dup |= q.name == o.name; if( !dup ) file.push_back(o); }
   if( M.suf && r.chance(0.6) ) cmd.push_back({"nlp_scaling_method", "user-scaling", 's', 0, 0});
   if( (M.zin || M.din) && r.chance(0.5) ) cmd.push_back({"warm_start_init_point", "yes", 's', 0, 0});
   bool alt = !file.empty() && r.chance(0.3);
   std::vector<std::string> av = {"ipopt", "m", "-AMPL"}; std::string es, desc = p.descr() + fmt(" max=%d obj=%d suf=%d zin=%d |", M.maxi, M.hasObj, M.suf, M.zin);
   auto word = [&](const AOpt& o) { std::string nm = o.name == "max_iter" && r.chance(0.4) ? "maxit" : o.name; return nm + "=" + o.val; };
   av.push_back(r.chance(0.5) ? "print_level=0" : "outlev=0"); av.push_back("sb=yes"); bool cap = false;
   for( auto& o : cmd ) { av.push_back(word(o)); cap |= o.name == "max_iter"; } for( auto& o : env ) { es += (es.empty() ? "" : " ") + word(o); cap |= o.name == "max_iter"; }
   if( !cap ) av.push_back("max_iter=150"); if( alt ) av.push_back("option_file_name=alt.opt");
   if( !file.empty() ) { FILE* f = fopen(alt ? "alt.opt" : "ipopt.opt", "w"); for( auto& o : file ) fprintf(f, "%s %s\n", o.name.c_str(), o.val.c_str()); fclose(f); }
   for( auto& a : av ) desc += " " + a; desc += " env[" + es + "] file["; for( auto& o : file ) desc += o.name + " " + o.val + ","; desc += "]";
   out().sig(hmix(p.sig(), hstr(desc))); out().sample(desc);
   // ---- the interface object
   SmartPtr<IpoptApplication> app = new IpoptApplication(false); app->RethrowNonIpoptException(false); app->Initialize("");
   if( es.empty() ) unsetenv("ipopt_options"); else setenv("ipopt_options", es.c_str(), 1);
   std::vector<char*> a; for( auto& s : av ) a.push_back((char*) s.c_str()); a.push_back(NULL); char** ap = a.data();
   SmartPtr<AmplTNLP> t; SmartPtr<AmplSuffixHandler> sh = suffixes();
   try { t = new AmplTNLP(ConstPtr(app->Jnlst()), app->RegOptions(), app->Options(), ap, sh); } catch( IpoptException& e ) { out().viol("", "ctor", "AmplTNLP refused the model: " + e.Message() + " | " + desc); return; }
   if( app->Initialize() != Solve_Succeeded ) { out().viol("", "init", "Initialize failed | " + desc); return; }
   {  // effective options: environment < command line < options file
      std::map<std::string, AOpt> eff; for( auto v : {&env, &cmd, &file} ) for( auto& o : *v ) eff[o.name] = o;
      for( auto& k : eff ) { const AOpt& o = k.second; std::string s; Number d = 0; Index i = 0; bool ok = o.t == 's' ? (app->Options()->GetStringValue(o.name, s, ""), s == o.val) : o.t == 'n' ? (app->Options()->GetNumericValue(o.name, d, ""), d == o.d) : (app->Options()->GetIntegerValue(o.name, i, ""), i == o.i);
         out().stat("options_checked"); if( !ok ) out().viol("", "option-channel", "option " + o.name + " does not have the value " + o.val + " | " + desc); }
   }
   Index N, Mm, nj, nh; TNLP::IndexStyleEnum st; t->get_nlp_info(N, Mm, nj, nh, st); int base = st == TNLP::FORTRAN_STYLE;
   if( N != n || Mm != m ) { out().viol("", "dims", fmt("dimensions %d,%d | ", (int) N, (int) Mm) + desc); return; }
   Vec xl(n), xu(n), gl(m), gu(m); t->get_bounds_info(n, xl.data(), xu.data(), m, gl.data(), gu.data());
   auto beq = [](double a, double b, bool low) { bool fa = low ? Nlp::lo(a) : Nlp::up(a), fb = low ? Nlp::lo(b) : Nlp::up(b); return fa == fb && (!fa || a == b); };
   for( int i = 0; i < n; ++i ) if( !beq(xl[i], p.xl[i], true) || !beq(xu[i], p.xu[i], false) ) { out().viol("", "bounds", fmt("bounds of variable %d | ", i) + desc); break; }
   for( int i = 0; i < m; ++i ) if( !beq(gl[i], p.gl[i], true) || !beq(gu[i], p.gu[i], false) ) { out().viol("", "bounds", fmt("bounds of constraint %d | ", i) + desc); break; }
   {  Vec x(n), zl(n), zu(n), l(m); t->get_starting_point(n, true, x.data(), true, zl.data(), zu.data(), m, true, l.data());
      bool zl0 = M.zin && anyNZ(p.z0l), zu0 = M.zin && anyNZ(p.z0u);
      for( int i = 0; i < n; ++i ) { double w = M.hasx[i] ? p.x0[i] : std::max(p.xl[i], std::min(p.xu[i], 0.)); if( x[i] != w ) { out().viol("", "start-x", fmt("start value of variable %d is %.17g, expected %.17g | ", i, x[i], w) + desc); break; }
         double a = zl0 ? sg * p.z0l[i] : 1., b = zu0 ? -sg * p.z0u[i] : 1.; if( zl[i] != a || zu[i] != b ) { out().viol("", "start-z", fmt("start bound multipliers of variable %d are %g,%g, expected %g,%g | ", i, zl[i], zu[i], a, b) + desc); break; } }
      for( int i = 0; i < m; ++i ) { double w = M.hasd[i] ? -sg * p.lam0[i] : 0.; if( l[i] != w ) { out().viol("", "start-lambda", fmt("start multiplier of constraint %d is %g, expected %g | ", i, l[i], w) + desc); break; } }
      if( m ) { std::vector<TNLP::LinearityType> lt(m); t->get_constraints_linearity(m, lt.data()); for( int i = 0; i < m; ++i ) if( lt[i] == TNLP::LINEAR && !p.g[i].linear() ) out().viol("", "linearity", fmt("nonlinear constraint %d declared linear | ", i) + desc); }
      int k = t->get_number_of_nonlinear_variables(); std::vector<Index> pos(k); t->get_list_of_nonlinear_variables(k, pos.data()); std::set<int> got, want; for( int q : pos ) got.insert(q - base); if( M.hasObj ) p.f.nonlinvars(want); for( auto& g : p.g ) g.nonlinvars(want);
      for( int v : want ) if( !got.count(v) ) { out().viol("", "nonlinear-vars", fmt("nonlinear variable %d not in the list | ", v) + desc); break; }
      Number os; bool ux, ug; Vec sx(n), sgv(m); t->get_scaling_parameters(os, ux, n, sx.data(), ug, m, sgv.data()); bool wx = M.suf && anyNZ(M.sx), wg = M.suf && anyNZ(M.sg); double wo = M.suf && M.sobj != 0 && M.hasObj ? M.sobj : 1;
      bool bad = ux != wx || ug != wg || os != wo; if( ux && wx ) for( int i = 0; i < n; ++i ) bad |= sx[i] != (M.sx[i] > 0 ? M.sx[i] : 1.); if( ug && wg ) for( int i = 0; i < m; ++i ) bad |= sgv[i] != (M.sg[i] > 0 ? M.sg[i] : 1.);
      if( bad ) out().viol("", "scaling-suffix", "scaling factors differ from the suffix values | " + desc);
   }
   std::vector<Index> ji(nj + 1), jj(nj + 1), hi(nh + 1), hj(nh + 1); t->eval_jac_g(n, NULL, false, m, nj, ji.data(), jj.data(), NULL); t->eval_h(n, NULL, false, 1., m, NULL, false, nh, hi.data(), hj.data(), NULL);
   // ---- evaluations in random order, partly at points where functions are not defined
   for( int q = 0; q < 6; ++q ) {
      Vec x = p.x0; for( auto& v : x ) v += r.pickd({0, 0.3, 3}) * r.gauss();
      double fs; double fv = M.hasObj ? p.f.val(x.data(), &fs) : 0; if( !M.hasObj ) fs = 0; Vec gv(m), gsc(m); bool gok = true; for( int i = 0; i < m; ++i ) { gv[i] = p.g[i].val(x.data(), &gsc[i]); gok &= std::isfinite(gv[i]); } bool fok = std::isfinite(fv), dom = fok && gok;
      for( int j = 0; j < n; ++j ) for( auto& e : p.f.t ) if( e.k == SQRTT && e.i == j && x[j] == 0 ) dom = false;
      Vec gr(n, 0.), gra(n, 0.); if( M.hasObj ) p.f.grad(x.data(), 1., gr.data(), gra.data()); Vec J, Ja; p.J(x.data(), J, &Ja); Vec lam(m); for( auto& v : lam ) v = r.gauss(); double of = r.pickd({1, 0, 2.5}); Vec H(n * n, 0.); if( M.hasObj ) { if( of != 0 ) p.f.hess(x.data(), sg * of, n, H.data()); } for( int i = 0; i < m; ++i ) p.g[i].hess(x.data(), lam[i], n, H.data());
      bool nx = true; std::vector<int> ordr = {0, 1, 2, 3, 4, 0, 4}; r.shuffle(ordr); int cnt = r.ri(1, 7);
      for( int z = 0; z < cnt; ++z ) {
         int w = ordr[z]; if( w == 4 && !dom ) continue; bool ok = true; const char* bad = nullptr; out().stat(dom ? "evals" : "evals_outside");
         if( w == 0 ) { Number v = 77; ok = t->eval_f(n, x.data(), nx, v); if( dom && ok && !closeTo(v, sg * fv, fs) ) bad = "objective"; if( !fok && ok ) bad = "objective (undefined)"; }
         else if( w == 1 ) { Vec v(n, 77.); ok = t->eval_grad_f(n, x.data(), nx, v.data()); if( dom && ok ) for( int j = 0; j < n; ++j ) if( !closeTo(v[j], sg * gr[j], gra[j]) ) bad = "gradient"; }
         else if( w == 2 ) { Vec v(m + 1, 77.); ok = t->eval_g(n, x.data(), nx, m, v.data()); if( dom && ok ) for( int j = 0; j < m; ++j ) if( !closeTo(v[j], gv[j], gsc[j]) ) bad = "constraints"; if( !gok && ok ) bad = "constraints (undefined)"; }
         else if( w == 3 ) { Vec v(nj + 1, 77.); ok = t->eval_jac_g(n, x.data(), nx, m, nj, NULL, NULL, v.data()); if( dom && ok ) { Vec D(m * n, 0.); for( int k = 0; k < nj; ++k ) { int a1 = ji[k] - base, b1 = jj[k] - base; if( a1 < 0 || a1 >= m || b1 < 0 || b1 >= n ) { bad = "Jacobian structure"; break; } D[a1 * n + b1] += v[k]; } for( int k = 0; k < m * n; ++k ) if( !closeTo(D[k], J[k], Ja[k]) ) bad = "Jacobian"; } }
         else { Vec v(nh + 1, 77.); ok = t->eval_h(n, x.data(), nx, of, m, lam.data(), true, nh, NULL, NULL, v.data()); if( ok ) { Vec D(n * n, 0.); for( int k = 0; k < nh; ++k ) { int a1 = hi[k] - base, b1 = hj[k] - base; if( a1 < 0 || a1 >= n || b1 < 0 || b1 >= n ) { bad = "Hessian structure"; break; } D[a1 * n + b1] += v[k]; if( a1 != b1 ) D[b1 * n + a1] += v[k]; } double hs = 0; for( double d : H ) hs = std::max(hs, std::fabs(d)); for( int k = 0; k < n * n; ++k ) if( !closeTo(D[k], H[k], 100 * hs) ) bad = "Hessian"; } }
         if( dom && !ok ) bad = "evaluation failed"; nx = false;
         if( bad ) { out().viol("", "eval", fmt("%s differs from the model (call kind %d) | ", bad, w) + desc); q = 99; break; }
      }
   }
   // ---- solve in process
   SmartPtr<Spy> spy = new Spy; spy->t = t; if( r.chance(0.1) ) spy->stopAt = r.ri(0, 5); int ret = app->OptimizeTNLP(SmartPtr<TNLP>(GetRawPtr(spy))); out().stat("solves");
   Sol S = readSol("m.sol", n, m); std::string in = slurp("m.sol"); unlink("m.sol");
   if( spy->fin ) {
      out().stat("solutions_written");
      if( !S.ok ) { out().viol("", "sol-file", "no readable .sol file | " + desc); return; }
      static const std::map<int, int> code = {{SUCCESS, 0}, {STOP_AT_ACCEPTABLE_POINT, 1}, {FEASIBLE_POINT_FOUND, 2}, {LOCAL_INFEASIBILITY, 200}, {DIVERGING_ITERATES, 300}, {MAXITER_EXCEEDED, 400}, {CPUTIME_EXCEEDED, 401}, {WALLTIME_EXCEEDED, 402}, {USER_REQUESTED_STOP, 403}, {STOP_AT_TINY_STEP, 500}, {RESTORATION_FAILURE, 501}, {ERROR_IN_STEP_COMPUTATION, 502}, {INVALID_NUMBER_DETECTED, 550}, {TOO_FEW_DEGREES_OF_FREEDOM, 551}, {INVALID_OPTION, 552}, {OUT_OF_MEMORY, 553}, {INTERNAL_ERROR, 554}, {UNASSIGNED, 599}};
      auto c = code.find(spy->st); out().stat(fmt("code:%d", S.code)); if( c == code.end() || c->second != S.code ) out().viol("", "sol-code", fmt("solve_result_num %d for status %d | ", S.code, (int) spy->st) + desc);
      if( ret == Solve_Succeeded && S.code != 0 ) out().viol("", "sol-code", fmt("solve_result_num %d for return status %d | ", S.code, ret) + desc);
      if( ret == Solve_Succeeded && S.msg.find("Optimal Solution Found") == std::string::npos ) out().viol("", "sol-message", "message " + S.msg + " | " + desc);
      Vec zL = S.suf.count("ipopt_zL_out") ? S.suf["ipopt_zL_out"] : Vec(n, 0.), zU = S.suf.count("ipopt_zU_out") ? S.suf["ipopt_zU_out"] : Vec(n, 0.);
      bool bx = S.x != spy->x, bl = false, bz = false; for( int i = 0; i < m; ++i ) bl |= S.lam.size() != (size_t) m || S.lam[i] != -sg * spy->lam[i]; for( int i = 0; i < n; ++i ) bz |= zL[i] != sg * spy->zl[i] || zU[i] != -sg * spy->zu[i];
      auto fin = [&](const Vec& v) { for( double d : v ) if( !std::isfinite(d) ) return false; return true; };
      if( fin(spy->x) && fin(spy->lam) && fin(spy->zl) && fin(spy->zu) ) { if( bx || bl || bz ) out().viol("", "sol-values", fmt("values in the .sol file differ from the final report (x %d, duals %d, suffixes %d) | ", bx, bl, bz) + desc); }
      if( S.code == 0 && ret == Solve_Succeeded ) {   // AMPL convention: grad f = J' * dual + zL_out + zU_out
         Vec gr(n, 0.), ga(n, 0.); if( M.hasObj ) p.f.grad(S.x.data(), 1., gr.data(), ga.data()); Vec J; p.J(S.x.data(), J); double big = 1; for( double d : S.lam ) big = std::max(big, std::fabs(d)); for( double d : zL ) big = std::max(big, std::fabs(d)); for( double d : zU ) big = std::max(big, std::fabs(d));
         Number tol = 0; app->Options()->GetNumericValue("tol", tol, "");
         if( tol <= 1e-6 ) for( int j = 0; j < n; ++j ) { double s = gr[j] - zL[j] - zU[j], sa = ga[j]; for( int i = 0; i < m; ++i ) { s -= J[i * n + j] * S.lam[i]; sa += std::fabs(J[i * n + j] * S.lam[i]); } out().stat("kkt_rows"); if( p.fixed(j) ) continue; if( !(std::fabs(s) <= 1e-2 * (1 + sa + big)) ) { out().viol("", "sol-kkt", fmt("AMPL optimality identity violated by %g in variable %d | ", s, j) + desc); break; }
            if( sg * zL[j] < 0 || sg * zU[j] > 0 ) { out().viol("", "sol-sign", fmt("sign of ipopt_zL_out/zU_out of variable %d | ", j) + desc); break; } }
      }
   }
   else if( !in.empty() ) out().viol("", "sol-file", ".sol file without final report | " + desc);
   // ---- the solver program gives the same file
   if( spy->stopAt < 0 && r.chance(0.5) ) {
      int rc = run(av, es, "log.txt"); std::string ex = slurp("m.sol"); out().stat("program_runs");
      if( rc != 0 ) out().viol("", "program", fmt("solver program ends with %d | ", rc) + desc); else if( ex != in ) out().viol("", "program-sol", "solution file of the solver program differs | " + desc);
   }
   unlink("m.sol"); unlink("ipopt.opt"); unlink("alt.opt");
   // ---- refused input never yields a solution file
   if( r.chance(0.15) ) {
      std::vector<std::string> b = {"ipopt", "m", "-AMPL", "print_level=0", "sb=yes"}; int k = r.ri(0, 4); const char* what = "";
      if( k == 0 ) { b.push_back("tol=-1"); what = "invalid number"; } else if( k == 1 ) { b.push_back("mu_strategy=nonsense"); what = "invalid string"; } else if( k == 2 ) { b[1] = "missing"; what = "missing model"; } else if( k == 3 ) { std::string s = slurp("m.nl"); FILE* f = fopen("m.nl", "w"); s = s.substr(0, s.size() * r.uni(0.2, 0.9)); fputs(s.c_str(), f); fclose(f); what = "truncated model"; } else { b.push_back("max_iter=-3"); what = "invalid integer"; }
      int rc = run(b, "", "log.txt"); std::string ex = slurp("m.sol"); out().stat("refused_inputs"); if( !ex.empty() && k != 3 ) out().viol("", "refused", fmt("%s: solution file written (exit %d) | ", what, rc) + desc); if( rc == 0 && k != 3 ) out().viol("", "refused-exit", fmt("%s: exit status 0 | ", what) + desc); if( k != 3 && (rc == -SIGSEGV || rc == -SIGBUS || rc == -SIGFPE) ) out().viol("", "refused-crash", fmt("%s: signal %d | ", what, -rc) + desc);
   }
   unlink("m.nl"); unlink("m.sol"); unlink("log.txt"); unsetenv("ipopt_options");
}
int main(int argc, char** argv) {
   Args a = parse(argc, argv); g_exe = a.kv["exe"];
   std::string d = a.scratch + fmt("/ampl%d", (int) getpid()); mkdir(d.c_str(), 0700); if( chdir(d.c_str()) ) return 7;
   if( a.mode == "c16" ) runCases(a, c16); else return 7;
   if( chdir("/") == 0 ) rmdir(d.c_str());
   return 0;
}
