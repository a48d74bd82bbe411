// C09: every vector and matrix type against plain dense arithmetic (long double), operation by operation.
#include "base.hpp"
#include "IpDenseVector.hpp"
#include "IpCompoundVector.hpp"
#include "IpCompoundMatrix.hpp"
#include "IpCompoundSymMatrix.hpp"
#include "IpDenseGenMatrix.hpp"
#include "IpDenseSymMatrix.hpp"
#include "IpDiagMatrix.hpp"
#include "IpExpandedMultiVectorMatrix.hpp"
#include "IpExpansionMatrix.hpp"
#include "IpIdentityMatrix.hpp"
#include "IpLowRankUpdateSymMatrix.hpp"
#include "IpMultiVectorMatrix.hpp"
#include "IpScaledMatrix.hpp"
#include "IpSumMatrix.hpp"
#include "IpSumSymMatrix.hpp"
#include "IpSymScaledMatrix.hpp"
#include "IpTransposeMatrix.hpp"
#include "IpZeroMatrix.hpp"
#include "IpZeroSymMatrix.hpp"
#include "IpGenTMatrix.hpp"
#include "IpSymTMatrix.hpp"
#include "IpTripletHelper.hpp"
#include <memory>
using namespace mon;
using namespace Ipopt;
typedef long double ld;
typedef std::vector<ld> LV;
static const double NaN = std::numeric_limits<double>::quiet_NaN(), INF = std::numeric_limits<double>::infinity();
static std::string hist;   // operations of this case, for the message
static void log(const std::string& s) { hist += s; hist += "; "; if( hist.size() > 700 ) hist.erase(0, 300); }
static void bad(const char* k, const std::string& m) { out().viol("", k, m + " | last operations: " + hist); }

struct Sp { bool comp = false; int n = 0; SmartPtr<const VectorSpace> s; std::vector<Sp> c; std::string str() const { if( !comp ) return fmt("%d", n); std::string r = "("; for( auto& q : c ) r += q.str() + ","; return r + ")"; } };
static Sp denseSp(int n) { Sp s; s.n = n; s.s = new DenseVectorSpace(n); return s; }
static Sp mkSp(Rng& r, int depth = 0) {
   if( depth >= 2 || r.chance(depth ? 0.75 : 0.45) ) return denseSp(r.chance(0.15) ? 0 : r.chance(0.1) ? 1 : r.ri(1, 7));
   Sp s; s.comp = true; int k = r.ri(1, 4); for( int i = 0; i < k; ++i ) { s.c.push_back(mkSp(r, depth + 1)); s.n += s.c.back().n; }
   CompoundVectorSpace* cs = new CompoundVectorSpace(k, s.n); for( int i = 0; i < k; ++i ) cs->SetCompSpace(i, *s.c[i].s); s.s = cs; return s;
}
static void getInto(const Vector& v, Vec& o) {
   if( const CompoundVector* c = dynamic_cast<const CompoundVector*>(&v) ) { for( Index i = 0; i < c->NComps(); ++i ) getInto(*c->GetComp(i), o); return; }
   const DenseVector* d = dynamic_cast<const DenseVector*>(&v);
   if( d->Dim() == 0 ) return;
   if( d->IsHomogeneous() ) o.insert(o.end(), d->Dim(), d->Scalar()); else o.insert(o.end(), d->Values(), d->Values() + d->Dim());
}
static Vec get(const Vector& v) { Vec o; getInto(v, o); return o; }
static bool homog(const Vector& v) { const DenseVector* d = dynamic_cast<const DenseVector*>(&v); return d && d->Dim() && d->IsHomogeneous(); }
static double rv(Rng& r, int k) {   // k: 0 any, 1 positive
   double u = r.u01(); double v = u < 0.1 ? 1. : u < 0.2 ? (k ? 2. : 0.) : u < 0.8 ? r.gauss() : r.gauss() * r.logu(1e-6, 1e6);
   return k ? std::fabs(v) + 1e-3 : v;
}
/// new values: through plain sets, homogeneous sets, component access
static void writable(Vector& v);
static void put(Rng& r, Vector& v, int kind) {
   if( CompoundVector* c = dynamic_cast<CompoundVector*>(&v) ) {
      if( r.chance(0.15) ) { writable(v); c->Set(rv(r, kind)); return; }
      for( Index i = 0; i < c->NComps(); ++i ) {
         if( r.chance(0.2) ) { SmartPtr<Vector> nv = c->GetComp(i)->MakeNew(); put(r, *nv, kind); if( r.chance(0.5) ) c->SetComp(i, *nv); else c->SetCompNonConst(i, *nv); }
         else if( c->IsCompConst(i) ) { SmartPtr<Vector> nv = c->GetComp(i)->MakeNew(); put(r, *nv, kind); c->SetCompNonConst(i, *nv); }
         else put(r, *c->GetCompNonConst(i), kind);
      }
      return;
   }
   DenseVector* d = dynamic_cast<DenseVector*>(&v);
   if( r.chance(0.35) ) { d->Set(rv(r, kind)); return; }
   Vec q(d->Dim()); for( double& e : q ) e = rv(r, kind);
   if( !q.size() ) { d->Set(1.); return; }
   if( r.chance(0.5) ) d->SetValues(q.data()); else { d->Set(0.); double* p = d->Values(); for( size_t i = 0; i < q.size(); ++i ) p[i] = q[i]; }
}
/// all leaves must be writable for elementwise operations
static void writable(Vector& v) { if( CompoundVector* c = dynamic_cast<CompoundVector*>(&v) ) for( Index i = 0; i < c->NComps(); ++i ) { if( c->IsCompConst(i) ) { SmartPtr<Vector> n = c->GetComp(i)->MakeNewCopy(); c->SetCompNonConst(i, *n); } writable(*c->GetCompNonConst(i)); } }

static bool cmp(const char* key, const std::string& what, const Vec& a, const LV& e, const LV& sc, double rel = 1e-13) {
   if( a.size() != e.size() ) { bad(key, what + ": wrong size"); return false; }
   for( size_t i = 0; i < a.size(); ++i ) {
      double ex = (double) e[i]; bool ok = (std::isnan(ex) && std::isnan(a[i])) || a[i] == ex || std::fabs((ld) a[i] - e[i]) <= rel * sc[i] + 1e-300;
      if( !ok ) { bad(key, what + fmt(": entry %d is %.17g, expected %.17g", (int) i, a[i], ex)); return false; }
   }
   out().stat("entries_checked", (double) a.size());
   return true;
}
static double coef(Rng& r) { return r.pickd({0., 1., -1., 0.5, -2., 3.7, r.gauss()}); }

// ------------------------------------------------------------------ vectors
static void scalars(Rng& r, const Vector& v, const std::string& nm) {
   Vec a = get(v); size_t n = a.size(); ld s2 = 0, s1 = 0, mx = -INF, mn = INF, am = 0, su = 0, sl = 0, sla = 0; bool pos = true, fin = true;
   for( double x : a ) { s2 += (ld) x * x; s1 += std::fabs(x); mx = std::max<ld>(mx, x); mn = std::min<ld>(mn, x); am = std::max<ld>(am, std::fabs(x)); su += x; pos = pos && x > 0; if( x > 0 ) { sl += std::log((ld) x); sla += std::fabs(std::log(x)); } fin = fin && std::isfinite(x); }
   auto q = [&](const char* k, double got, ld e, ld sc) { out().stat("scalars_checked"); if( !(std::fabs(got - e) <= 1e-13 * sc + 1e-300) && !(got == (double) e) ) { bad(k, nm + fmt(": %s = %.17g, expected %.17g (dim %d)", k, got, (double) e, (int) n)); } };
   if( v.HasValidNumbers() != fin ) bad("HasValidNumbers", nm + fmt(": HasValidNumbers %d, expected %d", !fin, fin));
   if( !fin ) return;
   if( r.chance(0.6) ) q("Nrm2", v.Nrm2(), std::sqrt(s2), std::sqrt(s2)); if( r.chance(0.6) ) q("Asum", v.Asum(), s1, s1); if( r.chance(0.6) ) q("Amax", v.Amax(), am, 0);
   if( n && r.chance(0.6) ) q("Max", v.Max(), mx, 0); if( n && r.chance(0.6) ) q("Min", v.Min(), mn, 0); if( r.chance(0.6) ) q("Sum", v.Sum(), su, s1); if( pos && r.chance(0.6) ) q("SumLogs", v.SumLogs(), sl, sla + 20. * n);
}
static void c09v(Rng& r, long) {
   hist.clear();
   Sp sp = mkSp(r); int K = 4; std::vector<SmartPtr<Vector> > V(K); std::vector<bool> init(K, false);
   for( int k = 0; k < K; ++k ) { V[k] = sp.s->MakeNew(); if( k < 3 ) { put(r, *V[k], 0); init[k] = true; } }
   log("space " + sp.str());
   int nops = r.ri(10, 60);
   for( int op = 0; op < nops; ++op ) {
      int t = r.ri(0, K - 1), i = r.ri(0, K - 1), j = r.ri(0, K - 1); while( !init[i] ) i = r.ri(0, K - 1); while( !init[j] ) j = r.ri(0, K - 1);
      int o = r.ri(0, 24);
      bool needT = !(o == 0 || o == 1 || o == 2);
      double a = coef(r), b = coef(r), c = coef(r);
      if( o == 2 && !init[t] ) c = 0;
      if( o == 21 && !init[t] ) { c = 0; needT = false; }
      if( needT && !init[t] ) continue;
      writable(*V[t]);
      Vec x = get(*V[i]), y = get(*V[j]), z = init[t] ? get(*V[t]) : Vec(sp.n, 0.); int n = sp.n; LV e(n), sc(n); std::string nm; bool chk = true;
      TaggedObject::Tag tag0 = V[t]->GetTag(); bool modifies = true;
      switch( o ) {
         case 0: nm = fmt("v%d.Copy(v%d)", t, i); if( i == t ) continue; V[t]->Copy(*V[i]); for( int k = 0; k < n; ++k ) e[k] = x[k]; break;
         case 1: nm = fmt("v%d.Set(%g)", t, a); V[t]->Set(a); for( int k = 0; k < n; ++k ) e[k] = a; break;
         case 2: nm = fmt("v%d.AddTwoVectors(%g,v%d,%g,v%d,%g)", t, a, i, b, j, c); if( i == t || j == t ) continue; V[t]->AddTwoVectors(a, *V[i], b, *V[j], c); for( int k = 0; k < n; ++k ) { e[k] = (ld) a * x[k] + (ld) b * y[k] + (c ? (ld) c * z[k] : 0); sc[k] = std::fabs(a * x[k]) + std::fabs(b * y[k]) + std::fabs(c * z[k]); } break;
         case 3: nm = fmt("v%d.Scal(%g)", t, a); V[t]->Scal(a); for( int k = 0; k < n; ++k ) { e[k] = (ld) a * z[k]; sc[k] = std::fabs(a * z[k]); } break;
         case 4: nm = fmt("v%d.Axpy(%g,v%d)", t, a, i); V[t]->Axpy(a, *V[i]); for( int k = 0; k < n; ++k ) { e[k] = z[k] + (ld) a * x[k]; sc[k] = std::fabs(z[k]) + std::fabs(a * x[k]); } break;
         case 5: { nm = fmt("v%d.Dot(v%d)", i, j); modifies = false; ld s = 0, q = 0; for( int k = 0; k < n; ++k ) { s += (ld) x[k] * y[k]; q += std::fabs(x[k] * y[k]); } double g = V[i]->Dot(*V[j]); if( !(std::fabs(g - s) <= 1e-13 * q + 1e-300) ) bad("Dot", nm + fmt(" = %.17g, expected %.17g", g, (double) s)); out().stat("scalars_checked"); chk = false; break; }
         case 6: nm = fmt("v%d.ElementWiseMultiply(v%d)", t, i); V[t]->ElementWiseMultiply(*V[i]); for( int k = 0; k < n; ++k ) { e[k] = (ld) z[k] * x[k]; sc[k] = std::fabs(z[k] * x[k]); } break;
         case 7: { nm = fmt("v%d.ElementWiseDivide(v%d)", t, i); bool ok = true; for( double q : x ) ok = ok && q != 0; if( !ok ) { put(r, *V[i], 1); x = get(*V[i]); init[i] = true; if( i == t ) z = x; writable(*V[t]); } V[t]->ElementWiseDivide(*V[i]); for( int k = 0; k < n; ++k ) { e[k] = (ld) z[k] / x[k]; sc[k] = std::fabs(z[k] / x[k]); } break; }
         case 8: nm = fmt("v%d.ElementWiseSelect(v%d)", t, i); V[t]->ElementWiseSelect(*V[i]); for( int k = 0; k < n; ++k ) e[k] = z[k] > 0 ? x[k] : z[k] < 0 ? -x[k] : 0.; break;
         case 9: nm = fmt("v%d.ElementWiseMax(v%d)", t, i); V[t]->ElementWiseMax(*V[i]); for( int k = 0; k < n; ++k ) e[k] = std::max(z[k], x[k]); break;
         case 10: nm = fmt("v%d.ElementWiseMin(v%d)", t, i); V[t]->ElementWiseMin(*V[i]); for( int k = 0; k < n; ++k ) e[k] = std::min(z[k], x[k]); break;
         case 11: { bool ok = true; for( double q : z ) ok = ok && q != 0; if( !ok ) continue; nm = fmt("v%d.ElementWiseReciprocal", t); V[t]->ElementWiseReciprocal(); for( int k = 0; k < n; ++k ) { e[k] = 1 / (ld) z[k]; sc[k] = std::fabs(1 / z[k]); } break; }
         case 12: nm = fmt("v%d.ElementWiseAbs", t); V[t]->ElementWiseAbs(); for( int k = 0; k < n; ++k ) e[k] = std::fabs(z[k]); break;
         case 13: { bool ok = true; for( double q : z ) ok = ok && q >= 0; if( !ok ) continue; nm = fmt("v%d.ElementWiseSqrt", t); V[t]->ElementWiseSqrt(); for( int k = 0; k < n; ++k ) { e[k] = std::sqrt((ld) z[k]); sc[k] = std::sqrt(z[k]); } break; }
         case 14: nm = fmt("v%d.ElementWiseSgn", t); V[t]->ElementWiseSgn(); for( int k = 0; k < n; ++k ) e[k] = z[k] > 0 ? 1 : z[k] < 0 ? -1 : 0; break;
         case 15: nm = fmt("v%d.AddScalar(%g)", t, a); V[t]->AddScalar(a); for( int k = 0; k < n; ++k ) { e[k] = (ld) z[k] + a; sc[k] = std::fabs(z[k]) + std::fabs(a); } break;
         case 16: { // fraction to the boundary
            SmartPtr<Vector> p = sp.s->MakeNew(), d = sp.s->MakeNew(); put(r, *p, 1); put(r, *d, 0); Vec pv = get(*p), dv = get(*d); double tau = r.pickd({0.99, 1., 0.5, 0.995, 0.}); nm = fmt("FracToBound(tau=%g)", tau); ld al = 1; for( int k = 0; k < n; ++k ) if( dv[k] < 0 ) al = std::min<ld>(al, -(ld) tau / dv[k] * pv[k]);
            double g = p->FracToBound(*d, tau); if( std::fabs(g - al) > 1e-13 * al ) bad("FracToBound", nm + fmt(" = %.17g, expected %.17g", g, (double) al)); out().stat("scalars_checked"); chk = false; modifies = false; break; }
         case 17: { // put new values
            put(r, *V[t], r.chance(0.3)); nm = fmt("v%d := values", t); chk = false; init[t] = true; break; }
         case 18: { // dense block access
            DenseVector* d = dynamic_cast<DenseVector*>(GetRawPtr(V[t])); if( !d || n == 0 ) continue; int k = r.ri(0, n), pos = r.ri(0, n - k); SmartPtr<DenseVectorSpace> ss = new DenseVectorSpace(k); SmartPtr<DenseVector> q = ss->MakeNewDenseVector(); put(r, *q, 0); Vec qv = get(*q);
            nm = fmt("v%d.CopyToPos(%d, dim %d)", t, pos, k); d->CopyToPos(pos, *q); for( int l = 0; l < n; ++l ) e[l] = l >= pos && l < pos + k ? qv[l - pos] : z[l]; break; }
         case 19: { DenseVector* d = dynamic_cast<DenseVector*>(GetRawPtr(V[t])); if( !d || n == 0 ) continue; int N = n + r.ri(0, 4), pos = r.ri(0, N - n); SmartPtr<DenseVectorSpace> ss = new DenseVectorSpace(N); SmartPtr<DenseVector> q = ss->MakeNewDenseVector(); put(r, *q, 0); Vec qv = get(*q);
            nm = fmt("v%d.CopyFromPos(%d)", t, pos); d->CopyFromPos(pos, *q); for( int l = 0; l < n; ++l ) e[l] = qv[pos + l]; break; }
         case 20: { DenseVector* d = dynamic_cast<DenseVector*>(GetRawPtr(V[t])); if( !d || !n ) continue; nm = fmt("v%d.ExpandedValues", t); const DenseVector* cd = d; const double* p = cd->ExpandedValues(); for( int k = 0; k < n; ++k ) { e[k] = z[k]; if( p[k] != z[k] ) { bad("ExpandedValues", nm + fmt("[%d] = %g, expected %g", k, p[k], z[k])); break; } } modifies = false; break; }
         case 21: { if( t == i || t == j ) continue; nm = fmt("v%d.AddVectorQuotient(%g,v%d,s,%g)", t, a, i, c); SmartPtr<Vector> s = sp.s->MakeNew(); put(r, *s, 1); Vec sv = get(*s); V[t]->AddVectorQuotient(a, *V[i], *s, c); for( int k = 0; k < n; ++k ) { e[k] = (ld) a * x[k] / sv[k] + (c ? (ld) c * z[k] : 0); sc[k] = std::fabs(a * x[k] / sv[k]) + std::fabs(c * z[k]); } break; }
         case 22: { nm = fmt("v%d.MakeNewCopy", t); SmartPtr<Vector> q = V[t]->MakeNewCopy(); cmp("MakeNewCopy", nm, get(*q), LV(z.begin(), z.end()), LV(n, 0)); scalars(r, *q, nm); q->AddScalar(1.); for( int k = 0; k < n; ++k ) e[k] = z[k]; modifies = false; break; }
         case 23: { // non-finite entries
            if( !n ) continue; SmartPtr<Vector> q = V[t]->MakeNewCopy(); writable(*q); Vec tv = z; TripletHelper::PutValuesInVector(n, tv.data(), *q); bool h = q->HasValidNumbers(); if( !h ) bad("HasValidNumbers", "finite vector refused"); tv[r.ri(0, n - 1)] = r.pickd({NaN, INF, -INF}); TripletHelper::PutValuesInVector(n, tv.data(), *q); if( q->HasValidNumbers() ) bad("HasValidNumbers", "vector with a non-finite entry accepted"); chk = false; modifies = false; nm = "nonfinite"; break; }
         default: { nm = fmt("v%d.AddOneVector(%g,v%d,%g)", t, a, i, c); if( i == t ) continue; V[t]->AddOneVector(a, *V[i], c); for( int k = 0; k < n; ++k ) { e[k] = (ld) a * x[k] + (c ? (ld) c * z[k] : 0); sc[k] = std::fabs(a * x[k]) + std::fabs(c * z[k]); } break; }
      }
      log(nm); out().stat("vector_ops"); out().stat(fmt("vop%d", o));
      if( o == 0 || o == 1 || o == 2 || o == 21 || o == 24 ) init[t] = true;
      if( chk && modifies && V[t]->GetTag() == tag0 && n && (a != 1 || o != 3) ) bad("tag", nm + ": tag unchanged by a modification");
      if( !modifies && o != 5 && o != 16 && V[t]->GetTag() != tag0 ) bad("tag-const", nm + ": tag changed by a query");
      if( chk ) cmp("vector-op", nm, get(*V[t]), e, sc);
      for( int k = 0; k < K; ++k ) if( init[k] && r.chance(0.5) ) { Vec q = get(*V[k]); double mx = 0; for( double d : q ) mx = std::max(mx, std::fabs(d)); if( !(mx < 1e12) ) put(r, *V[k], 0); scalars(r, *V[k], fmt("v%d after ", k) + nm); }
   }
   out().sample(hist);
   out().sig(hmix(hstr(sp.str()), hstr(hist)));
}

// ------------------------------------------------------------------ matrices
struct Mx { SmartPtr<Matrix> m; Sp R, C; std::string nm; bool sym = false, amax = true, trip = true, settable = true; std::function<LV()> dense; std::function<void(Rng&)> mutate; std::function<void(Rng&, double)> poison; };
static LV zeroD(int r, int c) { return LV((size_t) r * c, 0.L); }
static Mx mkMat(Rng& r, const Sp& R, const Sp& C, int depth);
static Mx mkSym(Rng& r, const Sp& S, int depth);
static Mx leafGen(Rng& r, const Sp& R, const Sp& C) {
   Mx x; x.R = R; x.C = C; int m = R.n, n = C.n;
   if( r.chance(0.4) ) {
      SmartPtr<DenseGenMatrixSpace> s = new DenseGenMatrixSpace(m, n); SmartPtr<DenseGenMatrix> q = s->MakeNewDenseGenMatrix(); x.nm = fmt("DenseGen%dx%d", m, n); x.trip = false;
      auto fill = [q, m, n](Rng& g) { double* v = q->Values(); for( int k = 0; k < m * n; ++k ) v[k] = rv(g, 0); }; fill(r); x.mutate = fill; x.poison = [q, m, n](Rng& g, double p) { if( m * n ) q->Values()[g.ri(0, m * n - 1)] = p; };
      x.dense = [q, m, n]() { LV d = zeroD(m, n); const double* v = ConstPtr(q)->Values(); for( int i = 0; i < m; ++i ) for( int j = 0; j < n; ++j ) d[(size_t) i * n + j] = v[i + (size_t) j * m]; return d; }; x.m = q;
   }
   else {
      int nz = m * n ? r.ri(0, 2 * m * n) : 0; bool dup = r.chance(0.4); std::vector<Index> ir, jc; std::set<std::pair<int, int> > seen;
      for( int k = 0; k < nz; ++k ) { int i = r.ri(1, m), j = r.ri(1, n); if( !dup && !seen.insert({i, j}).second ) continue; ir.push_back(i); jc.push_back(j); }
      nz = ir.size(); x.nm = fmt("GenT%dx%d(%d)", m, n, nz); x.amax = !dup;
      SmartPtr<GenTMatrixSpace> s = new GenTMatrixSpace(m, n, nz, ir.data(), jc.data()); SmartPtr<GenTMatrix> q = s->MakeNewGenTMatrix();
      auto fill = [q, nz](Rng& g) { Vec v(nz); for( double& e : v ) e = rv(g, 0); if( g.chance(0.5) ) q->SetValues(v.data()); else { double* p = q->Values(); for( int k = 0; k < nz; ++k ) p[k] = v[k]; } }; fill(r); x.mutate = fill; x.poison = [q, nz](Rng& g, double p) { if( nz ) q->Values()[g.ri(0, nz - 1)] = p; };
      x.dense = [q, m, n, nz]() { LV d = zeroD(m, n); const double* v = ConstPtr(q)->Values(); for( int k = 0; k < nz; ++k ) d[(size_t) (q->Irows()[k] - 1) * n + q->Jcols()[k] - 1] += v[k]; return d; }; x.m = q;
   }
   return x;
}
static Mx mkMat(Rng& r, const Sp& R, const Sp& C, int depth) {
   int m = R.n, n = C.n; Mx x; x.R = R; x.C = C;
   double u = r.u01();
   if( depth < 2 && u < 0.12 ) {   // scaled
      Mx in = mkMat(r, R, C, depth + 1); SmartPtr<Vector> rs, cs; Vec rv1(m, 1.), cv(n, 1.); bool rr = r.chance(0.5), cr = r.chance(0.5);
      if( r.chance(0.7) ) { rs = R.s->MakeNew(); put(r, *rs, 1); rv1 = get(*rs); if( rr ) for( double& e : rv1 ) e = 1 / e; } if( r.chance(0.7) ) { cs = C.s->MakeNew(); put(r, *cs, 1); cv = get(*cs); if( cr ) for( double& e : cv ) e = 1 / e; }
      SmartPtr<const MatrixSpace> is = in.m->OwnerSpace(); SmartPtr<ScaledMatrixSpace> s = new ScaledMatrixSpace(ConstPtr(rs), rr, is, ConstPtr(cs), cr); SmartPtr<ScaledMatrix> q = s->MakeNewScaledMatrix(); bool nc = r.chance(0.6); if( nc ) q->SetUnscaledMatrixNonConst(in.m); else q->SetUnscaledMatrix(ConstPtr(in.m));
      x.nm = "Scaled[" + in.nm + "]"; x.amax = false; x.trip = in.trip; x.m = q; auto id = in.dense; x.dense = [id, rv1, cv, m, n]() { LV d = id(); for( int i = 0; i < m; ++i ) for( int j = 0; j < n; ++j ) d[(size_t) i * n + j] *= (ld) rv1[i] * cv[j]; return d; };
      if( in.mutate ) { auto im = in.mutate; SmartPtr<Matrix> inm = in.m; x.mutate = [q, im, nc, inm](Rng& g) { if( nc ) { q->GetUnscaledMatrixNonConst(); im(g); } else { im(g); q->SetUnscaledMatrix(ConstPtr(inm)); } }; }
      if( in.poison && nc ) { auto ip = in.poison; x.poison = [q, ip](Rng& g, double p) { q->GetUnscaledMatrixNonConst(); ip(g, p); }; }
      return x;
   }
   if( depth < 2 && u < 0.2 ) {   // sum
      int k = r.ri(1, 3); SmartPtr<SumMatrixSpace> s = new SumMatrixSpace(m, n, k); std::vector<Mx> t; std::vector<double> f; x.nm = "Sum["; for( int i = 0; i < k; ++i ) { t.push_back(mkMat(r, R, C, depth + 1)); f.push_back(coef(r)); s->SetTermSpace(i, *t[i].m->OwnerSpace()); x.nm += fmt("%g*", f[i]) + t[i].nm + " "; x.trip = x.trip && t[i].trip; } x.nm += "]";
      SmartPtr<SumMatrix> q = s->MakeNewSumMatrix(); for( int i = 0; i < k; ++i ) q->SetTerm(i, f[i], *t[i].m); x.m = q; x.amax = false; auto fp = std::make_shared<std::vector<double> >(f);
      x.dense = [t, fp, m, n]() { LV d = zeroD(m, n); for( size_t i = 0; i < t.size(); ++i ) { LV e = t[i].dense(); for( size_t j = 0; j < d.size(); ++j ) if( (*fp)[i] != 0 ) d[j] += (*fp)[i] * e[j]; } return d; };
      x.mutate = [t, fp, q](Rng& g) { for( size_t i = 0; i < t.size(); ++i ) { if( t[i].mutate ) t[i].mutate(g); (*fp)[i] = coef(g); q->SetTerm((Index) i, (*fp)[i], *t[i].m); } };
      return x;
   }
   if( depth < 2 && u < 0.28 ) {   // transpose
      SmartPtr<Matrix> om; Mx in = mkMat(r, C, R, depth + 1); SmartPtr<const MatrixSpace> is = in.m->OwnerSpace();
      // (the original matrix of a transpose comes from its space)
      if( dynamic_cast<const GenTMatrix*>(GetRawPtr(in.m)) || dynamic_cast<const DenseGenMatrix*>(GetRawPtr(in.m)) || dynamic_cast<const ExpansionMatrix*>(GetRawPtr(in.m)) ) {
         SmartPtr<TransposeMatrixSpace> s = new TransposeMatrixSpace(GetRawPtr(is)); SmartPtr<TransposeMatrix> q = s->MakeNewTransposeMatrix(); SmartPtr<const Matrix> o = q->OrigMatrix(); x.nm = "Transpose[" + in.nm + "]"; x.amax = in.amax; x.trip = in.trip; x.m = q;
         if( GenTMatrix* g = const_cast<GenTMatrix*>(dynamic_cast<const GenTMatrix*>(GetRawPtr(o))) ) { SmartPtr<GenTMatrix> gg = g; GenTMatrix* src = dynamic_cast<GenTMatrix*>(GetRawPtr(in.m)); gg->SetValues(ConstPtr(SmartPtr<GenTMatrix>(src))->Values()); }
         else if( DenseGenMatrix* g = const_cast<DenseGenMatrix*>(dynamic_cast<const DenseGenMatrix*>(GetRawPtr(o))) ) g->Copy(*dynamic_cast<DenseGenMatrix*>(GetRawPtr(in.m)));
         LV d0 = in.dense(); x.dense = [d0, m, n]() { LV d = zeroD(m, n); for( int i = 0; i < m; ++i ) for( int j = 0; j < n; ++j ) d[(size_t) i * n + j] = d0[(size_t) j * m + i]; return d; };
         return x;
      }
   }
   if( depth < 2 && u < 0.36 && m == n && R.str() == C.str() ) { Mx s = mkSym(r, R, depth + 1); s.R = R; s.C = C; if( s.nm.compare(0, 4, "Diag") && s.nm.compare(0, 5, "Ident") && s.nm.compare(0, 4, "Zero") ) s.trip = false; return s; }
   if( (R.comp || C.comp) && u < 0.94 ) {   // compound blocks
      std::vector<Sp> rs = R.comp ? R.c : std::vector<Sp>(1, R), cs = C.comp ? C.c : std::vector<Sp>(1, C); int nr = rs.size(), nc = cs.size(); SmartPtr<CompoundMatrixSpace> s = new CompoundMatrixSpace(nr, nc, m, n); std::vector<Mx> t; std::vector<std::pair<int, int> > pos; std::vector<bool> ncst;
      for( int i = 0; i < nr; ++i ) s->SetBlockRows(i, rs[i].n); for( int j = 0; j < nc; ++j ) s->SetBlockCols(j, cs[j].n); x.nm = fmt("Compound%dx%d[", nr, nc);
      bool diag = nr == nc && r.chance(0.2);
      for( int i = 0; i < nr; ++i ) for( int j = 0; j < nc; ++j ) if( diag ? i == j : r.chance(0.7) ) { Mx b = mkMat(r, rs[i], cs[j], depth + 1); s->SetCompSpace(i, j, *b.m->OwnerSpace()); t.push_back(b); pos.push_back({i, j}); x.nm += fmt("(%d,%d)", i, j) + b.nm + " "; x.trip = x.trip && b.trip; x.amax = x.amax && b.amax; } x.nm += "]";
      SmartPtr<CompoundMatrix> q = s->MakeNewCompoundMatrix(); for( size_t k = 0; k < t.size(); ++k ) { ncst.push_back(r.chance(0.6)); if( ncst[k] ) q->SetCompNonConst(pos[k].first, pos[k].second, *t[k].m); else q->SetComp(pos[k].first, pos[k].second, *t[k].m); } x.m = q;
      std::vector<int> ro(nr + 1, 0), co(nc + 1, 0); for( int i = 0; i < nr; ++i ) ro[i + 1] = ro[i] + rs[i].n; for( int j = 0; j < nc; ++j ) co[j + 1] = co[j] + cs[j].n;
      x.dense = [=]() { LV d = zeroD(m, n); for( size_t k = 0; k < t.size(); ++k ) { LV e = t[k].dense(); int bm = t[k].R.n, bn = t[k].C.n; for( int i = 0; i < bm; ++i ) for( int j = 0; j < bn; ++j ) d[(size_t) (ro[pos[k].first] + i) * n + co[pos[k].second] + j] = e[(size_t) i * bn + j]; } return d; };
      x.mutate = [=](Rng& g) { for( size_t k = 0; k < t.size(); ++k ) if( t[k].mutate ) { if( ncst[k] ) { q->GetCompNonConst(pos[k].first, pos[k].second); t[k].mutate(g); } else { t[k].mutate(g); q->SetComp(pos[k].first, pos[k].second, *t[k].m); } } };
      for( size_t k = 0; k < t.size(); ++k ) if( t[k].poison && ncst[k] ) { auto ip = t[k].poison; auto ps = pos[k]; x.poison = [q, ip, ps](Rng& g, double p) { q->GetCompNonConst(ps.first, ps.second); ip(g, p); }; }
      return x;
   }
   if( !C.comp && u < 0.5 ) {   // multi-vector (columns are vectors of the row space)
      SmartPtr<MultiVectorMatrixSpace> s = new MultiVectorMatrixSpace(n, *R.s); SmartPtr<MultiVectorMatrix> q = s->MakeNewMultiVectorMatrix(); for( int j = 0; j < n; ++j ) { SmartPtr<Vector> v = R.s->MakeNew(); put(r, *v, 0); writable(*v); if( r.chance(0.5) ) q->SetVector(j, *v); else q->SetVectorNonConst(j, *v); }
      x.nm = fmt("MultiVector%dx%d", m, n); x.amax = x.trip = false; x.m = q; x.dense = [q, m, n]() { LV d = zeroD(m, n); for( int j = 0; j < n; ++j ) { Vec v = get(*q->GetVector(j)); for( int i = 0; i < m; ++i ) d[(size_t) i * n + j] = v[i]; } return d; };
      auto sp = R.s; x.mutate = [q, n, sp](Rng& g) { for( int j = 0; j < n; ++j ) { SmartPtr<Vector> v = sp->MakeNew(); put(g, *v, 0); writable(*v); q->SetVectorNonConst(j, *v); } };
      x.poison = [q, n, m, sp](Rng& g, double p) { if( n && m ) { SmartPtr<Vector> v = sp->MakeNew(); Vec z(m, 1.); z[g.ri(0, m - 1)] = p; TripletHelper::PutValuesInVector(m, z.data(), *v); q->SetVectorNonConst(g.ri(0, n - 1), *v); } };
      return x;
   }
   if( !R.comp && u < 0.62 ) {   // rows are vectors, possibly expanded
      bool ex = !C.comp && r.chance(0.5) && n > 0; Sp vs = C; SmartPtr<ExpansionMatrix> em; std::vector<Index> ps; if( ex ) { std::vector<Index> all; for( int j = 0; j < n; ++j ) all.push_back(j); r.shuffle(all); int k = r.ri(0, n); ps.assign(all.begin(), all.begin() + k); if( r.chance(0.7) ) std::sort(ps.begin(), ps.end()); vs = denseSp(k); SmartPtr<ExpansionMatrixSpace> es = new ExpansionMatrixSpace(n, k, ps.data()); em = es->MakeNewExpansionMatrix(); }
      SmartPtr<ExpandedMultiVectorMatrixSpace> s = new ExpandedMultiVectorMatrixSpace(m, *vs.s, ex ? SmartPtr<const ExpansionMatrix>(GetRawPtr(em)) : SmartPtr<const ExpansionMatrix>()); SmartPtr<ExpandedMultiVectorMatrix> q = s->MakeNewExpandedMultiVectorMatrix(); x.nm = fmt("ExpandedMultiVector%dx%d%s", m, n, ex ? "(expanded)" : ""); x.amax = false;
      auto nul = std::make_shared<std::vector<bool> >(m, false);
      auto fill = [q, m, vs, nul](Rng& g) { for( int i = 0; i < m; ++i ) { if( g.chance(0.15) ) { q->SetVector(i, NULL); (*nul)[i] = true; continue; } (*nul)[i] = false; SmartPtr<Vector> v = vs.s->MakeNew(); put(g, *v, 0); q->SetVector(i, ConstPtr(v)); } }; fill(r); x.mutate = fill; x.m = q;
      x.dense = [q, m, n, ex, ps, nul]() { LV d = zeroD(m, n); for( int i = 0; i < m; ++i ) if( !(*nul)[i] ) { Vec v = get(*q->GetVector(i)); if( ex ) for( size_t k = 0; k < ps.size(); ++k ) d[(size_t) i * n + ps[k]] = v[k]; else for( int j = 0; j < n; ++j ) d[(size_t) i * n + j] = v[j]; } return d; };
      x.trip = !C.comp;
      return x;
   }
   if( !R.comp && !C.comp && m >= n && u < 0.78 ) {   // expansion
      std::vector<Index> all; int off = r.ri(0, 1); for( int j = 0; j < m; ++j ) all.push_back(j); r.shuffle(all); std::vector<Index> ps(all.begin(), all.begin() + n); if( r.chance(0.7) ) std::sort(ps.begin(), ps.end()); std::vector<Index> po = ps; for( auto& e : po ) e += off;
      SmartPtr<ExpansionMatrixSpace> s = new ExpansionMatrixSpace(m, n, po.data(), off); SmartPtr<ExpansionMatrix> q = s->MakeNewExpansionMatrix(); x.nm = fmt("Expansion%dx%d", m, n); x.m = q; x.dense = [=]() { LV d = zeroD(m, n); for( int j = 0; j < n; ++j ) d[(size_t) ps[j] * n + j] = 1; return d; };
      return x;
   }
   if( R.comp || C.comp || u > 0.95 ) { SmartPtr<ZeroMatrixSpace> s = new ZeroMatrixSpace(m, n); x.m = s->MakeNewZeroMatrix(); x.nm = fmt("Zero%dx%d", m, n); x.dense = [m, n]() { return zeroD(m, n); }; return x; }
   return leafGen(r, R, C);
}
static Mx mkSym(Rng& r, const Sp& S, int depth) {
   int n = S.n; Mx x; x.R = x.C = S; x.sym = true; double u = r.u01();
   if( depth < 2 && u < 0.15 ) {   // scaled
      Mx in = mkSym(r, S, depth + 1); SmartPtr<Vector> sv = S.s->MakeNew(); put(r, *sv, 1); bool rc = r.chance(0.5); Vec v = get(*sv); if( rc ) for( double& e : v ) e = 1 / e; SymMatrix* im = dynamic_cast<SymMatrix*>(GetRawPtr(in.m)); SmartPtr<const SymMatrixSpace> is = im->OwnerSymMatrixSpace();
      SmartPtr<SymScaledMatrixSpace> s = new SymScaledMatrixSpace(ConstPtr(sv), rc, is); SmartPtr<SymScaledMatrix> q = s->MakeNewSymScaledMatrix(); q->SetUnscaledMatrixNonConst(SmartPtr<SymMatrix>(im)); x.nm = "SymScaled[" + in.nm + "]"; x.amax = false; x.trip = in.trip; x.m = q; auto id = in.dense;
      x.dense = [id, v, n]() { LV d = id(); for( int i = 0; i < n; ++i ) for( int j = 0; j < n; ++j ) d[(size_t) i * n + j] *= (ld) v[i] * v[j]; return d; };
      if( in.mutate ) { auto m = in.mutate; x.mutate = [q, m](Rng& g) { q->GetUnscaledMatrixNonConst(); m(g); }; } if( in.poison ) { auto m = in.poison; x.poison = [q, m](Rng& g, double p) { q->GetUnscaledMatrixNonConst(); m(g, p); }; }
      return x;
   }
   if( depth < 2 && u < 0.27 ) {   // sum
      int k = r.ri(1, 3); SmartPtr<SumSymMatrixSpace> s = new SumSymMatrixSpace(n, k); std::vector<Mx> t; auto f = std::make_shared<std::vector<double> >(); x.nm = "SumSym["; for( int i = 0; i < k; ++i ) { t.push_back(mkSym(r, S, depth + 1)); f->push_back(coef(r)); s->SetTermSpace(i, *dynamic_cast<SymMatrix*>(GetRawPtr(t[i].m))->OwnerSymMatrixSpace()); x.nm += fmt("%g*", f->back()) + t[i].nm + " "; x.trip = x.trip && t[i].trip; } x.nm += "]";
      SmartPtr<SumSymMatrix> q = s->MakeNewSumSymMatrix(); auto set = [q, t, f]() { for( size_t i = 0; i < t.size(); ++i ) q->SetTerm((Index) i, (*f)[i], *dynamic_cast<SymMatrix*>(GetRawPtr(t[i].m))); }; set(); x.m = q; x.amax = false;
      x.dense = [t, f, n]() { LV d = zeroD(n, n); for( size_t i = 0; i < t.size(); ++i ) { LV e = t[i].dense(); if( (*f)[i] != 0 ) for( size_t j = 0; j < d.size(); ++j ) d[j] += (*f)[i] * e[j]; } return d; };
      x.mutate = [t, f, set](Rng& g) { for( size_t i = 0; i < t.size(); ++i ) { if( t[i].mutate ) t[i].mutate(g); (*f)[i] = coef(g); } set(); };
      return x;
   }
   if( S.comp && u < 0.8 ) {   // compound
      int k = S.c.size(); SmartPtr<CompoundSymMatrixSpace> s = new CompoundSymMatrixSpace(k, n); for( int i = 0; i < k; ++i ) s->SetBlockDim(i, S.c[i].n); std::vector<Mx> t; std::vector<std::pair<int, int> > pos; x.nm = fmt("CompoundSym%d[", k);
      for( int i = 0; i < k; ++i ) for( int j = 0; j <= i; ++j ) if( r.chance(0.75) ) { Mx b = i == j ? mkSym(r, S.c[i], depth + 1) : mkMat(r, S.c[i], S.c[j], depth + 1); s->SetCompSpace(i, j, *b.m->OwnerSpace()); t.push_back(b); pos.push_back({i, j}); x.nm += fmt("(%d,%d)", i, j) + b.nm + " "; x.trip = x.trip && b.trip; x.amax = x.amax && b.amax; } x.nm += "]";
      SmartPtr<CompoundSymMatrix> q = s->MakeNewCompoundSymMatrix(); std::vector<bool> nc; for( size_t i = 0; i < t.size(); ++i ) { nc.push_back(r.chance(0.6)); if( nc[i] ) q->SetCompNonConst(pos[i].first, pos[i].second, *t[i].m); else q->SetComp(pos[i].first, pos[i].second, *t[i].m); } x.m = q; std::vector<int> o(k + 1, 0); for( int i = 0; i < k; ++i ) o[i + 1] = o[i] + S.c[i].n;
      x.dense = [=]() { LV d = zeroD(n, n); for( size_t b = 0; b < t.size(); ++b ) { LV e = t[b].dense(); int bm = t[b].R.n, bn = t[b].C.n; for( int i = 0; i < bm; ++i ) for( int j = 0; j < bn; ++j ) d[(size_t) (o[pos[b].first] + i) * n + o[pos[b].second] + j] = d[(size_t) (o[pos[b].second] + j) * n + o[pos[b].first] + i] = e[(size_t) i * bn + j]; } return d; };
      x.mutate = [=](Rng& g) { for( size_t b = 0; b < t.size(); ++b ) if( t[b].mutate ) { if( nc[b] ) { q->GetCompNonConst(pos[b].first, pos[b].second); t[b].mutate(g); } else { t[b].mutate(g); q->SetComp(pos[b].first, pos[b].second, *t[b].m); } } };
      for( size_t b = 0; b < t.size(); ++b ) if( t[b].poison && nc[b] ) { auto ip = t[b].poison; auto ps = pos[b]; x.poison = [q, ip, ps](Rng& g, double p) { q->GetCompNonConst(ps.first, ps.second); ip(g, p); }; }
      return x;
   }
   if( u < 0.4 ) {
      SmartPtr<DiagMatrixSpace> s = new DiagMatrixSpace(n); SmartPtr<DiagMatrix> q = s->MakeNewDiagMatrix(); auto sp = S.s; x.nm = fmt("Diag%d", n); auto fill = [q, sp](Rng& g) { SmartPtr<Vector> v = sp->MakeNew(); put(g, *v, 0); q->SetDiag(*v); }; fill(r); x.mutate = fill; x.m = q;
      x.dense = [q, n]() { LV d = zeroD(n, n); Vec v = get(*q->GetDiag()); for( int i = 0; i < n; ++i ) d[(size_t) i * n + i] = v[i]; return d; }; x.poison = [q, sp, n](Rng& g, double p) { if( !n ) return; SmartPtr<Vector> v = sp->MakeNew(); Vec z(n, 1.); z[g.ri(0, n - 1)] = p; TripletHelper::PutValuesInVector(n, z.data(), *v); q->SetDiag(*v); };
      return x;
   }
   if( u < 0.5 ) { SmartPtr<IdentityMatrixSpace> s = new IdentityMatrixSpace(n); SmartPtr<IdentityMatrix> q = s->MakeNewIdentityMatrix(); x.nm = fmt("Identity%d", n); x.mutate = [q](Rng& g) { q->SetFactor(coef(g)); }; x.poison = [q, n](Rng&, double p) { if( n ) q->SetFactor(p); }; if( r.chance(0.7) ) x.mutate(r); x.m = q; x.dense = [q, n]() { LV d = zeroD(n, n); for( int i = 0; i < n; ++i ) d[(size_t) i * n + i] = q->GetFactor(); return d; }; return x; }
   if( u < 0.68 || S.comp ) {   // low rank update
      bool proj = !S.comp && r.chance(0.5) && n > 0; Sp low = S; std::vector<Index> ps; SmartPtr<ExpansionMatrix> em; if( proj ) { for( int j = 0; j < n; ++j ) if( r.chance(0.6) ) ps.push_back(j); low = denseSp(ps.size()); SmartPtr<ExpansionMatrixSpace> es = new ExpansionMatrixSpace(n, (Index) ps.size(), ps.data()); em = es->MakeNewExpansionMatrix(); }
      bool red = proj && r.chance(0.5); SmartPtr<LowRankUpdateSymMatrixSpace> s = new LowRankUpdateSymMatrixSpace(n, SmartPtr<const Matrix>(GetRawPtr(em)), low.s, red); SmartPtr<LowRankUpdateSymMatrix> q = s->MakeNewLowRankUpdateSymMatrix(); x.nm = fmt("LowRank%d%s%s", n, proj ? "P" : "", red ? "red" : ""); x.amax = x.trip = false; x.m = q; Sp dsp = red ? low : S;
      auto fill = [q, low, dsp](Rng& g) { SmartPtr<Vector> D = dsp.s->MakeNew(); put(g, *D, 1); q->SetDiag(*D); for( int k = 0; k < 2; ++k ) if( g.chance(0.7) || k == 0 ) { int nc = g.ri(1, 3); SmartPtr<MultiVectorMatrixSpace> ms = new MultiVectorMatrixSpace(nc, *low.s); SmartPtr<MultiVectorMatrix> mv = ms->MakeNewMultiVectorMatrix(); for( int j = 0; j < nc; ++j ) { SmartPtr<Vector> v = low.s->MakeNew(); put(g, *v, 0); mv->SetVector(j, *v); } if( k ) q->SetU(*mv); else q->SetV(*mv); } }; fill(r); x.mutate = fill;
      x.dense = [q, n, low, red, proj, ps]() { LV d = zeroD(n, n); Vec D = get(*q->GetDiag()); auto ix = [&](int i) { return proj ? (int) ps[i] : i; }; if( red ) for( size_t i = 0; i < D.size(); ++i ) d[(size_t) ps[i] * n + ps[i]] = D[i]; else for( int i = 0; i < n; ++i ) d[(size_t) i * n + i] = D[i];
         SmartPtr<const MultiVectorMatrix> mv[2] = {q->GetV(), q->GetU()}; for( int k = 0; k < 2; ++k ) if( IsValid(mv[k]) ) for( Index c = 0; c < mv[k]->NCols(); ++c ) { Vec v = get(*mv[k]->GetVector(c)); for( int i = 0; i < low.n; ++i ) for( int j = 0; j < low.n; ++j ) d[(size_t) ix(i) * n + ix(j)] += (k ? -1 : 1) * (ld) v[i] * v[j]; } return d; };
      return x;
   }
   if( u < 0.73 ) { SmartPtr<ZeroSymMatrixSpace> s = new ZeroSymMatrixSpace(n); x.m = s->MakeNewZeroSymMatrix(); x.nm = fmt("ZeroSym%d", n); x.dense = [n]() { return zeroD(n, n); }; return x; }
   if( u < 0.86 ) {
      SmartPtr<DenseSymMatrixSpace> s = new DenseSymMatrixSpace(n); SmartPtr<DenseSymMatrix> q = s->MakeNewDenseSymMatrix(); x.nm = fmt("DenseSym%d", n); x.trip = false; x.m = q; auto fill = [q, n](Rng& g) { double* v = q->Values(); for( int j = 0; j < n; ++j ) for( int i = 0; i < n; ++i ) v[i + (size_t) j * n] = i >= j ? rv(g, 0) : 777.; }; fill(r); x.mutate = fill;
      x.poison = [q, n](Rng& g, double p) { if( n ) { int i = g.ri(0, n - 1), j = g.ri(0, i); q->Values()[i + (size_t) j * n] = p; } }; x.dense = [q, n]() { LV d = zeroD(n, n); const double* v = ConstPtr(q)->Values(); for( int j = 0; j < n; ++j ) for( int i = j; i < n; ++i ) d[(size_t) i * n + j] = d[(size_t) j * n + i] = v[i + (size_t) j * n]; return d; };
      return x;
   }
   int nz = n ? r.ri(0, n * (n + 1)) : 0; bool dup = r.chance(0.4); std::vector<Index> ir, jc; std::set<std::pair<int, int> > seen; for( int k = 0; k < nz; ++k ) { int i = r.ri(1, n), j = r.ri(1, n); if( !dup && !seen.insert({std::max(i, j), std::min(i, j)}).second ) continue; ir.push_back(i); jc.push_back(j); } nz = ir.size();
   SmartPtr<SymTMatrixSpace> s = new SymTMatrixSpace(n, nz, ir.data(), jc.data()); SmartPtr<SymTMatrix> q = s->MakeNewSymTMatrix(); x.nm = fmt("SymT%d(%d)", n, nz); x.amax = !dup; x.m = q; auto fill = [q, nz](Rng& g) { Vec v(nz); for( double& e : v ) e = rv(g, 0); if( g.chance(0.5) ) q->SetValues(v.data()); else { double* p = q->Values(); for( int k = 0; k < nz; ++k ) p[k] = v[k]; } }; fill(r); x.mutate = fill; x.poison = [q, nz](Rng& g, double p) { if( nz ) q->Values()[g.ri(0, nz - 1)] = p; };
   x.dense = [q, n, ir, jc, nz]() { LV d = zeroD(n, n); const double* v = ConstPtr(q)->Values(); for( int k = 0; k < nz; ++k ) { int i = ir[k] - 1, j = jc[k] - 1; d[(size_t) i * n + j] += v[k]; if( i != j ) d[(size_t) j * n + i] += v[k]; } return d; };
   return x;
}
static void checkMat(Rng& r, Mx& x) {
   int m = x.R.n, n = x.C.n; const Matrix& M = *x.m; LV D = x.dense();
   if( M.NRows() != m || M.NCols() != n ) { bad("dims", x.nm + " has wrong dimensions"); return; }
   // terms of a sum may cancel in the matrix but not in the products
   const bool sum = x.nm.find("Sum") != std::string::npos || x.nm.find("GenT") != std::string::npos || x.nm.find("SymT") != std::string::npos; const double tol = sum ? 1e-9 : 1e-13;
   auto widen = [sum](const LV& sc) { if( !sum ) return sc; ld mx = 0; for( ld v : sc ) mx = std::max(mx, v); return LV(sc.size(), mx); };
   for( int q = 0; q < 3; ++q ) {
      int o = r.ri(0, 5); double a = coef(r), b = coef(r); bool tr = o == 1; std::string nm;
      if( o <= 1 ) {
         const Sp& xs = tr ? x.R : x.C; const Sp& ys = tr ? x.C : x.R; SmartPtr<Vector> X = xs.s->MakeNew(), Y = ys.s->MakeNew(); put(r, *X, 0); bool fresh = b == 0 && r.chance(0.5); if( !fresh ) put(r, *Y, 0); writable(*Y); if( b == 0 && !fresh && ys.n && r.chance(0.5) ) { Vec z(ys.n, NaN); TripletHelper::PutValuesInVector(ys.n, z.data(), *Y); }
         Vec xv = get(*X), yv = fresh ? Vec(ys.n, 0.) : get(*Y); LV e(ys.n), sc(ys.n); for( int i = 0; i < ys.n; ++i ) { ld s = 0, t = 0; for( int j = 0; j < xs.n; ++j ) { ld d = (tr ? D[(size_t) j * n + i] : D[(size_t) i * n + j]) * xv[j]; s += d; t += std::fabs(d); } e[i] = a * s + (b ? (ld) b * yv[i] : 0); sc[i] = std::fabs(a) * t + std::fabs(b ? b * yv[i] : 0.); }
         // compound/low-rank results may cancel internally: scale by the largest term of the row
         ld mx = 0; for( auto& s : sc ) mx = std::max(mx, s);
         bool lr = x.nm.find("LowRank") != std::string::npos || x.nm.find("Scaled") != std::string::npos; if( lr ) { ld vm = 0; for( ld d : D ) vm = std::max(vm, std::fabs(d)); ld xm = 0; for( double d : xv ) xm = std::max<ld>(xm, std::fabs(d)); for( auto& s : sc ) s = std::max(s, std::fabs(a) * vm * xm * 1000 + mx); }
         nm = x.nm + (tr ? ".TransMultVector" : ".MultVector") + fmt("(%g,x,%g,y%s%s)", a, b, fresh ? " uninitialised" : "", homog(*X) ? "" : ""); if( tr ) M.TransMultVector(a, *X, b, *Y); else M.MultVector(a, *X, b, *Y); log(nm);
         cmp("matrix-vector", nm, get(*Y), e, widen(sc), sum ? tol : lr ? 1e-12 : 1e-13); out().stat("matvec");
      }
      else if( o == 2 ) {   // X += alpha M S^{-1} Z
         SmartPtr<Vector> S = x.C.s->MakeNew(), Z = x.C.s->MakeNew(), X = x.R.s->MakeNew(); put(r, *S, 1); put(r, *Z, 0); put(r, *X, 0); writable(*X); Vec s = get(*S), z = get(*Z), xv = get(*X); LV e(m), sc(m); ld mx = 0; for( int i = 0; i < m; ++i ) { ld t = 0, ta = 0; for( int j = 0; j < n; ++j ) { ld d = D[(size_t) i * n + j] * (z[j] / (ld) s[j]); t += d; ta += std::fabs(d); } e[i] = xv[i] + a * t; sc[i] = std::fabs(xv[i]) + std::fabs(a) * ta; mx = std::max(mx, sc[i]); }
         if( x.nm.find("LowRank") != std::string::npos || x.nm.find("Scaled") != std::string::npos ) continue;
         nm = x.nm + fmt(".AddMSinvZ(%g)", a); M.AddMSinvZ(a, *S, *Z, *X); log(nm); cmp("AddMSinvZ", nm, get(*X), e, widen(sc), tol); out().stat("AddMSinvZ");
      }
      else if( o == 3 ) {   // X = S^{-1}(R + alpha Z M^T D)
         SmartPtr<Vector> S = x.C.s->MakeNew(), Z = x.C.s->MakeNew(), Rr = x.C.s->MakeNew(), Dv = x.R.s->MakeNew(), X = x.C.s->MakeNew(); put(r, *S, 1); put(r, *Z, 0); put(r, *Rr, 0); put(r, *Dv, 0); put(r, *X, 0); writable(*X); Vec s = get(*S), z = get(*Z), rr = get(*Rr), dv = get(*Dv); LV e(n), sc(n); for( int j = 0; j < n; ++j ) { ld t = 0, ta = 0; for( int i = 0; i < m; ++i ) { ld d = D[(size_t) i * n + j] * dv[i]; t += d; ta += std::fabs(d); } e[j] = (rr[j] + (ld) a * z[j] * t) / s[j]; sc[j] = (std::fabs(rr[j]) + std::fabs((ld) a * z[j]) * ta) / s[j]; }
         if( x.nm.find("LowRank") != std::string::npos || x.nm.find("Scaled") != std::string::npos ) continue;
         nm = x.nm + fmt(".SinvBlrmZMTdBr(%g)", a); M.SinvBlrmZMTdBr(a, *S, *Rr, *Z, *Dv, *X); log(nm); cmp("SinvBlrmZMTdBr", nm, get(*X), e, widen(sc), tol); out().stat("SinvBlrmZMTdBr");
      }
      else if( o == 4 && x.amax ) {
         bool row = r.chance(0.5), init = r.chance(0.6); const Sp& s = row ? x.R : x.C; SmartPtr<Vector> Y = s.s->MakeNew(); if( !init || r.chance(0.5) ) put(r, *Y, 1); writable(*Y); Vec y0 = init ? Vec(s.n, 0.) : get(*Y); LV e(s.n); for( int k = 0; k < s.n; ++k ) { e[k] = y0[k]; for( int l = 0; l < (row ? n : m); ++l ) e[k] = std::max(e[k], std::fabs(row ? D[(size_t) k * n + l] : D[(size_t) l * n + k])); }
         nm = x.nm + (row ? ".ComputeRowAMax" : ".ComputeColAMax") + fmt("(init %d)", init); try { if( row ) M.ComputeRowAMax(*Y, init); else M.ComputeColAMax(*Y, init); log(nm); cmp("AMax", nm, get(*Y), e, LV(s.n, 0)); out().stat("amax"); } catch( IpoptException& ) { out().stat("unimplemented"); }
      }
      else if( x.trip && m * n ) {   // triplets represent the matrix
         Index nz = 0; try { nz = TripletHelper::GetNumberEntries(M); } catch( IpoptException& ex ) { out().stat("triplet_unsupported"); continue; }
         std::vector<Index> ir(nz + 1, -7), jc(nz + 1, -7); Vec v(nz + 1, 12345.); int ro = r.ri(0, 3), co = x.sym && !r.chance(0.2) ? ro : r.ri(0, 3); TripletHelper::FillRowCol(nz, M, ir.data(), jc.data(), ro, co); TripletHelper::FillValues(nz, M, v.data()); nm = "TripletHelper(" + x.nm + ")"; log(nm);
         if( ir[nz] != -7 || v[nz] != 12345. ) { bad("triplet-overrun", nm); continue; }
         LV T = zeroD(m, n); bool ok = true; bool symlike = x.sym; LV A = zeroD(m, n);
         for( Index k = 0; k < nz; ++k ) { int i = ir[k] - 1 - ro, j = jc[k] - 1 - co; if( i < 0 || j < 0 || i >= m || j >= n ) { ok = false; break; } T[(size_t) i * n + j] += v[k]; A[(size_t) i * n + j] += std::fabs(v[k]); if( symlike && i != j ) { T[(size_t) j * n + i] += v[k]; A[(size_t) j * n + i] += std::fabs(v[k]); } }
         if( !ok ) { bad("triplet-index", nm + ": index out of range"); continue; }
         for( size_t k = 0; k < T.size(); ++k ) if( !(std::fabs(T[k] - D[k]) <= 1e-12 * (std::fabs(D[k]) + A[k])) ) { bad("triplet-value", nm + fmt(": entry (%d,%d) is %g, expected %g", (int) (k / n), (int) (k % n), (double) T[k], (double) D[k])); break; }
         out().stat("triplets", nz);
      }
   }
}
static void c09m(Rng& r, long) {
   hist.clear(); Sp R = mkSp(r), C = r.chance(0.3) ? R : mkSp(r); Mx x = r.chance(0.4) ? mkSym(r, R, 0) : mkMat(r, R, C, 0); if( x.sym ) x.C = x.R = R;
   log(x.nm + " rows " + x.R.str() + " cols " + x.C.str()); out().stat("matrices"); out().stat("type:" + x.nm.substr(0, x.nm.find_first_of("0123456789[")));
   for( int k = r.ri(2, 6); k > 0; --k ) {
      checkMat(r, x);
      if( !x.m->HasValidNumbers() ) { bool fin = true; for( ld d : x.dense() ) fin = fin && std::isfinite((double) d); if( fin ) bad("matrix-valid", x.nm + ": finite matrix called invalid"); }
      if( x.mutate && r.chance(0.6) ) { TaggedObject::Tag t = x.m->GetTag(); x.mutate(r); log("mutate"); (void) t; }
   }
   if( x.poison ) { bool before = x.m->HasValidNumbers(); LV d0 = x.dense(); x.poison(r, r.pickd({NaN, INF, -INF})); LV d = x.dense(); bool fin = true; for( ld q : d ) fin = fin && std::isfinite((double) q); if( !fin && before && x.m->HasValidNumbers() ) bad("matrix-invalid-unseen", x.nm + ": non-finite entry not seen by HasValidNumbers after an earlier query"); if( !fin ) out().stat("poisoned"); }
   out().sample(hist);
   out().sig(hmix(hstr(x.nm), hstr(R.str() + C.str())));
}
// ------------------------------------------------------------------ dense factorisations and multi-vector algebra
static SmartPtr<DenseGenMatrix> dg(Rng& r, int m, int n) { SmartPtr<DenseGenMatrixSpace> s = new DenseGenMatrixSpace(m, n); SmartPtr<DenseGenMatrix> q = s->MakeNewDenseGenMatrix(); double* v = q->Values(); for( int k = 0; k < m * n; ++k ) v[k] = r.chance(0.1) ? 0. : r.gauss(); return q; }
static LV de(const DenseGenMatrix& q) { int m = q.NRows(), n = q.NCols(); LV d = zeroD(m, n); for( int i = 0; i < m; ++i ) for( int j = 0; j < n; ++j ) d[(size_t) i * n + j] = q.Values()[i + (size_t) j * m]; return d; }
static LV ds(const DenseSymMatrix& q) { int n = q.NRows(); LV d = zeroD(n, n); for( int j = 0; j < n; ++j ) for( int i = j; i < n; ++i ) d[(size_t) i * n + j] = d[(size_t) j * n + i] = q.Values()[i + (size_t) j * n]; return d; }
static LV dv(const MultiVectorMatrix& q) { int m = q.NRows(), n = q.NCols(); LV d = zeroD(m, n); for( int j = 0; j < n; ++j ) { Vec v = get(*q.GetVector(j)); for( int i = 0; i < m; ++i ) d[(size_t) i * n + j] = v[i]; } return d; }
static LV mul(const LV& A, bool tA, const LV& B, bool tB, int m, int n, int k, LV* ab = nullptr) { LV C = zeroD(m, n); if( ab ) *ab = C; for( int i = 0; i < m; ++i ) for( int j = 0; j < n; ++j ) for( int l = 0; l < k; ++l ) { ld d = (tA ? A[(size_t) l * m + i] : A[(size_t) i * k + l]) * (tB ? B[(size_t) j * k + l] : B[(size_t) l * n + j]); C[(size_t) i * n + j] += d; if( ab ) (*ab)[(size_t) i * n + j] += std::fabs(d); } return C; }
static void eq(const char* key, const std::string& nm, const LV& a, const LV& e, const LV& sc, double rel = 1e-13) { Vec q(a.size()); for( size_t i = 0; i < q.size(); ++i ) q[i] = (double) a[i]; log(nm); cmp(key, nm, q, e, sc, rel); out().stat("dense_ops"); }
static SmartPtr<MultiVectorMatrix> mvm(Rng& r, const Sp& s, int n) { SmartPtr<MultiVectorMatrixSpace> sp = new MultiVectorMatrixSpace(n, *s.s); SmartPtr<MultiVectorMatrix> q = sp->MakeNewMultiVectorMatrix(); for( int j = 0; j < n; ++j ) { SmartPtr<Vector> v = s.s->MakeNew(); put(r, *v, 0); writable(*v); q->SetVectorNonConst(j, *v); } return q; }
static SmartPtr<DenseSymMatrix> symm(int n) { SmartPtr<DenseSymMatrixSpace> s = new DenseSymMatrixSpace(n); return s->MakeNewDenseSymMatrix(); }
static void c09d(Rng& r, long) {
   hist.clear(); int m = r.ri(1, 6), n = r.ri(1, 6), k = r.ri(1, 6); double a = coef(r), b = coef(r);
   for( int rep = 0; rep < 3; ++rep ) switch( r.ri(0, 11) ) {
      case 0: { bool tA = r.chance(0.5), tB = r.chance(0.5); SmartPtr<DenseGenMatrix> A = dg(r, tA ? k : m, tA ? m : k), B = dg(r, tB ? n : k, tB ? k : n), C = dg(r, m, n); LV c0 = de(*C), ab, P = mul(de(*A), tA, de(*B), tB, m, n, k, &ab); C->AddMatrixProduct(a, *A, tA, *B, tB, b); for( size_t i = 0; i < P.size(); ++i ) { P[i] = a * P[i] + b * c0[i]; ab[i] = std::fabs(a) * ab[i] + std::fabs(b * c0[i]); } eq("AddMatrixProduct", fmt("AddMatrixProduct(%g,%d,%d,%g)", a, tA, tB, b), de(*C), P, ab); break; }
      case 1: { Sp s = mkSp(r); SmartPtr<MultiVectorMatrix> V1 = mvm(r, s, m), V2 = mvm(r, s, n); SmartPtr<DenseGenMatrix> C = dg(r, m, n); LV c0 = de(*C), ab, P = mul(dv(*V1), true, dv(*V2), false, m, n, s.n, &ab); C->HighRankUpdateTranspose(a, *V1, *V2, b); for( size_t i = 0; i < P.size(); ++i ) { P[i] = a * P[i] + b * c0[i]; ab[i] = std::fabs(a) * ab[i] + std::fabs(b * c0[i]); } eq("HighRankUpdateTranspose", fmt("DenseGen::HighRankUpdateTranspose(%g,%g)", a, b), de(*C), P, ab); break; }
      case 2: { // Cholesky
         SmartPtr<DenseGenMatrix> G = dg(r, m, m); SmartPtr<DenseSymMatrix> S = symm(m); S->FillIdentity(1 + r.u01()); S->HighRankUpdate(false, 1., *G, 1.); LV s0 = ds(*S); SmartPtr<DenseGenMatrix> L = dg(r, m, m); bool ok = L->ComputeCholeskyFactor(*S); if( !ok ) { bad("Cholesky", "positive definite matrix refused"); break; } LV l = de(*L); for( int i = 0; i < m; ++i ) for( int j = i + 1; j < m; ++j ) if( l[(size_t) i * m + j] != 0 ) { bad("Cholesky", "upper part of the factor is not zero"); break; } eq("Cholesky", "L*L^T", mul(l, false, l, true, m, m, m), s0, LV(m * m, 100), 1e-12); eq("Cholesky", "matrix unchanged", ds(*S), s0, LV(m * m, 0));
         if( n ) { SmartPtr<DenseGenMatrix> B = dg(r, m, n); LV b0 = de(*B); L->CholeskySolveMatrix(*B); eq("CholeskySolve", "S*X", mul(s0, false, de(*B), false, m, n, m), b0, LV(m * n, 1e3), 1e-11); SmartPtr<DenseGenMatrix> B2 = dg(r, m, n); LV b2 = de(*B2); bool t = r.chance(0.5); double al = r.pickd({1, -2, 0.5}); L->CholeskyBackSolveMatrix(t, al, *B2); LV e = b2; for( auto& q : e ) q *= al; eq("CholeskyBackSolve", "op(L)*X", mul(l, t, de(*B2), false, m, n, m), e, LV(m * n, 1e3), 1e-11); SmartPtr<DenseVectorSpace> vs = new DenseVectorSpace(m); SmartPtr<DenseVector> bv = vs->MakeNewDenseVector(); put(r, *bv, 0); LV bb; for( double q : get(*bv) ) bb.push_back(q); ld bm = 1; for( ld q : bb ) bm = std::max(bm, std::fabs(q)); if( r.chance(0.7) ) bv->Values(); L->CholeskySolveVector(*bv); LV xv; for( double q : get(*bv) ) xv.push_back(q); eq("CholeskySolveVector", "S*x", mul(s0, false, xv, false, m, 1, m), bb, LV(m, 1e3 * bm), 1e-11); }
         if( r.chance(0.5) ) { SmartPtr<DenseSymMatrix> N = symm(m); N->FillIdentity(1); N->Values()[r.ri(0, m - 1) * (m + 1)] = -1; SmartPtr<DenseGenMatrix> Q = dg(r, m, m); if( Q->ComputeCholeskyFactor(*N) ) bad("Cholesky", "indefinite matrix accepted"); } break; }
      case 3: { // eigenvectors
         SmartPtr<DenseSymMatrix> S = symm(m); double* v = S->Values(); for( int j = 0; j < m; ++j ) for( int i = 0; i < m; ++i ) v[i + j * m] = i >= j ? r.gauss() : 99; LV s0 = ds(*S); SmartPtr<DenseGenMatrix> Q = dg(r, m, m); SmartPtr<DenseVectorSpace> vs = new DenseVectorSpace(m); SmartPtr<DenseVector> E = vs->MakeNewDenseVector(); if( !Q->ComputeEigenVectors(*S, *E) ) { bad("Eigen", "failed"); break; } Vec ev = get(*E); LV q = de(*Q), A = mul(s0, false, q, false, m, m, m), Bq = q; for( int i = 0; i < m; ++i ) for( int j = 0; j < m; ++j ) Bq[(size_t) i * m + j] *= ev[j]; eq("Eigen", "S*Q = Q*E", A, Bq, LV(m * m, 100), 1e-12); LV I = zeroD(m, m); for( int i = 0; i < m; ++i ) I[i * m + i] = 1; eq("Eigen", "Q^T Q", mul(q, true, q, false, m, m, m), I, LV(m * m, 100), 1e-13); eq("Eigen", "matrix unchanged", ds(*S), s0, LV(m * m, 0)); for( int i = 1; i < m; ++i ) if( ev[i] < ev[i - 1] ) bad("Eigen", "eigenvalues not ascending"); break; }
      case 4: { // LU
         SmartPtr<DenseGenMatrix> A = dg(r, m, m); LV a0 = de(*A); for( int i = 0; i < m; ++i ) { A->Values()[i * (m + 1)] += 5; } a0 = de(*A); if( !A->ComputeLUFactorInPlace() ) { bad("LU", "regular matrix refused"); break; } if( n ) { SmartPtr<DenseGenMatrix> B = dg(r, m, n); LV b0 = de(*B); A->LUSolveMatrix(*B); eq("LUSolveMatrix", "A*X", mul(a0, false, de(*B), false, m, n, m), b0, LV(m * n, 1e2), 1e-12); } SmartPtr<DenseVectorSpace> vs = new DenseVectorSpace(m); SmartPtr<DenseVector> bv = vs->MakeNewDenseVector(); Vec q(m); for( double& e : q ) e = r.gauss(); bv->SetValues(q.data()); A->LUSolveVector(*bv); LV xv; for( double e : get(*bv) ) xv.push_back(e); eq("LUSolveVector", "A*x", mul(a0, false, xv, false, m, 1, m), LV(q.begin(), q.end()), LV(m, 1e2), 1e-12); break; }
      case 5: { SmartPtr<DenseGenMatrix> A = dg(r, m, n); LV a0 = de(*A); SmartPtr<DenseVectorSpace> vs = new DenseVectorSpace(n); SmartPtr<DenseVector> s = vs->MakeNewDenseVector(); put(r, *s, 0); Vec sv = get(*s); if( n && !s->IsHomogeneous() ) { A->ScaleColumns(*s); for( int i = 0; i < m; ++i ) for( int j = 0; j < n; ++j ) a0[i * n + j] *= sv[j]; LV sc = a0; for( auto& q : sc ) q = std::fabs(q); eq("ScaleColumns", "DenseGen::ScaleColumns", de(*A), a0, sc); } SmartPtr<DenseGenMatrix> I = dg(r, m, m); I->FillIdentity(a); LV e = zeroD(m, m); for( int i = 0; i < m; ++i ) e[i * m + i] = a; eq("FillIdentity", "DenseGen::FillIdentity", de(*I), e, LV(m * m, 0)); SmartPtr<DenseGenMatrix> C = dg(r, m, n); C->Copy(*A); eq("GenCopy", "DenseGen::Copy", de(*C), de(*A), LV(m * n, 0)); break; }
      case 6: { SmartPtr<DenseSymMatrix> A = symm(m), B = symm(m); for( int q = 0; q < m * m; ++q ) { A->Values()[q] = r.gauss(); B->Values()[q] = r.gauss(); } LV e = ds(*A), bb = ds(*B), sc = e; B->AddMatrix(a, *A, b); for( size_t i = 0; i < e.size(); ++i ) { sc[i] = std::fabs(a * e[i]) + std::fabs(b * bb[i]); e[i] = a * e[i] + b * bb[i]; } eq("AddMatrix", fmt("DenseSym::AddMatrix(%g,%g)", a, b), ds(*B), e, sc); break; }
      case 7: { bool t = r.chance(0.5); SmartPtr<DenseGenMatrix> V = t ? dg(r, k, m) : dg(r, m, k); SmartPtr<DenseSymMatrix> S = symm(m); for( int q = 0; q < m * m; ++q ) S->Values()[q] = r.gauss(); LV s0 = ds(*S), ab, v = de(*V), P = mul(v, t, v, !t, m, m, k, &ab); S->HighRankUpdate(t, a, *V, b); for( size_t i = 0; i < P.size(); ++i ) { P[i] = a * P[i] + b * s0[i]; ab[i] = std::fabs(a) * ab[i] + std::fabs(b * s0[i]); } eq("HighRankUpdate", fmt("DenseSym::HighRankUpdate(%d,%g,%g)", t, a, b), ds(*S), P, ab); break; }
      case 8: { Sp s = mkSp(r); SmartPtr<MultiVectorMatrix> V = mvm(r, s, m); SmartPtr<DenseSymMatrix> S = symm(m); for( int q = 0; q < m * m; ++q ) S->Values()[q] = r.gauss(); LV s0 = ds(*S), ab, v = dv(*V), P = mul(v, true, v, false, m, m, s.n, &ab); S->HighRankUpdateTranspose(a, *V, *V, b); for( size_t i = 0; i < P.size(); ++i ) { P[i] = a * P[i] + b * s0[i]; ab[i] = std::fabs(a) * ab[i] + std::fabs(b * s0[i]); } eq("SymHighRankUpdateTranspose", fmt("DenseSym::HighRankUpdateTranspose(%g,%g)", a, b), ds(*S), P, ab); break; }
      case 9: { SmartPtr<DenseGenMatrix> L = dg(r, m, m); for( int i = 0; i < m; ++i ) for( int j = i; j < m; ++j ) L->Values()[i + j * m] = 0; SmartPtr<DenseSymMatrix> S = symm(m); for( int q = 0; q < m * m; ++q ) S->Values()[q] = r.gauss(); SmartPtr<DenseVectorSpace> vs = new DenseVectorSpace(m); SmartPtr<DenseVector> D = vs->MakeNewDenseVector(); Vec d(m); for( double& e : d ) e = r.gauss(); D->SetValues(d.data()); LV e = ds(*S), l = de(*L), sc = e; S->SpecialAddForLMSR1(*D, *L); for( int i = 0; i < m; ++i ) for( int j = 0; j < m; ++j ) { e[i * m + j] += (i == j ? d[i] : 0) + l[i * m + j] + l[j * m + i]; sc[i * m + j] = 10 + std::fabs(e[i * m + j]); } eq("SpecialAddForLMSR1", "SpecialAddForLMSR1", ds(*S), e, sc); break; }
      case 10: { Sp s = mkSp(r); SmartPtr<MultiVectorMatrix> V = mvm(r, s, m); LV v = dv(*V); if( r.chance(0.5) ) { SmartPtr<Vector> q = s.s->MakeNew(); put(r, *q, 0); Vec qv = get(*q); V->ScaleRows(*q); for( int i = 0; i < s.n; ++i ) for( int j = 0; j < m; ++j ) v[i * m + j] *= qv[i]; } else { SmartPtr<DenseVectorSpace> vs = new DenseVectorSpace(m); SmartPtr<DenseVector> q = vs->MakeNewDenseVector(); Vec d(m); for( double& e : d ) e = r.gauss(); q->SetValues(d.data()); V->ScaleColumns(*q); for( int i = 0; i < s.n; ++i ) for( int j = 0; j < m; ++j ) v[i * m + j] *= d[j]; } LV sc = v; for( auto& q : sc ) q = std::fabs(q); eq("MVScale", "MultiVector::Scale", dv(*V), v, sc); break; }
      default: { Sp s = mkSp(r); if( r.chance(0.5) ) { SmartPtr<MultiVectorMatrix> V = mvm(r, s, m), W = mvm(r, s, m); LV v = dv(*V), w = dv(*W), e = v, sc = v; V->AddOneMultiVectorMatrix(a, *W, b); for( size_t i = 0; i < v.size(); ++i ) { e[i] = a * w[i] + b * v[i]; sc[i] = std::fabs(a * w[i]) + std::fabs(b * v[i]); } eq("AddOneMultiVectorMatrix", fmt("AddOneMultiVectorMatrix(%g,%g)", a, b), dv(*V), e, sc); SmartPtr<Vector> X = s.s->MakeNew(), Y = s.s->MakeNew(); put(r, *X, 0); put(r, *Y, 0); writable(*Y); Vec x = get(*X), y = get(*Y); LV V1 = dv(*V), ex(s.n), sx(s.n); for( int i = 0; i < s.n; ++i ) { ex[i] = (ld) b * y[i]; sx[i] = std::fabs(b * y[i]); } ld tot = 0; for( int j = 0; j < m; ++j ) { ld d = 0, da = 0; for( int i = 0; i < s.n; ++i ) { d += V1[i * m + j] * x[i]; da += std::fabs(V1[i * m + j] * x[i]); } for( int i = 0; i < s.n; ++i ) { ex[i] += a * d * V1[i * m + j]; sx[i] += std::fabs(a * da * V1[i * m + j]); } tot += da; } V->LRMultVector(a, *X, b, *Y); LV yv; for( double q : get(*Y) ) yv.push_back(q); eq("LRMultVector", fmt("LRMultVector(%g,%g)", a, b), yv, ex, sx); }
         else { int k2 = r.ri(1, 4); SmartPtr<MultiVectorMatrix> V = mvm(r, s, m), U = mvm(r, s, k2); SmartPtr<DenseGenMatrix> C = dg(r, k2, m); LV v = dv(*V), ab, P = mul(dv(*U), false, de(*C), false, s.n, m, k2, &ab); V->AddRightMultMatrix(a, *U, *C, b); for( size_t i = 0; i < P.size(); ++i ) { P[i] = a * P[i] + b * v[i]; ab[i] = std::fabs(a) * ab[i] + std::fabs(b * v[i]); } eq("AddRightMultMatrix", fmt("AddRightMultMatrix(%g,%g)", a, b), dv(*V), P, ab); } }
   }
   out().sig(hstr(hist));
}
int main(int argc, char** argv) {
   Args a = parse(argc, argv);
   if( a.mode == "c09v" ) runCases(a, c09v); else if( a.mode == "c09m" ) runCases(a, c09m); else if( a.mode == "c09d" ) runCases(a, c09d); else return 7;
   return 0;
}
