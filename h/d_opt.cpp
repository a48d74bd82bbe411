// C13: option list against a model, domains against the documented table. C14: options files against a reference reader.
#include "job.hpp"
#include <sstream>
#include <fstream>
using namespace mon;
using namespace Ipopt;
static std::string scratch = "/tmp";
struct O { const char* name; char type; bool hl; double lo; bool ls; bool hu; double up; bool us; double dn; const char* ds; std::vector<const char*> vs; };
static const double inf_ = std::numeric_limits<double>::infinity();
static const std::vector<O> TAB = {
#include "opttab.inc"
};
static std::string low(std::string s) { for( char& c : s ) c = (char) tolower((unsigned char) c); return s; }
static std::string up(std::string s) { for( char& c : s ) c = (char) toupper((unsigned char) c); return s; }
struct MV { std::string s; double n; int i; bool clob; };
struct Desc { std::string name; char type; bool hl, ls, hu, us; double lo, up, dn; std::string ds; std::vector<std::string> vs; };
static Desc desc(const O& o) { Desc d; d.name = o.name; d.type = o.type; d.hl = o.hl; d.ls = o.ls; d.hu = o.hu; d.us = o.us; d.lo = o.lo; d.up = o.up; d.dn = o.dn; d.ds = o.ds; for( auto v : o.vs ) d.vs.push_back(v); return d; }
static bool okNum(const Desc& d, double v) { if( v != v ) return false; if( d.hl && (d.ls ? !(v > d.lo) : !(v >= d.lo)) ) return false; if( d.hu && (d.us ? !(v < d.up) : !(v <= d.up)) ) return false; return true; }
static bool okInt(const Desc& d, int v) { return !(d.hl && v < d.lo) && !(d.hu && v > d.up); }
static bool okStr(const Desc& d, const std::string& v, std::string& mapped) { bool ok = false; for( auto& s : d.vs ) { if( s == "*" ) { ok = true; mapped = v; } } for( auto& s : d.vs ) if( s != "*" && low(s) == low(v) ) { ok = true; mapped = s; } return ok; }
static std::string rword(Rng& r) { std::string s; int n = r.ri(1, 12); for( int k = 0; k < n; ++k ) s += "abcxyzABC019._-+/%\\"[r.ri(0, 18)]; return s; }
static double rnum(Rng& r, const Desc& d) {
   switch( r.ri(0, 9) ) {
      case 0: return d.hl ? d.lo : -inf_; case 1: return d.hu ? d.up : inf_;
      case 2: return std::nextafter(d.hl ? d.lo : 0., -inf_); case 3: return std::nextafter(d.hl ? d.lo : 0., inf_);
      case 4: return std::nextafter(d.hu ? d.up : 1., -inf_); case 5: return std::nextafter(d.hu ? d.up : 1., inf_);
      case 6: return r.chance(0.2) ? std::nan("") : r.pickd({0., -0., 1., -1., 1e-8, 1e19, 1e20, -1e20, 5e-324, 1.7976931348623157e308, inf_, -inf_});
      case 7: return (d.hl && d.hu) ? r.uni(d.lo, d.up) : d.hl ? d.lo + r.logu(1e-12, 1e12) : d.hu ? d.up - r.logu(1e-12, 1e12) : r.sgn() * r.logu(1e-20, 1e20);
      case 8: return r.sgn() * r.logu(1e-300, 1e300);
      default: { uint64_t u = r.u64(); double v; memcpy(&v, &u, 8); return v; }
   }
}
static int rnint(Rng& r, const Desc& d) {
   switch( r.ri(0, 6) ) {
      case 0: return d.hl ? (int) d.lo : INT32_MIN; case 1: return d.hu ? (int) d.up : INT32_MAX;
      case 2: return d.hl && d.lo > INT32_MIN ? (int) d.lo - 1 : INT32_MIN + 1; case 3: return d.hu && d.up < INT32_MAX ? (int) d.up + 1 : INT32_MAX - 1;
      case 4: return (d.hl && d.hu) ? r.ri((int) d.lo, (int) d.up) : r.ri(-3, 1000); case 5: return (int) (uint32_t) r.u64(); default: return r.picki({0, 1, -1, 2, 10, 100});
   }
}
static std::string rcase(Rng& r, std::string s) { for( char& c : s ) if( r.chance(0.3) ) c = (char) (r.chance(0.5) ? toupper(c) : tolower(c)); return s; }
static std::string rstr(Rng& r, const Desc& d) { if( r.chance(0.2) ) return rword(r); if( r.chance(0.03) ) return ""; std::string s = r.pick(d.vs); if( s == "*" ) return rword(r); if( r.chance(0.1) ) s += r.pick({"x", " ", "s"}); else if( r.chance(0.05) && s.size() ) s.pop_back(); return rcase(r, s); }
static const char* PFX[] = {"", "resto.", "foo.", "a.b.", "RESTO."};

// options of our own registered in addition, with random domains
static void addOwn(Rng& r, RegisteredOptions& R, std::vector<Desc>& all, std::vector<std::string>& keep) {
   int n = r.ri(1, 8); R.SetRegisteringCategory("Own");
   for( int k = 0; k < n; ++k ) {
      Desc d; d.name = fmt("own_%d%s", k, r.pick({"", "_x", "Y"})); d.type = r.pick({"N", "I", "S"})[0]; d.hl = r.chance(0.6); d.hu = r.chance(0.6); d.ls = d.hl && r.chance(0.5); d.us = d.hu && r.chance(0.5); d.lo = d.up = 0; d.dn = 0;
      if( d.type == 'N' ) { double a = r.pickd({0., 1., -5., 1e-12, 1e10}), b = a + r.pickd({1., 1e-9, 1e5, 0.}); if( b == a ) d.ls = d.us = false; d.lo = a; d.up = b; d.dn = d.hl && d.hu ? 0.5 * (a + b) : d.hl ? a + 1 : d.hu ? b - 1 : 3; }
      if( d.type == 'I' ) { int a = r.ri(-10, 10), b = a + r.ri(0, 10); d.lo = a; d.up = b; d.ls = d.us = false; d.dn = d.hl && d.hu ? (a + b) / 2 : d.hl ? a + 1 : d.hu ? b - 1 : 7; }
      if( d.type == 'S' ) { int m = r.ri(1, 10); for( int q = 0; q < m; ++q ) d.vs.push_back(q == 0 && r.chance(0.2) ? "*" : fmt("val%d%s", q, r.pick({"", "-a", "_B"}))); d.ds = d.vs[0] == "*" ? "dflt" : r.pick(d.vs); d.hl = d.hu = false; }
      if( d.type == 'N' ) { if( d.hl && d.hu ) R.AddBoundedNumberOption(d.name, "", d.lo, d.ls, d.up, d.us, d.dn); else if( d.hl ) R.AddLowerBoundedNumberOption(d.name, "", d.lo, d.ls, d.dn); else if( d.hu ) R.AddUpperBoundedNumberOption(d.name, "", d.up, d.us, d.dn); else R.AddNumberOption(d.name, "", d.dn); }
      else if( d.type == 'I' ) { if( d.hl && d.hu ) R.AddBoundedIntegerOption(d.name, "", (Index) d.lo, (Index) d.up, (Index) d.dn); else if( d.hl ) R.AddLowerBoundedIntegerOption(d.name, "", (Index) d.lo, (Index) d.dn); else if( d.hu ) R.AddUpperBoundedIntegerOption(d.name, "", (Index) d.up, (Index) d.dn); else R.AddIntegerOption(d.name, "", (Index) d.dn); }
      else { auto& v = d.vs; size_t m = v.size(); std::vector<std::string> ds(m, "d");
         if( r.chance(0.3) ) R.AddStringOption(d.name, "", d.ds, v, ds);
         else if( m == 1 ) R.AddStringOption1(d.name, "", d.ds, v[0], ""); else if( m == 2 ) R.AddStringOption2(d.name, "", d.ds, v[0], "", v[1], ""); else if( m == 3 ) R.AddStringOption3(d.name, "", d.ds, v[0], "", v[1], "", v[2], "");
         else if( m == 4 ) R.AddStringOption4(d.name, "", d.ds, v[0], "", v[1], "", v[2], "", v[3], ""); else if( m == 5 ) R.AddStringOption5(d.name, "", d.ds, v[0], "", v[1], "", v[2], "", v[3], "", v[4], "");
         else if( m == 6 ) R.AddStringOption6(d.name, "", d.ds, v[0], "", v[1], "", v[2], "", v[3], "", v[4], "", v[5], ""); else if( m == 7 ) R.AddStringOption7(d.name, "", d.ds, v[0], "", v[1], "", v[2], "", v[3], "", v[4], "", v[5], "", v[6], "");
         else if( m == 8 ) R.AddStringOption8(d.name, "", d.ds, v[0], "", v[1], "", v[2], "", v[3], "", v[4], "", v[5], "", v[6], "", v[7], "");
         else if( m == 9 ) R.AddStringOption9(d.name, "", d.ds, v[0], "", v[1], "", v[2], "", v[3], "", v[4], "", v[5], "", v[6], "", v[7], "", v[8], "");
         else R.AddStringOption10(d.name, "", d.ds, v[0], "", v[1], "", v[2], "", v[3], "", v[4], "", v[5], "", v[6], "", v[7], "", v[8], "", v[9], ""); }
      all.push_back(d); keep.push_back(d.name);
      try { R.AddNumberOption(d.name, "", 1.); out().viol("", "double-registration", "registering " + d.name + " twice is not refused"); } catch( IpoptException& ) { out().stat("double_registrations_refused"); }
   }
}
typedef std::map<std::string, MV> Model;
static void check1(OptionsList& L, const Model& M, const Desc& d, const std::string& pfx, const std::string& how) {
   const MV* m = nullptr; auto it = M.find(low(pfx + d.name)); if( it != M.end() ) m = &it->second; else { it = M.find(low(d.name)); if( it != M.end() ) m = &it->second; }
   std::string id = pfx + d.name; out().stat("reads");
   for( int t = 0; t < 5; ++t ) { // all getters; wrong type must be refused with OPTION_INVALID
      bool threw = false, found = false; std::string s = "?"; double n = -7; Index i = -7; bool b = false;
      try { if( t == 0 ) found = L.GetNumericValue(d.name, n, pfx); else if( t == 1 ) found = L.GetIntegerValue(d.name, i, pfx); else if( t == 2 ) found = L.GetStringValue(d.name, s, pfx); else if( t == 3 ) found = L.GetEnumValue(d.name, i, pfx); else found = L.GetBoolValue(d.name, b, pfx); }
      catch( IpoptException& ) { threw = true; }
      char want = "NISSS"[t]; if( want != d.type ) { if( !threw ) out().viol("", "wrong-type-read", id + fmt(": type %c read with getter %d", d.type, t) + how); continue; }
      std::string ms = m ? m->s : d.ds; bool canEnum = true; int en = -1; std::string junk; if( t >= 2 && m ) okStr(d, m->s, ms);
      if( t == 3 ) { int q = 0; for( auto& v : d.vs ) { if( v == "*" ) { canEnum = false; break; } if( low(v) == low(ms) ) { en = q; break; } ++q; } if( en < 0 ) canEnum = false; }
      if( t == 4 ) { bool bo = ms == "yes" || ms == "no" || ms == "true" || ms == "false" || ms == "on" || ms == "off"; if( !bo ) { if( !threw ) out().viol("", "bool-read", id + " = '" + ms + "' is read as a boolean" + how); continue; } }
      if( t == 3 && !canEnum ) { if( !threw ) out().viol("", "enum-read", id + " = '" + ms + "' is read as enumeration value" + how); continue; }
      if( threw ) { out().viol("", "read-refused", id + fmt(": getter %d throws", t) + how); continue; }
      if( found != (m != nullptr) ) out().viol("", "found-flag", id + fmt(": found=%d, set=%d", found, m != nullptr) + how);
      if( t == 0 && n != (m ? m->n : d.dn) ) out().viol("", "number-value", id + fmt(": read %.17g, expected %.17g (%s)", n, m ? m->n : d.dn, m ? "set" : "default") + how);
      if( t == 1 && i != (m ? m->i : (int) d.dn) ) out().viol("", "integer-value", id + fmt(": read %d, expected %d (%s)", i, m ? m->i : (int) d.dn, m ? "set" : "default") + how);
      if( t == 2 && s != ms ) out().viol("", "string-value", id + ": read '" + s + "', expected '" + ms + "'" + (m ? " set" : " default") + how);
      if( t == 3 && i != en ) out().viol("", "enum-value", id + fmt(": read %d, expected %d for '", i, en) + ms + "'" + how);
      if( t == 4 && b != (ms == "yes" || ms == "true" || ms == "on") ) out().viol("", "bool-value", id + fmt(": read %d for '", b) + ms + "'" + how);
   }
}
static void c13(Rng& r, long) {
   SmartPtr<IpoptApplication> app = new IpoptApplication(false); std::vector<Desc> all; for( auto& o : TAB ) all.push_back(desc(o)); std::vector<std::string> own; size_t nreg = all.size();
   if( r.chance(0.6) ) addOwn(r, *app->RegOptions(), all, own);
   SmartPtr<OptionsList> L = r.chance(0.7) ? app->Options() : SmartPtr<OptionsList>(new OptionsList(app->RegOptions(), r.chance(0.5) ? app->Jnlst() : SmartPtr<Journalist>(NULL)));
   struct SJ : Journal { long n = 0; SJ() : Journal("own", J_ALL) {} std::string GetName() { return "own"; } void PrintImpl(EJournalCategory, EJournalLevel, const char* s) { n += strlen(s); } void PrintfImpl(EJournalCategory, EJournalLevel, const char* f, va_list ap) { n += vsnprintf(NULL, 0, f, ap); } void FlushBufferImpl() {} };
   if( r.chance(0.3) ) app->Jnlst()->AddJournal(new SJ());
   Model M; std::vector<size_t> use; int nu = r.ri(2, 10); for( int k = 0; k < nu; ++k ) use.push_back(own.size() && r.chance(0.5) ? nreg + r.ri(0, (int) own.size() - 1) : r.ri(0, (int) nreg - 1));
   int ops = r.ri(5, 60); uint64_t sg = 1; std::string hist;
   for( int k = 0; k < ops; ++k ) {
      const Desc& d = all[r.pick(use)]; std::string pfx = r.chance(0.6) ? "" : PFX[r.ri(0, 4)]; std::string tag = pfx + d.name; int op = r.ri(0, 19); std::string h; bool clob = !r.chance(0.12), dont = r.chance(0.2);
      auto prot = [&](const std::string& t) { auto it = M.find(low(t)); return it != M.end() && !it->second.clob; };
      if( op < 14 ) {
         bool unknown = r.chance(0.04); if( unknown ) tag = r.chance(0.5) ? tag + "_" : r.chance(0.5) ? pfx + "no_such_option" : d.name + "."; bool ifu = r.chance(0.15);
         char ty = r.chance(0.06) ? r.pick({"N", "I", "S", "B"})[0] : d.type; if( d.type == 'S' && d.vs.size() == 2 && d.vs[0] == "yes" && r.chance(0.3) ) ty = 'B';
         bool ok = !unknown && (ty == 'B' ? 'S' : ty) == d.type, ret = false; MV mv{"", 0, 0, clob}; bool thr = false; std::string vs;
         if( ty == 'N' ) { mv.n = rnum(r, d); ok = ok && okNum(d, mv.n); vs = fmt("%.17g", mv.n); } else if( ty == 'I' ) { mv.i = rnint(r, d); ok = ok && okInt(d, mv.i); vs = fmt("%d", mv.i); } else if( ty == 'B' ) { bool b = r.chance(0.5); mv.s = b ? "yes" : "no"; std::string j; ok = ok && okStr(d, mv.s, j); mv.i = b; vs = mv.s; }
         else { mv.s = d.type == 'S' ? rstr(r, d) : rword(r); std::string j; ok = ok && okStr(d, mv.s, j); vs = "'" + mv.s + "'"; }
         h = std::string(ifu ? "setIfUnset " : "set ") + ty + " " + tag + " " + vs + (clob ? "" : " noclobber"); sg = hmix(sg, hstr(h));
         bool isset = M.count(low(tag)) > 0;
         try {
            if( ifu ) ret = ty == 'N' ? L->SetNumericValueIfUnset(tag, mv.n, clob, dont) : ty == 'I' ? L->SetIntegerValueIfUnset(tag, mv.i, clob, dont) : ty == 'B' ? L->SetBoolValueIfUnset(tag, mv.i, clob, dont) : L->SetStringValueIfUnset(tag, mv.s, clob, dont);
            else ret = ty == 'N' ? L->SetNumericValue(tag, mv.n, clob, dont) : ty == 'I' ? L->SetIntegerValue(tag, mv.i, clob, dont) : ty == 'B' ? L->SetBoolValue(tag, mv.i, clob, dont) : L->SetStringValue(tag, mv.s, clob, dont);
         } catch( IpoptException& ) { thr = true; }
         out().stat(ok ? "accepted_settings" : "rejected_settings");
         bool typeOrTag = unknown || (ty == 'B' ? 'S' : ty) != d.type;
         if( ifu && isset && !typeOrTag ) { /* nothing is set */ if( thr ) out().viol("", "set-if-unset-throws", h); }
         else if( ok && prot(tag) ) { out().stat("protected"); if( thr ) out().viol("", "protected-throws", h); }
         else { if( ok && (thr || !ret) ) out().viol("", "valid-setting-refused", h); if( !ok && ret && !thr ) out().viol("", "invalid-setting-accepted", h + " | " + (d.hl ? fmt("[%.17g%s", d.lo, d.ls ? " strict" : "") : "") + (d.hu ? fmt(",%.17g%s", d.up, d.us ? " strict" : "") : "")); if( thr && !ifu ) out().viol("", "setting-throws", h); if( ok ) M[low(tag)] = mv; }
         check1(*L, M, d, "", " after: " + h);
      } else if( op < 17 ) { h = "unset " + tag; sg = hmix(sg, hstr(h)); bool ret = L->UnsetValue(tag), want = M.count(low(tag)) && !prot(tag); if( ret != want ) out().viol("", "unset-result", h + fmt(": returned %d", ret)); if( want ) M.erase(low(tag)); out().stat("unsets"); }
      else if( op == 17 && r.chance(0.2) ) { h = "clear"; L->clear(); M.clear(); }
      else if( op == 18 ) { h = "copy"; OptionsList* c = r.chance(0.5) ? new OptionsList(*L) : new OptionsList(); SmartPtr<OptionsList> C = c; *C = *L; const Desc& e = all[r.pick(use)]; SmartPtr<OptionsList> old = L; if( r.chance(0.5) ) { /* changes of the copy leave the original alone */ if( e.type == 'N' ) C->SetNumericValue(e.name, e.dn * 1.25); else if( e.type == 'I' ) C->SetIntegerValue(e.name, (Index) e.dn + 1); else C->SetStringValue(e.name, e.vs[0]); check1(*old, M, e, "", " after changing a copy"); } else { L = C; } out().stat("copies"); }
      else { std::string a; L->PrintList(a); L->PrintUserOptions(a); out().stat("lists_printed"); h = "print"; }
      hist = h;
      if( r.chance(0.4) ) { const Desc& e = all[r.chance(0.8) ? r.pick(use) : (size_t) r.ri(0, (int) all.size() - 1)]; check1(*L, M, e, PFX[r.ri(0, 4)], " after: " + hist); }
   }
   for( size_t q : use ) for( auto p : PFX ) check1(*L, M, all[q], p, " at end");
   if( r.chance(0.05) ) for( auto& d : all ) check1(*L, M, d, "", " at end (all)");
   // the listing shows exactly the settings
   std::string list; L->PrintList(list); std::istringstream is(list); std::string line; std::getline(is, line); size_t cnt = 0; bool odd = false; for( auto& m : M ) if( m.second.s.find('\n') != std::string::npos || m.second.s.empty() ) odd = true;
   while( std::getline(is, line) ) { std::istringstream ls(line); std::string a, eq, v; ls >> a >> eq >> v; ++cnt; auto it = M.find(a); if( it == M.end() ) { out().viol("", "listing-extra", line); continue; } if( it->second.s.size() && it->second.s.find(' ') == std::string::npos && v != it->second.s && line.find(it->second.s) == std::string::npos ) out().viol("", "listing-value", line + " expected " + it->second.s); }
   if( !odd && cnt != M.size() ) out().viol("", "listing-count", fmt("%d lines for %d settings", (int) cnt, (int) M.size()));
   out().sig(sg); if( r.chance(0.01) ) out().sample(hist);
}
// documented domain and default of every registered option, at and around its boundaries
static void c13s(Rng& r, long k) {
   SmartPtr<IpoptApplication> app = new IpoptApplication(false); auto& reg = app->RegOptions()->RegisteredOptionsList();
   if( k == 0 ) { for( auto& p : reg ) { bool f = false; for( auto& o : TAB ) f = f || p.first == o.name; if( !f ) out().stat("unlisted_options"); } }
   const Desc d = desc(TAB[k % TAB.size()]); out().sig(hstr(d.name)); if( !reg.count(d.name) ) { out().viol("", "option-missing", d.name + " is not registered"); return; }
   OptionsList& L = *app->Options(); Model M; check1(L, M, d, "", " default"); out().stat("domains_checked");
   auto one = [&](double v) { Number b; L.clear(); bool ok = okNum(d, v), ret = L.SetNumericValue(d.name, v); out().stat("boundary_values"); if( ok != ret ) out().viol("", "domain", d.name + fmt(" = %.17g: accepted %d, documented domain %d", v, ret, ok)); L.GetNumericValue(d.name, b, ""); if( b != (ok ? v : d.dn) ) out().viol("", "domain-value", d.name + fmt(" = %.17g reads as %.17g", v, b)); };
   if( d.type == 'N' ) { std::vector<double> v = {0., 1., -1., 1e20, -1e20, inf_, -inf_, std::nan(""), d.dn, 1e-10, 1e10, 0.5}; for( double b : {d.lo, d.up} ) { v.push_back(b); v.push_back(std::nextafter(b, inf_)); v.push_back(std::nextafter(b, -inf_)); v.push_back(b + 1e-3); v.push_back(b - 1e-3); v.push_back(b * 0.9); } for( int q = 0; q < 20; ++q ) v.push_back(rnum(r, d)); for( double x : v ) one(x); if( !okNum(d, d.dn) ) out().viol("", "default-outside", d.name); }
   else if( d.type == 'I' ) { for( int q = 0; q < 60; ++q ) { int v = q < 30 ? rnint(r, d) : (int) d.lo + q - 45; Index b; L.clear(); bool ok = okInt(d, v), ret = L.SetIntegerValue(d.name, v); out().stat("boundary_values"); if( ok != ret ) out().viol("", "domain", d.name + fmt(" = %d: accepted %d, documented domain %d", v, ret, ok)); L.GetIntegerValue(d.name, b, ""); if( b != (ok ? v : (int) d.dn) ) out().viol("", "domain-value", d.name + fmt(" = %d reads as %d", v, b)); } }
   else { for( auto& s : d.vs ) for( int q = 0; q < 3; ++q ) if( s != "*" ) { std::string v = q == 0 ? s : q == 1 ? up(s) : rcase(r, s), b; L.clear(); out().stat("boundary_values"); if( !L.SetStringValue(d.name, v) ) out().viol("", "domain", d.name + " = '" + v + "' refused"); L.GetStringValue(d.name, b, ""); if( b != s ) out().viol("", "domain-value", d.name + " = '" + v + "' reads as '" + b + "'"); }
      for( int q = 0; q < 10; ++q ) { std::string v = rstr(r, d), m, b; L.clear(); bool ok = okStr(d, v, m), ret = L.SetStringValue(d.name, v); if( ok != ret ) out().viol("", "domain", d.name + " = '" + v + fmt("': accepted %d", ret)); L.GetStringValue(d.name, b, ""); if( b != (ok ? m : d.ds) ) out().viol("", "domain-value", d.name + " = '" + v + "' reads as '" + b + "'"); } }
   // the printed documentation states the same domain
   struct SJ : Journal { std::string s; SJ() : Journal("own", J_ALL) {} std::string GetName() { return "own"; } void PrintImpl(EJournalCategory, EJournalLevel, const char* c) { s += c; } void PrintfImpl(EJournalCategory, EJournalLevel, const char* f, va_list ap) { char b[20000]; vsnprintf(b, sizeof b, f, ap); s += b; } void FlushBufferImpl() {} };
   SmartPtr<Journalist> J = new Journalist(); SJ* sj = new SJ(); J->AddJournal(SmartPtr<Journal>(sj)); reg.at(d.name)->OutputDescription(*J);
   std::string w; if( d.type == 'N' ) w = (d.hl ? fmt("%g", d.lo) + (d.ls ? " < " : " <= ") : std::string(" ")) + fmt("(%g)", d.dn) + (d.us ? " < " : " <= ") + (d.hu ? fmt("%g\n", d.up) : std::string("+inf\n"));
   else if( d.type == 'I' ) w = (d.hl ? fmt("%d", (int) d.lo) : std::string("-inf")) + fmt(" <= (%d) <= ", (int) d.dn) + (d.hu ? fmt("%d\n", (int) d.up) : std::string("+inf\n"));
   else w = "Default: \"" + d.ds + "\"";
   if( sj->s.find(w) == std::string::npos ) out().viol("", "printed-domain", d.name + ": '" + w + "' not in: " + sj->s.substr(0, 300)); else out().stat("printed_domains");
   if( d.type == 'S' ) for( auto& v : d.vs ) if( sj->s.find("\t" + v + " (") == std::string::npos ) out().viol("", "printed-domain", d.name + ": value '" + v + "' not in: " + sj->s.substr(0, 300));
}

// ---- C14: reference reader of the documented file format
struct Tok { std::string t; bool eof = false, bad = false, amb = false; };
static Tok next(const std::string& s, size_t& p) {
   Tok k; auto sp = [&](char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\v' || c == '\f'; };
   while( p < s.size() && (sp(s[p]) || s[p] == '#') ) { if( s[p] == '#' ) { while( p < s.size() && s[p] != '\n' ) ++p; } else ++p; }
   if( p >= s.size() ) { k.eof = true; return k; }
   if( s[p] == '"' ) { size_t e = s.find('"', p + 1); if( e == std::string::npos ) { k.bad = true; return k; } k.t = s.substr(p + 1, e - p - 1); p = e + 1; if( p < s.size() && !sp(s[p]) ) { k.amb = true; while( p < s.size() && !sp(s[p]) ) k.t += s[p++]; } return k; }
   while( p < s.size() && !sp(s[p]) ) k.t += s[p++];
   return k;
}
static bool refNum(std::string s, double& v) { // decimal floating point numbers, 'd' for 'e' allowed, surrounded by blanks
   if( s.find('\0') != std::string::npos ) return false; size_t a = s.find_first_not_of(" \t\n\r\v\f"), b = s.find_last_not_of(" \t\n\r\v\f"); if( a == std::string::npos ) return false; s = s.substr(a, b - a + 1); for( char& c : s ) if( c == 'd' || c == 'D' ) c = 'e';
   char* e; v = strtod(s.c_str(), &e); return e != s.c_str() && *e == 0;
}
static bool refInt(std::string s, int& v) {
   if( s.find('\0') != std::string::npos ) return false; size_t a = s.find_first_not_of(" \t\n\r\v\f"), b = s.find_last_not_of(" \t\n\r\v\f"); if( a == std::string::npos ) return false; s = s.substr(a, b - a + 1); size_t q = s[0] == '+' || s[0] == '-'; if( q >= s.size() ) return false;
   double x = 0; for( size_t k = q; k < s.size(); ++k ) { if( s[k] < '0' || s[k] > '9' ) return false; x = 10 * x + (s[k] - '0'); } if( s[0] == '-' ) x = -x; if( x < -2147483648. || x > 2147483647. ) return false; v = (int) x; return true;
}
static const Desc* byName(const std::vector<Desc>& all, const std::string& tag) { std::string t = tag; size_t p = t.rfind('.'); if( p != std::string::npos ) t = t.substr(p + 1); for( auto& d : all ) if( d.name == t ) return &d; return nullptr; }
// returns 1 ok, 0 error, -1 not specified
static int refRead(const std::string& text, const std::vector<Desc>& all, Model& M, bool clob, long& n, std::string& why) {
   size_t p = 0;
   while( true ) {
      Tok t = next(text, p); if( t.eof ) return 1; if( t.bad ) { why = "unterminated quote"; return 0; } if( t.amb ) return -1;
      Tok v = next(text, p); if( v.eof ) { why = "value missing"; return 0; } if( v.bad ) { why = "unterminated quote"; return 0; } if( v.amb ) return -1;
      const Desc* d = byName(all, t.t); if( !d ) { why = "unknown option " + t.t; return 0; }
      if( v.t.find_first_of("xX") != std::string::npos && d->type == 'N' ) return -1; // hexadecimal notation is not specified
      MV mv{"", 0, 0, clob};
      if( d->type == 'N' ) { if( !refNum(v.t, mv.n) || !okNum(*d, mv.n) ) { why = "number " + v.t; return 0; } } else if( d->type == 'I' ) { if( !refInt(v.t, mv.i) || !okInt(*d, mv.i) ) { why = "integer " + v.t; return 0; } } else { std::string j; mv.s = v.t; if( !okStr(*d, v.t, j) ) { why = "string " + v.t; return 0; } }
      ++n; auto it = M.find(low(t.t)); if( it != M.end() && !it->second.clob ) continue; M[low(t.t)] = mv;
   }
}
static std::string numText(Rng& r, double v) {
   std::string s; switch( r.ri(0, 5) ) { case 0: s = fmt("%.17g", v); break; case 1: s = fmt("%.17e", v); break; case 2: s = fmt("%g", v); break; case 3: s = fmt("%+.17E", v); break; case 4: s = std::fabs(v) < 1e15 ? fmt("%.20f", v) : fmt("%g", v); break; default: s = fmt("%.3g", v); }
   if( r.chance(0.3) ) for( char& c : s ) { if( c == 'e' ) c = 'd'; else if( c == 'E' ) c = 'D'; } return s;
}
static std::string genText(Rng& r, const std::vector<Desc>& all, double bad) {
   std::string s; int n = r.ri(0, 12); static const std::vector<std::string> WS = {" ", "\t", "  ", " \t ", "   "}, NL = {"\n", "\n", "\n", "\r\n", "\n\n", " \n", "\t\n\n", "\f\n"};
   std::vector<const Desc*> few; for( int k = 0; k < 4; ++k ) few.push_back(&all[r.ri(0, (int) all.size() - 1)]);
   for( int k = 0; k < n; ++k ) {
      if( r.chance(0.25) ) { s += r.pick(WS); s += "#" + std::string(r.pick({"", " comment", " tol 1e-3", " \"quoted", "# twice", " max_iter"})); s += "\n"; }
      const Desc& d = r.chance(0.5) ? *r.pick(few) : all[r.ri(0, (int) all.size() - 1)]; std::string tag = d.name, v; if( r.chance(0.15) ) tag = std::string(r.pick({"resto.", "x.", "RESTO."})) + tag; bool b = r.chance(bad);
      for( int q = 0; q < 30; ++q ) { std::string j; int jj; double x; if( d.type == 'N' ) { v = numText(r, rnum(r, d)); if( refNum(v, x) && okNum(d, x) ) break; } else if( d.type == 'I' ) { int iv = rnint(r, d); v = r.chance(0.1) ? fmt("%+d", iv) : r.chance(0.1) && iv >= 0 ? fmt("00%d", iv) : fmt("%d", iv); if( refInt(v, jj) && okInt(d, jj) ) break; } else { v = rstr(r, d); if( r.chance(0.2) ) v += r.pick({"", " with blank", "#hash", "\ttab"}); if( okStr(d, v, j) ) break; } }
      if( b ) switch( r.ri(0, 9) ) { case 0: v = d.type == 'I' ? fmt("%lld", (long long) r.u64() / 3) : v + "x"; break; case 1: v = ""; break; case 2: tag += "_"; break; case 3: v = r.pick({"abc", "1.5.2", "1e", "--3", "nan", "inf", "-inf", "1e999", "1e-999", ".", "+", "0x10", "1,5", "5%", "1e5 7", "4294967297", "4294967296", "2147483648", "-2147483649", "99999999999999999999", "1.0"}); break; case 4: v = v + " 3"; break; case 5: for( char& c : tag ) c = (char) toupper(c); break; case 6: v = std::string("1") + '\0' + "2"; break; case 7: v = d.type == 'N' ? fmt("%.17g", rnum(r, d)) : fmt("%d", rnint(r, d)); break; case 8: s += r.pick({"\"", "\"abc", "tol", "\"\""}); break; default: v = rword(r); }
      bool quote = v.empty() || v.find_first_of(" \t\n\r\f\v#\"") != std::string::npos || v[0] == '#' || r.chance(0.15); if( v.find('"') != std::string::npos ) quote = false; if( b && r.chance(0.1) ) quote = false;
      if( r.chance(0.1) ) tag = "\"" + tag + "\""; if( quote ) v = "\"" + v + "\"";
      if( r.chance(0.2) ) s += r.pick(WS); s += tag; s += r.chance(0.05) ? "\n" : r.pick(WS); s += v; if( r.chance(0.1) ) s += " # trailing comment"; if( k + 1 < n || r.chance(0.8) ) s += s.size() && s.find("# trailing", s.rfind('\n') == std::string::npos ? 0 : s.rfind('\n')) != std::string::npos ? "\n" : r.pick(NL);
   }
   return s;
}
static std::string show(const std::string& s) { std::string o; for( unsigned char c : s.substr(0, 500) ) { if( c == '\n' ) o += "\\n"; else if( c == '\r' ) o += "\\r"; else if( c == '\t' ) o += "\\t"; else if( c < 32 || c > 126 ) o += fmt("\\x%02x", c); else o += (char) c; } return o; }
static void run14(Rng& r, const std::string& text, const char* kind) {
   SmartPtr<IpoptApplication> app = new IpoptApplication(false); std::vector<Desc> all; for( auto& o : TAB ) all.push_back(desc(o)); Model M; OptionsList& L = *app->Options();
   // settings made by the program before
   bool clob = !r.chance(0.1); int np = r.ri(0, 4); size_t p0 = 0; std::vector<const Desc*> used; { size_t p = 0; for( int k = 0; k < 100; ++k ) { Tok t = next(text, p); if( t.eof || t.bad ) break; auto d = byName(all, t.t); if( d ) used.push_back(d); } } (void) p0;
   for( int k = 0; k < np; ++k ) { const Desc& d = used.size() && r.chance(0.7) ? *r.pick(used) : all[r.ri(0, (int) all.size() - 1)]; MV mv{"", 0, 0, r.chance(0.5)}; bool ok; std::string j; if( M.count(d.name) ) continue; if( d.type == 'N' ) { mv.n = rnum(r, d); ok = okNum(d, mv.n) && L.SetNumericValue(d.name, mv.n, mv.clob); } else if( d.type == 'I' ) { mv.i = rnint(r, d); ok = okInt(d, mv.i) && L.SetIntegerValue(d.name, mv.i, mv.clob); } else { mv.s = rstr(r, d); ok = okStr(d, mv.s, j) && L.SetStringValue(d.name, mv.s, mv.clob); } if( ok ) { M[low(d.name)] = mv; out().stat(mv.clob ? "open_before" : "protected_before"); } }
   Model M0 = M; long n = 0; std::string why; int want = refRead(text, all, M, clob, n, why); int got; std::string desc = std::string(kind) + " | text: " + show(text); int way = r.ri(0, 3);
   // options that would do something in Initialize() itself are only read through the list
   for( const char* s : {"output_file", "suppress_all_output", "print_options_documentation", "print_level"} ) if( text.find(s) != std::string::npos || M.count(s) ) way = 0;
   try {
      if( way == 0 ) { std::istringstream is(text); got = L.ReadFromStream(*app->Jnlst(), is, clob) ? 1 : 0; }
      else if( way == 1 ) { std::istringstream is(text); int rc = app->Initialize(is, clob); got = rc == Solve_Succeeded ? 1 : 0; if( rc != Solve_Succeeded && rc != Invalid_Option ) out().viol("", "status", fmt("Initialize returns %d; ", rc) + desc); }
      else { std::string f = scratch + fmt("/o%d.opt", (int) getpid()); { std::ofstream o(f, std::ios::binary); o.write(text.data(), text.size()); } int rc; if( way == 2 ) rc = app->Initialize(f, clob); else { SmartPtr<OptionsList> q = app->Options(); if( text.find("option_file_name") != std::string::npos || M.count("option_file_name") ) rc = app->Initialize(f, clob); else { q->SetStringValue("option_file_name", f); M["option_file_name"] = MV{f, 0, 0, true}; rc = app->Initialize(clob); } } got = rc == Solve_Succeeded ? 1 : 0; unlink(f.c_str()); if( rc != Solve_Succeeded && rc != Invalid_Option ) out().viol("", "status", fmt("Initialize returns %d; ", rc) + desc); }
   } catch( OPTION_INVALID& ) { got = 0; if( way ) out().viol("", "exception", "Initialize lets OPTION_INVALID through; " + desc); }
   out().stat("texts_read"); out().stat(want == 1 ? "valid_texts" : want == 0 ? "malformed_texts" : "unspecified_texts"); out().stat("entries", n); if( want < 0 ) return;
   if( got != want ) { out().viol("", want ? "valid-text-refused" : "malformed-text-accepted", fmt("reader says %d, reference %d (%s); way %d; ", got, want, why.c_str(), way) + desc); return; }
   // after an error the entries before it are set (or none of them), and nothing else
   std::set<std::string> keys; for( auto& m : M ) keys.insert(m.first); for( auto& d : all ) { bool any = r.chance(0.02); for( auto& k : keys ) { size_t p = k.rfind('.'); if( (p == std::string::npos ? k : k.substr(p + 1)) == low(d.name) ) any = true; } if( any ) for( auto p : {"", "resto.", "x."} ) check1(L, M, d, p, " after " + desc); }
   std::string list; L.PrintList(list); size_t cnt = std::count(list.begin(), list.end(), '\n') - 1, nl = 0; for( auto& m : M ) nl += std::count(m.second.s.begin(), m.second.s.end(), 10) + std::count(m.first.begin(), m.first.end(), 10); if( cnt != M.size() + nl ) out().viol("", "extra-settings", fmt("%d settings made, expected %d; ", (int) cnt, (int) M.size()) + desc);
   out().sig(hstr(text)); if( r.chance(0.003) ) out().sample(desc);
}
static std::vector<Desc> descs() { std::vector<Desc> a; for( auto& o : TAB ) a.push_back(desc(o)); return a; }
static void c14(Rng& r, long) { static std::vector<Desc> all = descs(); run14(r, genText(r, all, r.pickd({0, 0, 0.05, 0.2})), "generated"); }
static void c14f(Rng& r, long) {
   static std::vector<Desc> all = descs(); std::string s;
   if( r.chance(0.5) ) { s = genText(r, all, 0.1); int m = r.ri(1, 8); for( int k = 0; k < m && !s.empty(); ++k ) { size_t p = r.ri(0, (int) s.size() - 1); switch( r.ri(0, 5) ) { case 0: s[p] = (char) r.u64(); break; case 1: s.erase(p, r.ri(1, 5)); break; case 2: s.insert(p, 1, "\"#\n \t\0\xff\r\\%"[r.ri(0, 9)]); break; case 3: s.insert(p, s.substr(r.ri(0, (int) s.size() - 1), 20)); break; case 4: s.resize(p); break; default: s.insert(p, std::string(r.ri(1, 400), (char) r.ri(32, 126))); } } }
   else if( r.chance(0.5) ) { int n = r.ri(0, 200); for( int k = 0; k < n; ++k ) s += (char) r.u64(); }
   else { int n = r.ri(0, 60); for( int k = 0; k < n; ++k ) { if( r.chance(0.3) ) s += r.pick(all).name; else if( r.chance(0.3) ) s += r.pick({"1", "1e-3", "yes", "no", "5", "none", "\"", "\"\"", "\"yes\"", "#"}); else s += "\"# \n\t\r\0d1e.-+"[r.ri(0, 13)]; if( r.chance(0.4) ) s += ' '; } }
   run14(r, s, "mutated");
}
// things that are not an options text: directory, missing file, unreadable names, very long tokens and comments
static void c14x(Rng& r, long k) {
   SmartPtr<IpoptApplication> app = new IpoptApplication(false); int rc; out().stat("odd_files"); out().sig(hmix(k % 6, r.u64() % 1000));
   if( k % 6 == 0 ) { rc = app->Initialize(scratch); if( rc == Solve_Succeeded ) out().viol("", "directory", "reading a directory as options file is not reported"); return; }
   if( k % 6 == 1 ) { rc = app->Initialize(scratch + "/no/such/file"); if( rc != Solve_Succeeded && rc != Invalid_Option ) out().viol("", "missing-file", fmt("status %d", rc)); return; }
   size_t n = (size_t) r.logu(100, k % 6 == 2 ? 3e7 : 1e5); std::string s; bool ok = true;
   if( k % 6 == 2 ) s = "#" + std::string(n, r.chance(0.5) ? 'x' : ' ') + " tol 7\nmax_iter 17\n"; else if( k % 6 == 3 ) s = "hsllib " + std::string(n, 'a') + "\nmax_iter 17\n"; else if( k % 6 == 4 ) { s = "tol " + std::string(n, '1') + "\nmax_iter 17"; ok = n < 308; if( n < 320 ) ok = false, s = "max_iter 17"; ok = true; if( s.size() > 20 ) { /* overflows to infinity, which is in the range */ } } else { s = "tol 0." + std::string(n, '0') + "1\nmax_iter 17"; ok = n < 300; if( n > 280 && n < 330 ) return; }
   std::istringstream is(s); rc = app->Initialize(is); Index mi; app->Options()->GetIntegerValue("max_iter", mi, "");
   if( (rc == Solve_Succeeded) != ok ) out().viol("", "long-token", fmt("kind %d length %d: status %d", (int) (k % 6), (int) n, rc)); if( ok && mi != 17 ) out().viol("", "long-token", fmt("kind %d length %d: max_iter %d", (int) (k % 6), (int) n, mi));
   if( k % 6 == 2 ) { Number t; if( app->Options()->GetNumericValue("tol", t, "") ) out().viol("", "comment-read", fmt("comment of length %d is read as setting", (int) n)); }
   if( k % 6 == 3 ) { std::string v; app->Options()->GetStringValue("hsllib", v, ""); if( v != std::string(n, 'a') ) out().viol("", "long-token", "value changed"); std::string l; app->Options()->PrintUserOptions(l); if( l.find(v) == std::string::npos || l.find("max_iter") == std::string::npos ) out().viol("", "long-token-list", "value not in the list of user options"); }
}
// settings that must not matter: documented defaults set explicitly, settings with the prefix of nobody, other spelling of values, settings made by an options text
static void c13u(Rng& r, long k) {
   static std::vector<Desc> all = descs(); Job j = genJob(r); j.c.rm("linear_solver");
   static const std::set<std::string> skip = {"output_file", "suppress_all_output", "print_options_documentation", "option_file_name", "file_print_level"};
   Result A, B; { SmartPtr<IpoptApplication> app = new IpoptApplication(false); setOpts(*app, j.c); SmartPtr<MonTNLP> t = new MonTNLP(j.p, j.c); arm(*t, j); A = runJob(j, app, t); }
   SmartPtr<IpoptApplication> app = new IpoptApplication(false); std::string how, text; auto L = app->Options(); L->SetIntegerValue("print_level", 0); L->SetStringValue("sb", "yes");
   bool viaText = r.chance(0.4), cs = r.chance(0.5);
   for( auto& o : j.c.o ) { std::string sv = o.s; if( o.t == 's' && cs ) { bool star = false; auto d = byName(all, o.name); for( auto& v : d->vs ) if( v == "*" ) star = true; if( !star ) sv = rcase(r, sv); }
      if( viaText ) text += o.name + " " + (o.t == 'n' ? fmt("%.17g", o.d) : o.t == 'i' ? fmt("%d", o.i) : "\"" + sv + "\"") + "\n"; else if( o.t == 'n' ) L->SetNumericValue(o.name, o.d); else if( o.t == 'i' ) L->SetIntegerValue(o.name, o.i); else L->SetStringValue(o.name, sv); }
   double pd = getenv("ONE") ? 1. / all.size() : r.pickd({0, 0.05, 0.5, 1}), pf = r.pickd({0, 0.05, 0.3});
   for( auto& d : all ) {
      if( r.chance(pf) ) { std::string t = std::string(r.pick({"foo.", "rest.", "resto_", "x.resto."})) + d.name; std::string m, v; if( t.compare(0, 6, "resto_") == 0 ) continue; if( d.type == 'N' ) { double x = rnum(r, d); if( okNum(d, x) ) L->SetNumericValue(t, x); } else if( d.type == 'I' ) { int x = rnint(r, d); if( okInt(d, x) ) L->SetIntegerValue(t, x); } else { v = rstr(r, d); if( okStr(d, v, m) ) L->SetStringValue(t, v); } how += " " + t; out().stat("foreign_prefix"); }
      if( j.c.get(d.name) || skip.count(d.name) || !r.chance(pd) || (d.type == 'S' && d.ds.empty()) ) continue;
      if( d.name == "print_level" || d.name == "sb" ) continue;
      // for these, not set is documented (or implemented) to mean something else than the default value
      static const std::set<std::string> exc = {"linear_solver", "linear_system_scaling", "mu_strategy", "mu_oracle", "warm_start_bound_push", "warm_start_bound_frac", "warm_start_slack_bound_push", "warm_start_slack_bound_frac", "slack_bound_push", "slack_bound_frac", "bound_push", "bound_frac", "bound_mult_init_val", "constr_mult_init_max", "alpha_for_y", "least_square_init_primal", "mumps_pivtolmax", "theta_max_fact", "resto_failure_feasibility_threshold", "required_infeasibility_reduction", "expect_infeasible_problem", "mu_max", "mu_min", "recalc_y"};
      if( exc.count(d.name) ) continue;
      bool ok = d.type == 'N' ? L->SetNumericValue(d.name, d.dn) : d.type == 'I' ? L->SetIntegerValue(d.name, (Index) d.dn) : L->SetStringValue(d.name, d.ds); how += " " + d.name; out().stat("defaults_set"); if( !ok ) out().viol("", "default-refused", d.name);
   }
   SmartPtr<MonTNLP> t = new MonTNLP(j.p, j.c); arm(*t, j); if( viaText ) { std::istringstream is(text); int rc = app->Initialize(is); if( rc != Solve_Succeeded ) { out().viol("", "valid-text-refused", text); return; } B = runJob(j, app, t, false); } else B = runJob(j, app, t);
   std::string s = cmp(A, B); out().stat("solves_compared"); out().stat("events_compared", A.tr.size()); out().sig(hmix(j.c.sig(), hstr(how, j.p.sig()))); if( !s.empty() ) out().viol("", "irrelevant-setting-matters", s + " | set in addition:" + (pd < 1 ? how : " all defaults " + how.substr(0, 200)) + (viaText ? " | by text" : "") + " | " + j.p.descr() + " | " + j.c.str());
}
static void dump() {
   SmartPtr<IpoptApplication> app = new IpoptApplication(false);
   for( auto& p : app->RegOptions()->RegisteredOptionsList() ) { auto& o = *p.second; auto q = [](const std::string& s) { std::string t = "\""; for( char c : s ) { if( c == '"' || c == '\\' ) t += '\\'; t += c; } return t + "\""; }; auto nn = [](double v) { return std::isinf(v) ? std::string(v > 0 ? "inf_" : "-inf_") : fmt("%.17g", v); };
      if( o.Type() == OT_Number ) printf("{%s, 'N', %d, %s, %d, %d, %s, %d, %s, \"\", {}},\n", q(p.first).c_str(), o.HasLower(), o.HasLower() ? nn(o.LowerNumber()).c_str() : "0", o.HasLower() && o.LowerStrict(), o.HasUpper(), o.HasUpper() ? nn(o.UpperNumber()).c_str() : "0", o.HasUpper() && o.UpperStrict(), nn(o.DefaultNumber()).c_str());
      else if( o.Type() == OT_Integer ) printf("{%s, 'I', %d, %d, 0, %d, %d, 0, %d, \"\", {}},\n", q(p.first).c_str(), o.HasLower(), o.HasLower() ? o.LowerInteger() : 0, o.HasUpper(), o.HasUpper() ? o.UpperInteger() : 0, o.DefaultInteger());
      else if( o.Type() == OT_String ) { printf("{%s, 'S', 0, 0, 0, 0, 0, 0, 0, %s, {", q(p.first).c_str(), q(o.DefaultString()).c_str()); for( auto& v : o.GetValidStrings() ) printf("%s, ", q(v.value_).c_str()); printf("}},\n"); } }
}
int main(int argc, char** argv) {
   if( argc > 1 && !strcmp(argv[1], "dump") ) { dump(); return 0; }
   Args a = parse(argc, argv); scratch = a.scratch;
   if( a.mode == "c13" ) runCases(a, c13); else if( a.mode == "c13u" ) runCases(a, c13u); else if( a.mode == "c13s" ) runCases(a, c13s); else if( a.mode == "c14" ) runCases(a, c14); else if( a.mode == "c14f" ) runCases(a, c14f); else if( a.mode == "c14x" ) runCases(a, c14x); else return 7;
   return 0;
}
