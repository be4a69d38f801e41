// C19: option store as a state machine against a reference map.  C20: option files over all short token strings.
#include "mc.hpp"
#include "IpOptionsList.hpp"
#include "IpRegOptions.hpp"
#include "IpJournalist.hpp"
#ifdef WITH_APP
#include "IpIpoptApplication.hpp"
#endif
#include <cfloat>
#include <climits>
#include <fstream>
#include <memory>
#include <sstream>
using namespace Ipopt;
using mc::fmt;

enum Ty { TN, TI, TS };
struct OptSpec
{
   std::string name;
   Ty ty;
   bool hasL, strictL, hasU, strictU;
   double lo, up, defN;
   int defI;
   std::vector<std::string> vals;   // "*" = any
   std::string defS;
};
static std::vector<OptSpec> SPECS = {
   {"num", TN, true, true, true, false, 0.0, 1.0, 0.5, 0, {}, ""},
   {"nlo", TN, true, false, true, true, -1.0, 2.0, 0.25, 0, {}, ""},
   {"int", TI, true, false, true, false, -2, 3, 0, 1, {}, ""},
   {"str", TS, false, false, false, false, 0, 0, 0, 0, {"One", "two", "yes"}, "two"},
   {"any", TS, false, false, false, false, 0, 0, 0, 0, {"*"}, "dflt"},
   {"bool", TS, false, false, false, false, 0, 0, 0, 0, {"yes", "no"}, "no"},
   {"nfree", TN, false, false, false, false, 0, 0, 3.5, 0, {}, ""},
   {"ifree", TI, false, false, false, false, 0, 0, 0, 7, {}, ""},
};

static SmartPtr<RegisteredOptions> makeReg()
{
   SmartPtr<RegisteredOptions> r = new RegisteredOptions();
   r->AddBoundedNumberOption("num", "d", 0.0, true, 1.0, false, 0.5);
   r->AddBoundedNumberOption("nlo", "d", -1.0, false, 2.0, true, 0.25);
   r->AddBoundedIntegerOption("int", "d", -2, 3, 1);
   r->AddStringOption3("str", "d", "two", "One", "", "two", "", "yes", "");
   r->AddStringOption1("any", "d", "dflt", "*", "");
   r->AddBoolOption("bool", "d", false);
   r->AddNumberOption("nfree", "d", 3.5);
   r->AddIntegerOption("ifree", "d", 7);
   return r;
}

static std::string low(std::string s) { for( char& c : s ) c = (char) tolower(c); return s; }
static const OptSpec* spec(const std::string& tag)
{
   size_t p = tag.rfind('.');
   std::string t = p == std::string::npos ? tag : tag.substr(p + 1);
   for( auto& s : SPECS ) if( s.name == t ) return &s;
   return nullptr;
}

struct Val { Ty ty; double n; int i; std::string s; bool clob; bool operator==(const Val& o) const { return ty == o.ty && n == o.n && i == o.i && s == o.s && clob == o.clob; } };
typedef std::map<std::string, Val> Model;

static bool validN(const OptSpec& s, double v)
{
   if( v != v ) return !(s.hasL || s.hasU);
   if( s.hasL && (s.strictL ? !(v > s.lo) : !(v >= s.lo)) ) return false;
   if( s.hasU && (s.strictU ? !(v < s.up) : !(v <= s.up)) ) return false;
   return true;
}
static bool validI(const OptSpec& s, long long v)
{
   return v >= INT_MIN && v <= INT_MAX && !(s.hasL && v < s.lo) && !(s.hasU && v > s.up);
}
static bool validS(const OptSpec& s, const std::string& v, std::string* canon = nullptr, int* idx = nullptr)
{
   for( size_t k = 0; k < s.vals.size(); ++k )
   {
      if( s.vals[k] == "*" ) { if( canon ) *canon = v; return true; }
      if( low(s.vals[k]) == low(v) ) { if( canon ) *canon = s.vals[k]; if( idx ) *idx = (int) k; return true; }
   }
   return false;
}

// compares every query with every prefix
static void compareAll(mc::Explorer& ex, const OptionsList& ol, const Model& m, const std::string& hist)
{
   for( auto& s : SPECS )
      for( const char* pre : {"", "p.", "Q."} )
      {
         const Val* v = nullptr;
         auto it = m.find(low(std::string(pre) + s.name));
         if( it == m.end() ) it = m.find(low(s.name));
         if( it != m.end() ) v = &it->second;
         auto bad = [&](const std::string& w) { ex.fail("query-mismatch:" + s.name, "after " + hist + ": get(" + pre + s.name + ") " + w); };
         try
         {
            if( s.ty == TN )
            {
               Number g = -99;
               bool f = ol.GetNumericValue(s.name, g, pre);
               double e = v ? v->n : s.defN;
               if( f != (v != nullptr) || !(g == e || (g != g && e != e)) ) bad(fmt("found=%d value=%.17g expected found=%d value=%.17g", f, g, v != nullptr, e));
            }
            else if( s.ty == TI )
            {
               Index g = -99;
               bool f = ol.GetIntegerValue(s.name, g, pre);
               int e = v ? v->i : s.defI;
               if( f != (v != nullptr) || g != e ) bad(fmt("found=%d value=%d expected found=%d value=%d", f, g, v != nullptr, e));
            }
            else
            {
               std::string g = "zz", e = v ? v->s : s.defS, ce = e;
               int ei = -1;
               validS(s, e, &ce, &ei);
               bool f = ol.GetStringValue(s.name, g, pre);
               if( f != (v != nullptr) || g != ce ) bad(fmt("found=%d value='%s' expected found=%d value='%s'", f, g.c_str(), v != nullptr, ce.c_str()));
               if( s.vals[0] != "*" )
               {
                  Index k = -99;
                  f = ol.GetEnumValue(s.name, k, pre);
                  if( f != (v != nullptr) || k != ei ) bad(fmt("enum found=%d value=%d expected %d", f, k, ei));
               }
               if( s.name == "bool" )
               {
                  bool b = ce != "yes";
                  f = ol.GetBoolValue(s.name, b, pre);
                  if( f != (v != nullptr) || b != (ce == "yes") ) bad(fmt("bool found=%d value=%d expected %s", f, b, ce.c_str()));
               }
            }
         }
         catch( IpoptException& e ) { bad("threw " + e.Message()); }
      }
}

static uint64_t modelHash(const Model& m)
{
   mc::Hash h;
   for( auto& kv : m ) { h.s(kv.first); h.i(kv.second.ty); h.d(kv.second.n); h.i(kv.second.i); h.s(kv.second.s); h.i(kv.second.clob); }
   return h.h;
}

static const double NUMS[] = {0.5, 1.0, 0.0, 1.0 / 3.0, 1.23456789012345, -1.0, 2.0, 1e-300, 1.9999999999, 0x1p-1074, NAN, INFINITY, 123456789.125, 1.0000000000000002};

static int depthMax;

static void seqBody(mc::Explorer& ex)
{
   SmartPtr<RegisteredOptions> reg = makeReg();
   SmartPtr<OptionsList> ol = new OptionsList(reg, SmartPtr<Journalist>());
   Model m;
   std::string hist;
   bool th = ex.thorough;
   for( int d = 0; d < depthMax; ++d )
   {
      if( d == 1 ) ex.shardPoint();
      // one flat choice: operation
      struct Op { int kind; const char* tag; int a; int clob; };
      static std::vector<Op> ops;
      if( ops.empty() )
      {
         // kind 0 stop, 1 num, 2 int, 3 str, 4 num-if-unset, 5 int-if-unset, 6 str-if-unset, 7 unset, 8 clear, 9 copy
         for( const char* t : {"num", "p.num"} ) for( int a : {0, 2, 3, 4} ) ops.push_back({1, t, a, 1});
         ops.push_back({1, "num", 3, 0});
         ops.push_back({1, "q.num", 1, 1});
         ops.push_back({1, "nlo", 5, 1});
         ops.push_back({1, "nlo", 6, 1});
         ops.push_back({1, "int", 0, 1});
         ops.push_back({2, "int", 3, 1});
         ops.push_back({2, "int", 4, 1});
         ops.push_back({2, "p.int", -2, 1});
         ops.push_back({2, "int", -3, 0});
         ops.push_back({2, "int", 2, 0});
         ops.push_back({2, "num", 1, 1});
         ops.push_back({2, "str", 1, 1});
         for( const char* t : {"str", "p.str"} ) for( int a : {0, 1, 2} ) ops.push_back({3, t, a, 1});
         ops.push_back({3, "str", 1, 0});
         ops.push_back({3, "any", 3, 1});
         ops.push_back({3, "num", 0, 1});
         ops.push_back({3, "bool", 4, 1});
         ops.push_back({3, "bool", 0, 1});
         ops.push_back({3, "nope", 0, 1});
         ops.push_back({1, "nope", 0, 1});
         ops.push_back({2, "p.nope", 0, 1});
         ops.push_back({4, "num", 3, 1});
         ops.push_back({4, "num", 2, 1});
         ops.push_back({4, "p.num", 0, 0});
         ops.push_back({5, "int", 3, 1});
         ops.push_back({5, "int", 9, 1});
         ops.push_back({6, "str", 1, 0});
         ops.push_back({6, "str", 2, 1});
         for( const char* t : {"num", "p.num", "int", "str", "P.NUM"} ) ops.push_back({7, t, 0, 1});
         ops.push_back({8, "", 0, 1});
         ops.push_back({9, "", 0, 1});
      }
      (void) th;
      int k = ex.choose((int) ops.size());
      const Op& o = ops[k];
      static const char* STRS[] = {"ONE", "two", "bad", "Some Value", "Yes"};
      std::string tag = o.tag;
      const OptSpec* s = o.kind <= 7 ? spec(tag) : nullptr;
      bool ret = true, threw = false, expect = true, checkRet = true;
      auto prot = [&]() { auto it = m.find(low(tag)); return it != m.end() && !it->second.clob; };
      std::string before = hist;
      try
      {
         switch( o.kind )
         {
            case 1:
            case 4:
            {
               double v = NUMS[o.a];
               hist += fmt("; %s(%s,%.17g%s)", o.kind == 1 ? "setNum" : "setNumIfUnset", tag.c_str(), v, o.clob ? "" : ",protect");
               bool there = o.kind == 4 && m.count(low(tag));
               expect = s && s->ty == TN && validN(*s, v);
               if( there ) expect = true;
               if( expect && !there )
               {
                  if( prot() ) checkRet = false;
                  else m[low(tag)] = Val{TN, v, 0, "", o.clob != 0};
               }
               if( there ) {}
               ret = o.kind == 1 ? ol->SetNumericValue(tag, v, o.clob) : ol->SetNumericValueIfUnset(tag, v, o.clob);
               break;
            }
            case 2:
            case 5:
            {
               hist += fmt("; %s(%s,%d%s)", o.kind == 2 ? "setInt" : "setIntIfUnset", tag.c_str(), o.a, o.clob ? "" : ",protect");
               bool there = o.kind == 5 && m.count(low(tag));
               expect = s && s->ty == TI && validI(*s, o.a);
               if( there ) expect = true;
               if( expect && !there )
               {
                  if( prot() ) checkRet = false;
                  else m[low(tag)] = Val{TI, 0, o.a, "", o.clob != 0};
               }
               ret = o.kind == 2 ? ol->SetIntegerValue(tag, o.a, o.clob) : ol->SetIntegerValueIfUnset(tag, o.a, o.clob);
               break;
            }
            case 3:
            case 6:
            {
               std::string v = STRS[o.a], cv = v;
               hist += fmt("; %s(%s,'%s'%s)", o.kind == 3 ? "setStr" : "setStrIfUnset", tag.c_str(), v.c_str(), o.clob ? "" : ",protect");
               bool there = o.kind == 6 && m.count(low(tag));
               expect = s && s->ty == TS && validS(*s, v, &cv);
               if( there ) expect = true;
               if( expect && !there )
               {
                  if( prot() ) checkRet = false;
                  else m[low(tag)] = Val{TS, 0, 0, cv, o.clob != 0};
               }
               ret = o.kind == 3 ? ol->SetStringValue(tag, v, o.clob) : ol->SetStringValueIfUnset(tag, v, o.clob);
               break;
            }
            case 7:
               hist += "; unset(" + tag + ")";
               if( prot() ) expect = false;
               else expect = m.erase(low(tag)) > 0;
               ret = ol->UnsetValue(tag);
               break;
            case 8:
               hist += "; clear";
               m.clear();
               ol->clear();
               break;
            case 9:
            {
               hist += "; copy";
               SmartPtr<OptionsList> c = (d % 2) ? new OptionsList(*ol) : new OptionsList(reg, SmartPtr<Journalist>());
               if( d % 2 == 0 ) *c = *ol;
               // changes of the original must not show in the copy
               SmartPtr<OptionsList> old = ol;
               ol = c;
               old->clear();
               break;
            }
         }
      }
      catch( IpoptException& e ) { threw = true; }
      ex.count("transitions");
      ex.outcome(modelHash(m));
      if( threw && o.kind <= 3 ) ex.fail("set-throws", hist);
      if( checkRet && (ret && !threw) != expect ) ex.fail("set-verdict", fmt("%s returned %d, expected %d", hist.c_str(), ret, expect));
      compareAll(ex, *ol, m, hist);
   }
   ex.desc = hist;
}

// value space: every option of the small registry x every value in a fresh list, through both ways of setting
static void valueBody(mc::Explorer& ex)
{
   SmartPtr<RegisteredOptions> reg = makeReg();
   SmartPtr<OptionsList> ol = new OptionsList(reg, SmartPtr<Journalist>());
   Model m;
   int so = ex.choose((int) SPECS.size());
   const OptSpec& s = SPECS[so];
   ex.shardPoint();
   if( s.ty == TN )
   {
      double v = NUMS[ex.choose(sizeof(NUMS) / sizeof(double))];
      ex.desc = fmt("%s=%.17g", s.name.c_str(), v);
      bool ok = validN(s, v);
      bool r = ol->SetNumericValue(s.name, v);
      if( r != ok ) ex.fail("range:" + s.name, fmt("value %.17g accepted=%d expected=%d", v, r, ok));
      if( ok ) m[s.name] = Val{TN, v, 0, "", true};
   }
   else if( s.ty == TI )
   {
      static const int iv[] = {0, 1, -2, -3, 3, 4, INT_MAX, INT_MIN, 100};
      int v = iv[ex.choose(9)];
      ex.desc = fmt("%s=%d", s.name.c_str(), v);
      bool ok = validI(s, v);
      bool r = ol->SetIntegerValue(s.name, v);
      if( r != ok ) ex.fail("range:" + s.name, fmt("value %d accepted=%d expected=%d", v, r, ok));
      if( ok ) m[s.name] = Val{TI, 0, v, "", true};
   }
   else
   {
      static const char* sv[] = {"one", "ONE", "two", "TWO", "yes", "YES", "no", "tw", "twoo", "", "*", "a b", "1"};
      std::string v = sv[ex.choose(13)], c = v;
      ex.desc = s.name + "='" + v + "'";
      bool ok = validS(s, v, &c);
      bool r = ol->SetStringValue(s.name, v);
      if( r != ok ) ex.fail("range:" + s.name, fmt("value '%s' accepted=%d expected=%d", v.c_str(), r, ok));
      if( ok ) m[s.name] = Val{TS, 0, 0, c, true};
   }
   ex.outcome(modelHash(m));
   ex.count("transitions");
   compareAll(ex, *ol, m, ex.desc);
}

#ifdef WITH_APP
// every registered option of the library: at its bounds, just beyond, inside; through application options
static void allBody(mc::Explorer& ex)
{
   static SmartPtr<IpoptApplication> app = new IpoptApplication(false);
   const RegisteredOptions::RegOptionsList& L = app->RegOptions()->RegisteredOptionsList();
   std::vector<std::string> names;
   for( auto& kv : L ) names.push_back(kv.first);
   std::string nm = names[ex.choose((int) names.size())];
   ex.shardPoint();
   SmartPtr<const RegisteredOption> o = app->RegOptions()->GetOption(nm);
   SmartPtr<OptionsList> ol = app->Options();
   ol->clear();
   ex.desc = nm;
   bool prefixed = ex.choose(2);
   std::string tag = prefixed ? "resto." + nm : nm, pre = prefixed ? "resto." : "";
   ex.count("transitions");
   if( o->Type() == OT_Number )
   {
      std::vector<double> v = {o->DefaultNumber(), 0.1, 1.0 / 3, 1.23456789e-3, 77777.7777, -2.5, 0, 1e20, 1};
      if( o->HasLower() ) for( double t : {o->LowerNumber(), std::nextafter(o->LowerNumber(), INFINITY), std::nextafter(o->LowerNumber(), -INFINITY)} ) v.push_back(t);
      if( o->HasUpper() ) for( double t : {o->UpperNumber(), std::nextafter(o->UpperNumber(), INFINITY), std::nextafter(o->UpperNumber(), -INFINITY)} ) v.push_back(t);
      double x = v[ex.choose((int) v.size())];
      bool ok = true;
      if( o->HasLower() && (o->LowerStrict() ? x <= o->LowerNumber() : x < o->LowerNumber()) ) ok = false;
      if( o->HasUpper() && (o->UpperStrict() ? x >= o->UpperNumber() : x > o->UpperNumber()) ) ok = false;
      bool r = ol->SetNumericValue(tag, x);
      if( r != ok ) ex.fail("range", fmt("%s = %.17g accepted=%d expected=%d", tag.c_str(), x, r, ok));
      Number g = -99;
      bool f = ol->GetNumericValue(nm, g, pre);
      if( f != ok || g != (ok ? x : o->DefaultNumber()) ) ex.fail("value", fmt("%s = %.17g reads back %.17g", tag.c_str(), x, g));
      if( prefixed && ok ) { f = ol->GetNumericValue(nm, g, ""); if( f || g != o->DefaultNumber() ) ex.fail("value", nm + ": prefixed value visible without prefix"); }
      if( ol->SetIntegerValue(tag, 1) ) ex.fail("type", tag + " accepted an integer");
      if( ol->SetStringValue(tag, "1") ) ex.fail("type", tag + " accepted a string");
      mc::Hash h; h.s(nm); h.d(x); h.i(ok); ex.outcome(h.h);
   }
   else if( o->Type() == OT_Integer )
   {
      std::vector<long long> v = {o->DefaultInteger(), 0, 1, 3, -1, INT_MAX};
      if( o->HasLower() ) for( long long t : {-1, 0, 1} ) v.push_back((long long) o->LowerInteger() + t);
      if( o->HasUpper() ) for( long long t : {-1, 0, 1} ) v.push_back((long long) o->UpperInteger() + t);
      long long xl = v[ex.choose((int) v.size())];
      if( xl > INT_MAX || xl < INT_MIN ) throw mc::Prune();
      int x = (int) xl;
      bool ok = !(o->HasLower() && x < o->LowerInteger()) && !(o->HasUpper() && x > o->UpperInteger());
      bool r = ol->SetIntegerValue(tag, x);
      if( r != ok ) ex.fail("range", fmt("%s = %d accepted=%d expected=%d", tag.c_str(), x, r, ok));
      Index g = -99;
      bool f = ol->GetIntegerValue(nm, g, pre);
      if( f != ok || g != (ok ? x : o->DefaultInteger()) ) ex.fail("value", fmt("%s = %d reads back %d", tag.c_str(), x, g));
      if( ol->SetNumericValue(tag, 1.) ) ex.fail("type", tag + " accepted a number");
      if( ol->SetStringValue(tag, "1") ) ex.fail("type", tag + " accepted a string");
      mc::Hash h; h.s(nm); h.i(x); h.i(ok); ex.outcome(h.h);
   }
   else
   {
      std::vector<std::string> v = o->GetValidStrings().size() ? std::vector<std::string>() : std::vector<std::string>();
      bool wild = false;
      for( auto& e : o->GetValidStrings() )
      {
         if( e.value_ == "*" ) { wild = true; continue; }
         v.push_back(e.value_);
         std::string u = e.value_;
         for( char& c : u ) c = (char) toupper(c);
         v.push_back(u);
         v.push_back(e.value_ + "x");
         if( e.value_.size() > 1 ) v.push_back(e.value_.substr(0, e.value_.size() - 1));
      }
      v.push_back("Some-Thing");
      std::string x = v[ex.choose((int) v.size())];
      std::string canon = wild ? x : "";
      bool ok = wild;
      for( auto& e : o->GetValidStrings() ) if( e.value_ != "*" && low(e.value_) == low(x) ) { ok = true; canon = e.value_; }
      bool r = ol->SetStringValue(tag, x);
      if( r != ok ) ex.fail("range", fmt("%s = '%s' accepted=%d expected=%d", tag.c_str(), x.c_str(), r, ok));
      std::string g;
      bool f = ol->GetStringValue(nm, g, pre);
      if( f != ok || (g != (ok ? canon : o->DefaultString())) ) ex.fail("value", fmt("%s = '%s' reads back '%s'", tag.c_str(), x.c_str(), g.c_str()));
      if( ol->SetIntegerValue(tag, 1) || ol->SetNumericValue(tag, 1) ) ex.fail("type", tag + " accepted a number");
      mc::Hash h; h.s(nm); h.s(x); h.i(ok); ex.outcome(h.h);
   }
}
#endif

// ------------------------------------------------------------------ C20
struct Tok { std::string t; bool quoted; };

// reference tokenizer; status: 0 ok, 1 unterminated quote, 2 unspecified text (skipped)
static int refTokens(const std::string& s, std::vector<Tok>& out)
{
   size_t i = 0, n = s.size();
   auto sp = [&](char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\v' || c == '\f'; };
   while( i < n )
   {
      if( sp(s[i]) ) { ++i; continue; }
      if( s[i] == '#' ) { while( i < n && s[i] != '\n' ) ++i; continue; }
      Tok t;
      t.quoted = false;
      if( s[i] == '"' )
      {
         t.quoted = true;
         size_t e = s.find('"', i + 1);
         if( e == std::string::npos ) { t.t = s.substr(i + 1); out.push_back(t); return 1; }
         t.t = s.substr(i + 1, e - i - 1);
         i = e + 1;
         if( i < n && !sp(s[i]) ) return 2;   // text glued to a closing quote: meaning not documented
      }
      else
      {
         while( i < n && !sp(s[i]) ) t.t += s[i++];
      }
      out.push_back(t);
   }
   return 0;
}

// meaning of a number literal: optional sign, digits, fraction, exponent with e/d
static bool refNumber(const std::string& s, double& v)
{
   std::string t;
   for( char c : s ) t += (c == 'd' || c == 'D') ? 'e' : c;
   if( t.empty() ) return false;
   char* e;
   v = strtod(t.c_str(), &e);
   return e == t.c_str() + t.size() && e != t.c_str();
}
static bool refInt(const std::string& s, long long& v)
{
   if( s.empty() ) return false;
   char* e;
   errno = 0;
   v = strtoll(s.c_str(), &e, 10);
   return e == s.c_str() + s.size() && e != s.c_str() && !errno;
}

// -> 0 everything set, 1 must fail, 2 unspecified
static int refRead(const std::string& text, bool clobber, Model& m, std::string& why)
{
   std::vector<Tok> t;
   int st = refTokens(text, t);
   if( st == 2 ) return 2;
   for( size_t i = 0; i < t.size(); i += 2 )
   {
      if( i + 1 >= t.size() ) { why = "missing value"; return 1; }
      if( st == 1 && (i + 2 >= t.size()) ) { why = "unterminated quote"; return 1; }
      const OptSpec* s = spec(t[i].t);
      if( !s ) { why = "unknown name"; return 1; }
      Val v{s->ty, 0, 0, "", clobber};
      // a quoted number followed by white space: leniency is not documented either way
      if( s->ty != TS && t[i + 1].quoted && t[i + 1].t.find_first_of(" \t\r\n") != std::string::npos ) return 2;
      if( s->ty == TN ) { if( !refNumber(t[i + 1].t, v.n) || !validN(*s, v.n) ) { why = "bad number"; return 1; } }
      else if( s->ty == TI ) { long long k; if( !refInt(t[i + 1].t, k) || !validI(*s, k) ) { why = "bad integer"; return 1; } v.i = (int) k; }
      else if( !validS(*s, t[i + 1].t, &v.s) ) { why = "bad string"; return 1; }
      auto it = m.find(low(t[i].t));
      if( it != m.end() && !it->second.clob ) continue;
      m[low(t[i].t)] = v;
   }
   return st;
}

static const char* ATOMS[] = {"num", " ", "\n", "0.5", "any", "\"", "#", "int", "2", "str", "one", "p.num", "=", "\t", "\r\n", "x"};
static const int NATOMS = 16;
static const char* VATOMS[] = {"0.5", "1d-2", "1E0", ".25", "2", "-1", "0", "abc", "1x", "1.5", "99999999999", "4294967297", "\"\"", "\"0.5\"", "\"a b\"", "ONE", "1e-400", "nan", "inf", "0x1p-1", "0.123456789", "-", "1 #c", "#c", "\"a#b\"", "1e", "\"1 \"", "2147483648", "1..2", "+1", "0.5d0x"};
static const int NVATOMS = sizeof(VATOMS) / sizeof(VATOMS[0]);

static void runText(mc::Explorer& ex, const std::string& text)
{
   ex.desc = "text=" + text;
   Model m;
   std::string why;
   int r = refRead(text, false, m, why);
   if( r == 2 ) { ex.count("unspecified_texts"); throw mc::Prune(); }
   ex.count("transitions", 1 + (uint64_t) m.size());
   {
      mc::Hash h; h.i((long long) modelHash(m)); h.i(r); ex.outcome(h.h);
   }
   int got = 0;
   SmartPtr<RegisteredOptions> reg;
   SmartPtr<OptionsList> ol;
   std::string msg;
#ifdef WITH_APP
   SmartPtr<IpoptApplication> app;
   if( ex.mode == "appfile" )
   {
      app = new IpoptApplication(false);
      SmartPtr<RegisteredOptions> rr = app->RegOptions();
      rr->AddBoundedNumberOption("num", "d", 0.0, true, 1.0, false, 0.5);
      rr->AddBoundedNumberOption("nlo", "d", -1.0, false, 2.0, true, 0.25);
      rr->AddBoundedIntegerOption("int", "d", -2, 3, 1);
      rr->AddStringOption3("str", "d", "two", "One", "", "two", "", "yes", "");
      rr->AddStringOption1("any", "d", "dflt", "*", "");
      rr->AddBoolOption("bool", "d", false);
      rr->AddNumberOption("nfree", "d", 3.5);
      rr->AddIntegerOption("ifree", "d", 7);
      std::string fn = "opt.txt";
      { std::ofstream f(fn, std::ios::binary); f << text; }
      ApplicationReturnStatus st = ex.choose(2) ? app->Initialize(fn) : ([&]() { std::istringstream is(text); return app->Initialize(is); })();
      ol = app->Options();
      if( st == Solve_Succeeded ) got = 0;
      else if( st == Invalid_Option ) got = 1;
      else ex.fail("init-status", fmt("Initialize returned %d for a text that %s", (int) st, r ? why.c_str() : "is well-formed"));
   }
   else
#endif
   {
      reg = makeReg();
      ol = new OptionsList(reg, SmartPtr<Journalist>());
      Journalist jn;
      std::istringstream is(text);
      try { got = ol->ReadFromStream(jn, is, false) ? 0 : 1; }
      catch( OPTION_INVALID& e ) { got = 1; msg = e.Message(); }
   }
   if( got != r ) ex.fail(r ? "accepts-malformed:" + why : "refuses-wellformed", fmt("%s: %s", r ? why.c_str() : "well-formed text refused", msg.c_str()));
   if( r == 0 ) compareAll(ex, *ol, m, "reading");
}

static void fileBody(mc::Explorer& ex)
{
   std::string text;
   int len = ex.choose(depthMax + 1);
   for( int d = 0; d < len; ++d )
   {
      text += ATOMS[ex.choose(NATOMS)];
      if( d == 1 || d == len - 1 ) { if( d <= 1 ) ex.shardPoint(); }
   }
   runText(ex, text);
}
// one or two lines "name sep value": every option x every value literal x separators / line ends
static void lineBody(mc::Explorer& ex)
{
   std::string text;
   int lines = (ex.mode == "appfile" && !ex.thorough) ? 1 : 1 + ex.choose(2);
   for( int l = 0; l < lines; ++l )
   {
      int first = ex.choose(l ? 3 : (int) SPECS.size() + 2);
      std::string nm = first < (int) SPECS.size() ? SPECS[first].name : (first == (int) SPECS.size() ? "Num" : "pre.x.num");
      const char* v = VATOMS[ex.choose(NVATOMS)];
      if( l == 0 ) ex.shardPoint();
      static const char* seps[] = {" ", "\t ", "\n", " #c\n"};
      static const char* ends[] = {"\n", "", "\r\n", " # c", "\n\n#x\n"};
      text += nm + seps[l ? 0 : ex.choose(4)] + v + ends[ex.choose(l == lines - 1 ? 5 : 3) * 1];
      if( l + 1 < lines && text.back() != '\n' ) text += ' ';
   }
   runText(ex, text);
}

// long runs: comments, blanks, names, values and numbers of lines around every buffer size a reader may have
static void longBody(mc::Explorer& ex)
{
   static const int L[] = {1, 15, 63, 64, 79, 80, 127, 128, 255, 256, 257, 511, 1023, 1024, 1025, 4095, 4096, 4097, 16384, 65535, 65536, 70000};
   int kind = ex.choose(9), n = L[ex.choose(sizeof(L) / sizeof(L[0]))], tail = ex.choose(3);
   ex.shardPoint();
   std::string t;
   switch( kind )
   {
      case 0: t = "#" + std::string(n, 'x') + " num 0.125\nint 2\n"; break;
      case 1: t = "int" + std::string(n, ' ') + "2\n"; break;
      case 2: t = std::string(n, '\n') + "int 2\n"; break;
      case 3: t = "any " + std::string(n, 'v') + "\nint 2\n"; break;
      case 4: t = "any \"" + std::string(n, ' ') + "v\"\nint 2\n"; break;
      case 5: t = std::string(n, 'q') + " 2\nint 2\n"; break;
      case 6: for( int i = 0; i < n && i < 3000; ++i ) t += fmt("nfree %d.5\n", i); t += "int 2\n"; break;
      case 7: t = "nfree 0." + std::string(n, '3') + "\nint 2\n"; break;
      case 8: t = "num 0.5 #" + std::string(n, '"') + "#\nint 2\n"; break;
   }
   if( tail == 1 ) t += "str one";
   if( tail == 2 ) t += "# " + std::string(n, '#');
   runText(ex, t);
   if( ex.desc.size() > 200 ) ex.desc.resize(200);
}
// every byte value at each place of a line
static void bytesBody(mc::Explorer& ex)
{
   int place = ex.choose(7), b = 1 + ex.choose(255), twice = ex.choose(2);
   ex.shardPoint();
   std::string c(1 + twice, (char) b), t;
   switch( place )
   {
      case 0: t = c + "int 2\nnum 0.5\n"; break;
      case 1: t = "int" + c + "2\nnum 0.5\n"; break;
      case 2: t = "int 2" + c + "num 0.5\n"; break;
      case 3: t = "any a" + c + "b\nnum 0.5\n"; break;
      case 4: t = "any \"a" + c + "b\"\nnum 0.5\n"; break;
      case 5: t = "# a" + c + "b\nnum 0.5\n"; break;
      case 6: t = "num 0" + c + "5\nint 2"; break;
   }
   runText(ex, t);
}
#ifdef WITH_APP
#include <unistd.h>
#include <sys/stat.h>
// which file is read by which way of initializing, with values set before
static void initBody(mc::Explorer& ex)
{
   int way = ex.choose(5), have = ex.choose(4), ofn = ex.choose(4), pre = ex.choose(3), clob = ex.choose(2), bad = ex.choose(3);
   ex.shardPoint();
   unlink("ipopt.opt");
   unlink("other.opt");
   std::string body = bad == 1 ? "max_iter 77\nno_such_option 1\n" : bad == 2 ? "max_iter 77\ntol -1\n" : "max_iter 77\ntol 0.125\n";
   std::string body2 = "max_iter 55\n";
   if( have & 1 ) { std::ofstream f("ipopt.opt"); f << body; }
   if( have & 2 ) { std::ofstream f("other.opt"); f << body2; }
   SmartPtr<IpoptApplication> app = new IpoptApplication(false);
   if( ofn == 1 ) app->Options()->SetStringValue("option_file_name", "other.opt");
   if( ofn == 2 ) app->Options()->SetStringValue("option_file_name", "");
   if( ofn == 3 ) app->Options()->SetStringValue("option_file_name", "ipopt.opt");
   if( pre ) app->Options()->SetIntegerValue("max_iter", 11, pre == 2);
   ApplicationReturnStatus st;
   switch( way )
   {
      case 0: st = app->Initialize(clob != 0); break;
      case 1: st = app->Initialize("", clob != 0); break;
      case 2: st = app->Initialize("other.opt", clob != 0); break;
      case 3: st = app->Initialize(std::string("ipopt.opt"), clob != 0); break;
      default: { std::istringstream is(body2); st = app->Initialize(is, clob != 0); }
   }
   // which text is in force
   std::string eff;
   bool opt = (have & 1), oth = (have & 2);
   if( way == 0 ) { if( ofn == 1 ) eff = oth ? body2 : ""; else if( ofn != 2 ) eff = opt ? body : ""; }
   if( way == 2 ) eff = oth ? body2 : "";
   if( way == 3 ) eff = opt ? body : "";
   if( way == 4 ) eff = body2;
   ex.desc = fmt("way %d files %d option_file_name %d set before %d allow_clobber %d content %d", way, have, ofn, pre, clob, bad);
   bool fail = eff == body && bad;
   if( fail != (st != Solve_Succeeded) || (fail && st != Invalid_Option) ) ex.fail("init-status", fmt("Initialize returned %d", (int) st));
   unlink("ipopt.opt");
   unlink("other.opt");
   Index mi = -1;
   app->Options()->GetIntegerValue("max_iter", mi, "");
   int want = 3000;
   if( pre ) want = 11;
   if( !eff.empty() && pre != 1 ) want = eff == body ? 77 : 55;
   if( !eff.empty() && pre == 1 ) want = 11;      // protected
   double tol = -1;
   app->Options()->GetNumericValue("tol", tol, "");
   double wt = eff == body && !bad ? 0.125 : 1e-8;
   mc::Hash h; h.i(way); h.i(mi); h.d(tol); h.i(st); h.i(have); h.i(ofn); ex.outcome(h.h);
   if( mi != want ) ex.fail("init-value", fmt("max_iter is %d, must be %d", mi, want));
   if( tol != wt ) ex.fail("init-value", fmt("tol is %g, must be %g", tol, wt));
   // a later setting by program: refused iff the file's value was stored protected
   if( !eff.empty() && !fail && pre != 1 )
   {
      bool ok = app->Options()->SetIntegerValue("max_iter", 99);
      app->Options()->GetIntegerValue("max_iter", mi, "");
      if( mi != (clob ? 99 : want) ) ex.fail("clobber", fmt("set after reading (allow_clobber=%d): max_iter is %d (set returned %d)", clob, mi, ok));
   }
}
#endif

int main(int argc, char** argv)
{
   mc::Explorer ex;
   return ex.main(argc, argv, [](mc::Explorer& e)
   {
      if( e.mode == "seq" ) { depthMax = e.thorough ? 4 : 3; seqBody(e); }
      else if( e.mode == "value" ) valueBody(e);
#ifdef WITH_APP
      else if( e.mode == "all" ) allBody(e);
      else if( e.mode == "appfile" ) lineBody(e);
      else if( e.mode == "init" ) initBody(e);
#endif
      else if( e.mode == "long" ) longBody(e);
      else if( e.mode == "bytes" ) bytesBody(e);
      else if( e.mode == "file" ) { depthMax = e.thorough ? 6 : 5; fileBody(e); }
      else if( e.mode == "line" ) lineBody(e);
      else _exit(98);
   });
}
