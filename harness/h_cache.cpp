// C23: caches and observers, every operation sequence against a reference model
#include "mc.hpp"
#include "IpCachedResults.hpp"
#include "IpObserver.hpp"
#include "IpTaggedObject.hpp"
using namespace Ipopt;
using mc::fmt;

struct Obj: public TaggedObject
{
   void change() { ObjectChanged(); }
};
static long g_live;
struct Res
{
   int id;
   Res() : id(-1) { ++g_live; }
   explicit Res(int i) : id(i) { ++g_live; }
   Res(const Res& o) : id(o.id) { ++g_live; }
   Res& operator=(const Res& o) { id = o.id; return *this; }
   ~Res() { --g_live; }
};

/** a key: objects (slot index, -1: none) and scalars */
struct Key { std::vector<int> o; std::vector<Number> s; const char* name; };
static const std::vector<Key>& keys()
{
   static const std::vector<Key> k = {
      {{0}, {}, "A"}, {{1}, {}, "B"}, {{0, 1}, {}, "A,B"}, {{1, 0}, {}, "B,A"}, {{0, 0}, {}, "A,A"}, {{-1}, {}, "none"}, {{0, -1}, {}, "A,none"},
      {{0}, {1.}, "A;1"}, {{0}, {2.}, "A;2"}, {{}, {1.}, ";1"}, {{0, -1, 1}, {}, "A,none,B"}};
   return k;
}

struct Entry { std::vector<long> state; std::vector<Number> s; int id; };

struct CacheWorld
{
   Obj* obj[2];
   long state[2];
   long next = 1;
   std::list<Entry> ref;
   int max;
   CachedResults<Res>* c;
   int id = 0;

   std::vector<long> stateOf(const Key& k) const { std::vector<long> r; for( int o : k.o ) r.push_back(o < 0 ? -1 : state[o]); return r; }
   std::vector<const TaggedObject*> deps(const Key& k) const { std::vector<const TaggedObject*> r; for( int o : k.o ) r.push_back(o < 0 ? nullptr : obj[o]); return r; }
   void dropStale()
   {
      for( auto it = ref.begin(); it != ref.end(); )
      {
         bool ok = true;
         for( long s : it->state ) ok = ok && (s == -1 || s == state[0] || s == state[1]);
         if( ok ) ++it; else it = ref.erase(it);
      }
   }
   std::list<Entry>::iterator find(const Key& k)
   {
      auto st = stateOf(k);
      for( auto it = ref.begin(); it != ref.end(); ++it ) if( it->state == st && it->s == k.s ) return it;
      return ref.end();
   }
};

static void query(mc::Explorer& ex, CacheWorld& w, int ki, int form, const std::string& hist)
{
   const Key& k = keys()[ki];
   auto d = w.deps(k);
   Res r;
   bool got;
   if( form && k.s.empty() && k.o.size() >= 1 )
   {
      if( k.o.size() == 1 ) got = d[0] ? w.c->GetCachedResult1Dep(r, *d[0]) : w.c->GetCachedResult1Dep(r, d[0]);
      else if( k.o.size() == 2 ) got = d[1] ? w.c->GetCachedResult2Dep(r, *d[0], *d[1]) : w.c->GetCachedResult2Dep(r, d[0], d[1]);
      else got = w.c->GetCachedResult3Dep(r, d[0], d[1], d[2]);
   }
   else if( k.s.empty() ) got = w.c->GetCachedResult(r, d);
   else got = w.c->GetCachedResult(r, d, k.s);
   w.dropStale();
   auto it = w.find(k);
   bool want = it != w.ref.end();
   if( got != want ) ex.fail(got ? "stale" : "lost", hist + ": query (" + k.name + fmt(") %s a result%s", got ? "returned" : "did not return", got ? fmt(" (%d)", r.id).c_str() : ""));
   if( got && r.id != it->id ) ex.fail("wrong", hist + ": query (" + k.name + fmt(") returned %d, should be %d", r.id, it->id));
   if( !got && r.id != -1 ) ex.fail("wrong", hist + ": query (" + k.name + ") changed its argument without a result");
}

static void cacheMode(mc::Explorer& ex)
{
   CacheWorld w;
   w.max = ex.of({1, 0, 2, 3, -1});
   const bool rich = ex.mode == "cachekeys";
   const int always = ex.choose(2), form = ex.choose(2);
   int nk = rich ? (int) keys().size() : 6;
   for( int i = 0; i < 2; ++i ) { w.obj[i] = new Obj; w.state[i] = w.next++; }
   w.c = new CachedResults<Res>(w.max);
   std::string hist = fmt("capacity %d", w.max);
   const int depth = rich ? (ex.thorough ? 4 : 3) : ex.thorough ? 5 : 4;
   // operations: add key, change o, destroy/recreate o, invalidate key, clear, clear(n)
   const int nInv = rich ? 3 : 2;
   for( int step = 0; step < depth; ++step )
   {
      int op = ex.choose(nk + 4 + nInv + 3 + 1);
      if( step == 1 ) ex.shardPoint();
      if( op == nk + 4 + nInv + 3 ) break;
      if( op < nk )
      {
         const Key& k = keys()[op];
         auto d = w.deps(k);
         int id = ++w.id;
         hist += fmt("; store %d for (%s)", id, k.name);
         if( form && k.s.empty() && k.o.size() >= 1 )
         {
            if( k.o.size() == 1 ) d[0] ? w.c->AddCachedResult1Dep(Res(id), *d[0]) : w.c->AddCachedResult1Dep(Res(id), d[0]);
            else if( k.o.size() == 2 ) d[1] ? w.c->AddCachedResult2Dep(Res(id), *d[0], *d[1]) : w.c->AddCachedResult2Dep(Res(id), d[0], d[1]);
            else w.c->AddCachedResult3Dep(Res(id), d[0], d[1], d[2]);
         }
         else if( k.s.empty() ) w.c->AddCachedResult(Res(id), d);
         else w.c->AddCachedResult(Res(id), d, k.s);
         w.dropStale();
         w.ref.push_front({w.stateOf(k), k.s, id});
         if( w.max >= 0 && (int) w.ref.size() > w.max ) w.ref.pop_back();
      }
      else if( op < nk + 2 )
      {
         int o = op - nk;
         hist += fmt("; change %c", 'A' + o);
         auto t = w.obj[o]->GetTag();
         w.obj[o]->change();
         w.state[o] = w.next++;
         if( !w.obj[o]->HasChanged(t) ) ex.fail("tag", hist + ": tag did not change");
      }
      else if( op < nk + 4 )
      {
         int o = op - nk - 2;
         hist += fmt("; destroy and create %c", 'A' + o);
         delete w.obj[o];
         w.obj[o] = new Obj;
         w.state[o] = w.next++;
      }
      else if( op < nk + 4 + nInv )
      {
         int ki = op - nk - 4;
         ki = ki == 0 ? 0 : ki == 1 ? 2 : 7;
         const Key& k = keys()[ki];
         hist += fmt("; invalidate (%s)", k.name);
         bool got = w.c->InvalidateResult(w.deps(k), k.s);
         w.dropStale();
         auto it = w.find(k);
         if( got != (it != w.ref.end()) ) ex.fail("invalidate", hist + fmt(" returned %d", got));
         if( it != w.ref.end() ) w.ref.erase(it);
      }
      else if( op == nk + 4 + nInv )
      {
         hist += "; clear";
         w.c->Clear();
         w.ref.clear();
      }
      else
      {
         int m = op == nk + 4 + nInv + 1 ? 1 : 3;
         hist += fmt("; clear(%d)", m);
         w.c->Clear(m);
         w.max = m;
         w.ref.clear();
      }
      if( ex.verbose ) printf("%s\n", hist.c_str());
      ex.count("transitions");
      if( always ) for( int k = 0; k < nk; ++k ) query(ex, w, k, form, hist);
   }
   for( int k = nk - 1; k >= 0; --k ) query(ex, w, k, form, hist);
   w.dropStale();
   mc::Hash h;
   h.i(w.max);
   std::map<long, int> ren;
   for( auto& e : w.ref ) { for( long s : e.state ) h.i(s == -1 ? -1 : s == w.state[0] ? 0 : 1); for( double s : e.s ) h.d(s); h.i(99); }
   ex.outcome(h.h);
   switch( ex.choose(2) )
   {
      case 0: delete w.c; delete w.obj[0]; delete w.obj[1]; break;
      case 1: delete w.obj[0]; delete w.obj[1]; { Res r; if( w.c->GetCachedResult(r, std::vector<const TaggedObject*>(1, nullptr)) != (nk > 5 && w.find(keys()[5]) != w.ref.end()) ) ex.fail("stale", hist + ": query after destruction of all objects"); } delete w.c; break;
   }
   if( g_live != 0 ) ex.fail("leak", hist + fmt(": %ld results are still alive after the cache is gone", g_live));
}

struct Subj: public Subject { void say(Observer::NotifyType t) { Notify(t); } };
struct Note { const Subject* s; int t; };
struct Obs: public Observer
{
   std::vector<Note> log;
   void attach(const Subject* s) { RequestAttach(NT_All, s); }
   void detach(const Subject* s) { RequestDetach(NT_All, s); }
   void ReceiveNotification(NotifyType t, const Subject* s) { log.push_back({s, (int) t}); }
};
static void observerMode(mc::Explorer& ex)
{
   const int NS = 2, NO = ex.thorough ? 3 : 2;
   Subj* s[2];
   Obs* o[3];
   bool att[3][2] = {};
   for( int i = 0; i < NS; ++i ) s[i] = new Subj;
   for( int i = 0; i < NO; ++i ) o[i] = new Obs;
   std::string hist;
   // after each operation the log of every observer must be exactly what is expected
   auto expect = [&](int subj, const Subject* sp, int type)
   {
      for( int i = 0; i < NO; ++i )
      {
         size_t want = subj >= 0 && att[i][subj];
         if( o[i]->log.size() != want ) ex.fail("notify", hist + fmt(": observer %d got %zu notifications, should be %zu", i, o[i]->log.size(), want));
         if( want && (o[i]->log[0].s != sp || o[i]->log[0].t != type) ) ex.fail("notify", hist + ": wrong notification");
         o[i]->log.clear();
      }
   };
   const int depth = ex.thorough ? 6 : 5;
   for( int step = 0; step < depth; ++step )
   {
      int op = ex.choose(2 * NO * NS + 2 * NS + NO + 1);
      if( step == 2 ) ex.shardPoint();
      if( op == 2 * NO * NS + 2 * NS + NO ) break;
      ex.count("transitions");
      if( op < NO * NS )
      {
         int i = op / NS, j = op % NS;
         if( att[i][j] ) throw mc::Prune();
         hist += fmt("; observer %d attaches to %d", i, j);
         o[i]->attach(s[j]);
         att[i][j] = true;
         expect(-1, nullptr, 0);
      }
      else if( op < 2 * NO * NS )
      {
         int i = (op - NO * NS) / NS, j = op % NS;
         hist += fmt("; observer %d detaches from %d", i, j);
         o[i]->detach(s[j]);
         att[i][j] = false;
         expect(-1, nullptr, 0);
      }
      else if( op < 2 * NO * NS + NS )
      {
         int j = op - 2 * NO * NS;
         hist += fmt("; %d changes", j);
         s[j]->say(Observer::NT_Changed);
         expect(j, s[j], Observer::NT_Changed);
      }
      else if( op < 2 * NO * NS + 2 * NS )
      {
         int j = op - 2 * NO * NS - NS;
         hist += fmt("; %d is destroyed", j);
         const Subject* p = s[j];
         delete s[j];
         expect(j, p, Observer::NT_BeingDestroyed);
         for( int i = 0; i < NO; ++i ) att[i][j] = false;
         s[j] = new Subj;
      }
      else
      {
         int i = op - 2 * NO * NS - 2 * NS;
         hist += fmt("; observer %d is destroyed", i);
         delete o[i];
         o[i] = new Obs;
         for( int j = 0; j < NS; ++j ) att[i][j] = false;
         expect(-1, nullptr, 0);
      }
   }
   // everybody is heard, then everything goes away in both orders
   for( int j = 0; j < NS; ++j ) { hist += fmt("; %d changes", j); s[j]->say(Observer::NT_Changed); expect(j, s[j], Observer::NT_Changed); }
   mc::Hash h;
   for( int i = 0; i < NO; ++i ) for( int j = 0; j < NS; ++j ) h.i(att[i][j]);
   ex.outcome(h.h);
   if( ex.choose(2) ) { for( int i = 0; i < NO; ++i ) delete o[i]; for( int j = 0; j < NS; ++j ) delete s[j]; }
   else { for( int j = 0; j < NS; ++j ) delete s[j]; for( int i = 0; i < NO; ++i ) delete o[i]; }
}
int main(int argc, char** argv)
{
   mc::Explorer ex;
   return ex.main(argc, argv, [](mc::Explorer& e) { g_live = 0; if( e.mode == "observer" ) observerMode(e); else cacheMode(e); });
}
