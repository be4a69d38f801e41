// C24: smart pointers against a reference model; nothing stays allocated after a solve
#include <cstddef>
#include <cstdlib>
#include <cstring>
#include <errno.h>
#include <new>
extern "C" {
void* __libc_malloc(size_t);
void __libc_free(void*);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
}
static long g_live = 0, g_bytes = 0, g_failAt = -1, g_total = 0;
#ifdef MEM_COUNT
#include <malloc.h>
extern "C" {
static inline void* in(void* p) { if( p ) { ++g_live; g_bytes += (long) malloc_usable_size(p); } return p; }
void* malloc(size_t n) { return in(__libc_malloc(n)); }
void free(void* p) { if( p ) { --g_live; g_bytes -= (long) malloc_usable_size(p); } __libc_free(p); }
void* calloc(size_t a, size_t b) { return in(__libc_calloc(a, b)); }
void* realloc(void* p, size_t n)
{
   if( p ) { --g_live; g_bytes -= (long) malloc_usable_size(p); }
   void* q = __libc_realloc(p, n);
   if( q ) in(q);
   else if( p && n ) in(p);
   return q;
}
void* memalign(size_t a, size_t n) { return in(__libc_memalign(a, n)); }
void* aligned_alloc(size_t a, size_t n) { return in(__libc_memalign(a, n)); }
int posix_memalign(void** p, size_t a, size_t n) { *p = in(__libc_memalign(a, n)); return *p ? 0 : ENOMEM; }
}
void* operator new(size_t n)
{
   ++g_total;
   if( g_failAt >= 0 && g_failAt-- == 0 ) throw std::bad_alloc();
   void* p = malloc(n ? n : 1);
   if( !p ) throw std::bad_alloc();
   return p;
}
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
#endif
#include "mc.hpp"
#include "IpSmartPtr.hpp"
#ifdef MEM_SOLVE
#include "solvelib.hpp"
#endif

using namespace Ipopt;

// ---------------------------------------------------------------- smart pointers
struct Obj : public virtual ReferencedObject
{
   int id;
   SmartPtr<Obj> next;
   static std::vector<int>& dead() { static std::vector<int> d; return d; }
   explicit Obj(int i) : id(i) { if( (int) dead().size() <= i ) dead().resize(i + 1, 0); }
   ~Obj() override { ++dead()[id]; }
};
struct Mix { virtual ~Mix() {} double pad = 1; };
struct Side : public virtual ReferencedObject { double d = 7; };
struct Derived : public Mix, public Side, public Obj { explicit Derived(int i) : Obj(i) {} };

static SmartPtr<Obj> giveBack(SmartPtr<Obj> p) { SmartPtr<Obj> q = p; p = nullptr; return q; }
static SmartPtr<const Obj> asConst(const SmartPtr<Obj>& p) { return ConstPtr(p); }

struct Node { bool derived; int next = -1; bool dead = false; };

static void smart(mc::Explorer& ex)
{
   const int NP = ex.thorough ? 3 : 2;
   Obj::dead().clear();
   {
      SmartPtr<Obj> p[3];
      SmartPtr<const Obj> c;
      SmartPtr<Derived> d;
      SmartPtr<Side> s;
      std::vector<SmartPtr<Obj>> vec;
      // model
      std::vector<Node> N;
      int mp[3] = {-1, -1, -1}, mcn = -1, md = -1, ms = -1;
      std::vector<int> mv;
      int steps = ex.thorough ? 5 : 4;
      std::string tr;
      auto refs = [&](int k) {
         int r = 0;
         for( int i = 0; i < 3; ++i ) r += mp[i] == k;
         r += (mcn == k) + (md == k) + (ms == k);
         for( int v : mv ) r += v == k;
         for( auto& n : N ) if( !n.dead && n.next == k ) ++r;
         return r;
      };
      auto settle = [&]() {
         for( bool more = true; more; )
         {
            more = false;
            for( size_t k = 0; k < N.size(); ++k ) if( !N[k].dead && refs((int) k) == 0 ) { N[k].dead = true; N[k].next = -1; more = true; }
         }
      };
      auto check = [&]() {
         settle();
         for( size_t k = 0; k < N.size(); ++k )
            if( Obj::dead()[k] != (int) N[k].dead ) ex.fail("lifetime", mc::fmt("object %zu destroyed %d times, expected %d: %s", k, Obj::dead()[k], (int) N[k].dead, tr.c_str()));
         auto one = [&](const Obj* raw, int m, const char* n) {
            if( !raw != (m < 0) ) ex.fail("target", mc::fmt("%s is %sNULL: %s", n, raw ? "not " : "", tr.c_str()));
            if( raw && raw->id != m ) ex.fail("target", mc::fmt("%s points to object %d, expected %d: %s", n, raw->id, m, tr.c_str()));
            if( raw && raw->ReferenceCount() != refs(m) ) ex.fail("count", mc::fmt("object %d has reference count %d, expected %d: %s", m, (int) raw->ReferenceCount(), refs(m), tr.c_str()));
         };
         for( int i = 0; i < NP; ++i ) one(GetRawPtr(p[i]), mp[i], "pointer");
         one(GetRawPtr(c), mcn, "const pointer");
         one(GetRawPtr(d), md, "derived pointer");
         one(IsValid(s) ? dynamic_cast<Obj*>(GetRawPtr(s)) : nullptr, ms, "side pointer");
         for( size_t i = 0; i < mv.size(); ++i ) one(GetRawPtr(vec[i]), mv[i], "vector entry");
         for( int i = 0; i < NP; ++i )
         {
            if( IsValid(p[i]) == IsNull(p[i]) || IsNull(p[i]) != (mp[i] < 0) ) ex.fail("null", "IsValid/IsNull: " + tr);
            for( int j = 0; j < NP; ++j ) if( (p[i] == p[j]) != (mp[i] == mp[j]) || (p[i] != p[j]) == (mp[i] == mp[j]) || (p[i] == GetRawPtr(p[j])) != (mp[i] == mp[j]) || (GetRawPtr(p[i]) != p[j]) == (mp[i] == mp[j]) ) ex.fail("compare", "== of two pointers: " + tr);
            if( (p[i] == c) != (mp[i] == mcn) || (c != p[i]) == (mp[i] == mcn) ) ex.fail("compare", "== with const pointer: " + tr);
            if( (p[i] == d) != (mp[i] == md) || (d != p[i]) == (mp[i] == md) ) ex.fail("compare", "== with derived pointer: " + tr);
            if( mp[i] >= 0 || ms < 0 ) { if( ((const ReferencedObject*) GetRawPtr(p[i]) == (const ReferencedObject*) GetRawPtr(s)) != (mp[i] == ms) ) ex.fail("compare", "side: " + tr); }
            if( mp[i] >= 0 && ((*p[i]).id != mp[i] || p[i]->id != mp[i]) ) ex.fail("deref", tr);
         }
      };
      auto reach = [&](int from, int to) { for( int k = from; k >= 0; k = N[k].next ) if( k == to ) return true; return false; };
      for( int st = 0; st < steps; ++st )
      {
         if( st == 2 ) ex.shardPoint();
         int op = ex.choose(20);
         int i = ex.choose(NP);
         switch( op )
         {
            case 0: case 1:
               if( N.size() >= 3 ) throw mc::Skip();
               N.push_back(Node{op == 1});
               if( op == 0 ) p[i] = new Obj((int) N.size() - 1);
               else p[i] = new Derived((int) N.size() - 1);
               mp[i] = (int) N.size() - 1;
               tr += mc::fmt("p%d=new%d; ", i, mp[i]);
               break;
            case 2: { int j = ex.choose(NP); p[i] = p[j]; mp[i] = mp[j]; tr += mc::fmt("p%d=p%d; ", i, j); break; }
            case 3: { int j = ex.choose(NP); p[i] = GetRawPtr(p[j]); mp[i] = mp[j]; tr += mc::fmt("p%d=raw p%d; ", i, j); break; }
            case 4: if( mp[i] < 0 ) throw mc::Skip(); p[i] = nullptr; mp[i] = -1; tr += mc::fmt("p%d=NULL; ", i); break;
            case 5: if( mp[i] < 0 ) throw mc::Skip(); { int b = mp[i]; p[i] = p[i]->next; mp[i] = N[b].next; tr += mc::fmt("p%d=p%d->next; ", i, i); } break;
            case 6: if( mp[i] < 0 ) throw mc::Skip(); { int j = ex.choose(NP); if( reach(mp[j], mp[i]) ) throw mc::Skip(); p[i]->next = p[j]; N[mp[i]].next = mp[j]; tr += mc::fmt("p%d->next=p%d; ", i, j); } break;
            case 7: if( mp[i] < 0 || N[mp[i]].next < 0 ) throw mc::Skip(); p[i]->next = nullptr; N[mp[i]].next = -1; tr += mc::fmt("p%d->next=NULL; ", i); break;
            case 8: c = p[i]; mcn = mp[i]; tr += mc::fmt("c=p%d; ", i); break;
            case 9: d = dynamic_cast<Derived*>(GetRawPtr(p[i])); md = mp[i] >= 0 && N[mp[i]].derived ? mp[i] : -1; tr += mc::fmt("d=cast p%d; ", i); break;
            case 10: p[i] = d; mp[i] = md; tr += mc::fmt("p%d=d; ", i); break;
            case 11: if( i ) throw mc::Skip(); s = d; ms = md; tr += "s=d; "; break;
            case 12: p[i] = giveBack(p[i]); tr += mc::fmt("p%d=giveBack(p%d); ", i, i); break;
            case 13: { SmartPtr<Obj> q(p[i]), r(GetRawPtr(q)), z(q); SmartPtr<const Obj> k(r); q = nullptr; if( mp[i] >= 0 && p[i]->ReferenceCount() != refs(mp[i]) + 3 ) ex.fail("count", "with copies: " + tr); tr += mc::fmt("copies of p%d; ", i); break; }
            case 14: { int j = ex.choose(NP); std::swap(p[i], p[j]); std::swap(mp[i], mp[j]); tr += mc::fmt("swap p%d p%d; ", i, j); break; }
            case 15: if( mv.size() >= 3 ) throw mc::Skip(); vec.push_back(p[i]); mv.push_back(mp[i]); tr += mc::fmt("push p%d; ", i); break;
            case 16: if( i || mv.empty() ) throw mc::Skip(); vec.erase(vec.begin()); mv.erase(mv.begin()); tr += "erase; "; break;
            case 17: c = asConst(p[i]); mcn = mp[i]; tr += mc::fmt("c=ConstPtr p%d; ", i); break;
            case 18: if( i ) throw mc::Skip(); c = nullptr; d = nullptr; s = nullptr; mcn = md = ms = -1; tr += "c=d=s=NULL; "; break;
            case 19: { SmartPtr<Obj> t; SmartPtr<Obj>& al = p[i]; al = al; t = al; t = t; t = d; SmartPtr<Derived> dd(d); dd = d; (void) t; tr += mc::fmt("p%d=p%d self; ", i, i); break; }
         }
         ex.desc = tr;
         check();
      }
      mc::Hash h;
      for( int i = 0; i < 3; ++i ) h.i(mp[i]);
      h.i(mcn); h.i(md); h.i(ms);
      for( auto& n : N ) { h.i(n.next); h.i(n.dead); h.i(n.derived); }
      for( int v : mv ) h.i(v);
      ex.outcome(h.h);
   }
   for( int v : Obj::dead() ) if( v != 1 ) ex.fail("end", mc::fmt("object destroyed %d times after all pointers went away [%s]", v, ex.desc.c_str()));
}

#ifdef MEM_SOLVE
// ---------------------------------------------------------------- solves
static const std::vector<tn::Opts>& treatments()
{
   static std::vector<tn::Opts> T = {
      {}, {{"hessian_approximation", "limited-memory"}}, {{"start_with_resto", "yes"}}, {{"jacobian_approximation", "finite-difference-values"}, {"gradient_approximation", "finite-difference-values"}},
      {{"nlp_scaling_method", "user-scaling"}}, {{"derivative_test", "second-order"}}, {{"dependency_detector", "mumps"}}, {{"mu_strategy", "adaptive"}}, {{"fixed_variable_treatment", "make_constraint"}},
      {{"fixed_variable_treatment", "relax_bounds"}, {"dependency_detector", "mumps"}}, {{"warm_start_init_point", "yes"}}, {{"line_search_method", "cg-penalty"}}, {{"mehrotra_algorithm", "yes"}},
      {{"least_square_init_primal", "yes"}, {"least_square_init_duals", "yes"}}, {{"honor_original_bounds", "yes"}, {"bound_relax_factor", "1e-3"}}, {{"mu_strategy", "adaptive"}, {"mu_oracle", "probing"}},
      {{"fixed_variable_treatment", "make_parameter_nodual"}}, {{"warm_start_init_point", "yes"}, {"warm_start_entire_iterate", "yes"}}, {{"derivative_test", "only-second-order"}, {"derivative_test_print_all", "yes"}},
      {{"print_level", "12"}}, {{"hessian_approximation", "limited-memory"}, {"limited_memory_aug_solver", "extended"}}, {{"max_iter", "1"}}, {{"linear_solver", "ma27"}}, {{"linear_solver", "pardiso"}},
      {{"accept_every_trial_step", "yes"}}, {{"corrector_type", "affine"}, {"mu_strategy", "adaptive"}}, {{"nlp_lower_bound_inf", "1e19"}}, {{"mu_min", "1"}}, {{"hsllib", "/nonexistent/libhsl.so"}, {"linear_solver", "ma57"}},
      {{"output_file", "/nonexistent/dir/out"}, {"print_level", "3"}}, {{"option_file_name", "/nonexistent/opt"}}, {{"linear_system_scaling", "mc19"}}, {{"linear_system_scaling", "slack-based"}}, {{"nlp_scaling_method", "equilibration-based"}},
   };
   return T;
}
struct Plan { int cb, nth, kind, tamper, again; bool mumps, metadata; };

static bool onceSolve(mc::Explorer& ex, const sp::Problem& p, const tn::Opts& T, const Plan& f, int* calls, int* status)
{
   SmartPtr<tn::Spec> t = new tn::Spec(p);
   {
      SmartPtr<IpoptApplication> app = tn::makeApp(false);
      app->Options()->SetIntegerValue("max_iter", 60);
      bool ok = true;
      for( auto& kv : T ) ok = tn::setOpt(*app, kv.first, kv.second) && ok;
      for( auto& kv : T ) if( kv.first == "nlp_scaling_method" ) t->scaling = [](Number& o, bool& ux, Index n, Number* x, bool& ug, Index m, Number* g) { o = 2; ux = ug = true; for( int i = 0; i < n; ++i ) x[i] = 3; for( int i = 0; i < m; ++i ) g[i] = 5; return true; };
      for( auto& kv : T ) if( kv.second == "limited-memory" && p.n > 0 ) { t->wantNonlin = true; t->nonlinVars = {0}; }
      t->fault = [&](int cb, int nth, const double*) { return cb == f.cb && nth == f.nth ? f.kind : 0; };
      t->onFinal = [&](tn::Spec&) { if( f.cb == tn::C_FINAL ) tn::Spec::act(f.kind, nullptr, 0); };
      t->checkNewX = false;
      switch( f.tamper )
      {
         case 1: t->wantNonlin = true; t->nonlinVars = {p.n - 1}; break;
         case 2: t->tamperInfo = [](Index&, Index& m, Index&, Index&) { m = -1; }; break;
         case 3: t->tamperInfo = [](Index&, Index&, Index& nz, Index&) { nz = -1; }; break;
         case 4: t->tamperInfo = [](Index&, Index&, Index&, Index& nz) { nz = -1; }; break;
         case 5: t->tamperBounds = [&](double* l, double* u, double*, double*) { l[0] = 2; u[0] = 1; }; break;
         case 6: t->tamperBounds = [&](double*, double*, double* l, double* u) { if( p.m ) { l[0] = 2; u[0] = 1; } }; break;
         case 7: t->tamperBounds = [&](double* l, double*, double*, double*) { l[0] = std::nan(""); }; break;
         case 8: t->scaling = [](Number&, bool&, Index, Number*, bool&, Index, Number*) { return false; }; break;
         case 9: t->scaling = [](Number&, bool&, Index, Number*, bool&, Index, Number*) -> bool { throw std::runtime_error("scaling"); }; break;
         case 10: t->tamperInfo = [](Index& n, Index&, Index&, Index&) { n = -1; }; break;
         case 11: t->tamperBounds = [&](double* l, double* u, double*, double*) { for( int i = 0; i < p.n; ++i ) l[i] = u[i] = 0.3; }; break;
         case 12: t->onIter = [](tn::Spec&, const tn::Iter& it, const IpoptData*, IpoptCalculatedQuantities*) { return it.iter < 2; }; break;
         case 13: t->onIter = [](tn::Spec&, const tn::Iter& it, const IpoptData*, IpoptCalculatedQuantities*) -> bool { if( it.iter == 1 ) throw 42; return true; }; break;
         default: break;
      }
      if( ok )
      {
         auto opt = [&](bool again, SmartPtr<NLP>& nlp, dn::Hook& h) {
            try
            {
               if( f.mumps ) *status = again ? app->ReOptimizeTNLP(GetRawPtr(t)) : app->OptimizeTNLP(GetRawPtr(t));
               else if( again ) *status = app->ReOptimizeNLP(nlp);
               else
               {
                  *status = -1000;
                  nlp = new TNLPAdapter(GetRawPtr(t), ConstPtr(app->Jnlst()));
                  SmartPtr<AlgorithmBuilder> b = new dn::Builder(&h, false);
                  *status = -998;
                  *status = app->OptimizeNLP(nlp, b);
               }
            }
            catch( std::exception& ) { if( *status != -1000 ) *status = -900; }
            catch( IpoptException& ) { *status = -901; }
            catch( int ) { *status = -902; }
         };
         SmartPtr<NLP> nlp;
         dn::Hook h;
         *status = app->Initialize("");
         if( *status == Solve_Succeeded )
         {
            opt(false, nlp, h);
            if( f.again == 1 || f.again == 3 ) { t->reset(); opt(true, nlp, h); }
            if( f.again == 2 ) { t->reset(); t->fault = nullptr; opt(false, nlp, h); }
            if( f.again == 3 ) { t->reset(); t->fault = nullptr; t->tamperInfo = nullptr; t->tamperBounds = nullptr; t->canonical(); opt(false, nlp, h); }
         }
      }
   }
   memcpy(calls, t->cnt, sizeof t->cnt);
   // only this handle may be left
   if( t->ReferenceCount() != 1 ) { ex.fail("handle-kept", mc::fmt("after releasing the application (status %d) the problem still has %d references", *status, (int) t->ReferenceCount())); }
   return true;
}

static long measure(mc::Explorer& ex, const sp::Problem& p, const tn::Opts& T, const Plan& f, int* calls, int* status)
{
   long before = g_live;
   onceSolve(ex, p, T, f, calls, status);
   return g_live - before;
}

// every allocation of a solve fails once
static void oom(mc::Explorer& ex)
{
   fam::Shape s;
   s.family = 1;
   s.n = 2;
   s.m = ex.thorough ? ex.choose(3) : 1;
   static const int BB[][2] = {{fam::B_LU, fam::B_FREE}, {fam::B_FIX, fam::B_L}};
   int b = ex.thorough ? ex.choose(2) : 1;
   for( int i = 0; i < 2; ++i ) { s.b[i] = BB[b][i]; s.c[i] = i ? fam::K_RNG : fam::K_EQ; }
   sp::Problem p = fam::make(s);
   int ti = ex.choose(ex.thorough ? (int) treatments().size() : 3);
   int block = ex.choose(16);
   ex.shardPoint();
   Plan f{-1, 0, 0, 0, 0, false, false};
   int calls[tn::NCB], status = 0;
   static tn::Opts T;
   T = treatments()[ti];
   for( int i = 0; i < 2; ++i ) measure(ex, p, T, f, calls, &status);
   long t0 = g_total;
   measure(ex, p, T, f, calls, &status);
   long N = g_total - t0;
   std::map<int, int> st;
   for( long k = block; k < N; k += 16 )
   {
      ex.desc = mc::fmt("%s treatment %d: allocation %ld of %ld fails", fam::shapeStr(s).c_str(), ti, k, N);
      long before = g_live;
      bool thrown = false;
      std::string keep = ex.desc;
      g_failAt = k;
      status = -1000;
      if( getenv("MEM_DESC") ) fprintf(stderr, "%s\n", ex.desc.c_str());
      try { onceSolve(ex, p, T, f, calls, &status); } catch( std::bad_alloc& ) { thrown = true; } catch( IpoptException& ) { thrown = true; }
      g_failAt = -1;
      ++st[status];
      ex.count("failed allocations");
      // setting up the application throws, everything later is reported as a status
      if( status != Insufficient_Memory && status != -1000 && status != Solve_Succeeded ) ex.fail("oom-status", mc::fmt("status %d after a failed allocation", status));
      if( thrown && status != -1000 ) ex.fail("oom-thrown", mc::fmt("exception after a failed allocation, status %d", status));
      if( g_live != before && getenv("MEM_OOM") ) ex.report("oom-leak", mc::fmt("%ld blocks leaked, status %d%s", g_live - before, status, thrown ? " thrown" : ""));
   }
   std::string o;
   for( auto& e : st ) { o += mc::fmt("%d:%d ", e.first, e.second); mc::Hash h; h.i(e.first); h.i(ti); ex.outcome(h.h); }
   if( ex.verbose || getenv("MEM_DESC") ) fprintf(stderr, "statuses %s\n", o.c_str());
}

static void solves(mc::Explorer& ex)
{
   sp::Problem p;
   std::string what;
   if( ex.mode == "special" )
   {
      int k = ex.choose(fam::NSPECIAL);
      p = fam::special(k);
      what = mc::fmt("special%d", k);
   }
   else
   {
      fam::Shape s;
      s.family = ex.of({1, 2});
      s.n = 2;
      s.m = ex.choose(3);
      static const int BB[][2] = {{fam::B_LU, fam::B_FREE}, {fam::B_FIX, fam::B_L}};
      static const int CC[][2] = {{fam::K_EQ, fam::K_GE}, {fam::K_RNG, fam::K_EQ}};
      int b = ex.choose(2), c = s.m ? ex.choose(2) : 0;
      for( int i = 0; i < 2; ++i ) { s.b[i] = BB[b][i]; s.c[i] = CC[c][i]; }
      p = fam::make(s);
      what = fam::shapeStr(s);
   }
   static tn::Opts T;
   int nt = (int) treatments().size();
   int ti = ex.thorough ? ex.choose(nt) : ex.mode == "special" ? ex.choose(6) : ex.mode == "mumps" ? ex.choose(5) : ex.choose(nt);
   T = treatments()[ti];
   for( auto& kv : T ) what += " " + kv.first + "=" + kv.second;
   ex.shardPoint();
   Plan f{-1, 0, 0, 0, 0, false, false};
   f.mumps = ex.mode == "mumps";
   static const int CBS[] = {-1, tn::C_INFO, tn::C_BOUNDS, tn::C_SCALING, tn::C_START, tn::C_JSTRUCT, tn::C_HSTRUCT, tn::C_F, tn::C_GRAD, tn::C_G, tn::C_JAC, tn::C_HESS, tn::C_ITER, tn::C_FINAL, tn::C_WARM};
   int calls[tn::NCB], status = 0;
   static std::string refFor;
   static int N[tn::NCB];
   if( refFor != what + ex.mode )
   {
      for( int i = 0; i < 2; ++i ) measure(ex, p, T, f, N, &status);
      refFor = what + ex.mode;
   }
   int ci = ex.choose(15);
   f.cb = CBS[ci];
   if( f.cb >= 0 )
   {
      int n = N[f.cb];
      if( f.cb == tn::C_SCALING || f.cb == tn::C_WARM || n == 0 ) throw mc::Skip();
      int M = std::min(n, ex.thorough ? 25 : 3);
      f.nth = ex.choose(M + 1);
      if( f.nth == M ) { if( n == M ) throw mc::Skip(); f.nth = n - 1; }
      f.kind = ex.of({1, 2, 4, 5, 7});
      if( !ex.thorough && f.nth && f.kind != 1 && f.kind != 4 ) throw mc::Skip();
      if( f.cb == tn::C_FINAL && (f.kind == 1 || f.kind == 2) ) throw mc::Skip();
      if( f.kind == 2 && (f.cb < tn::C_F || f.cb > tn::C_HESS) ) throw mc::Skip();
      if( f.kind == 2 && f.mumps && (f.cb == tn::C_JAC || f.cb == tn::C_HESS) ) throw mc::Skip();   // MUMPS itself may crash on NaN in a matrix
   }
   else f.tamper = ex.choose(14);
   f.again = ex.thorough || (f.nth == 0 && (f.kind == 1 || f.kind == 4 || f.kind == 0)) ? ex.choose(4) : 0;
   static const char* KN[] = {"", "fails", "NaN", "", "throws std", "throws IpoptException", "", "throws int"};
   ex.desc = mc::fmt("%s: %s %s at call %d, tampering %d, repeated %d%s", what.c_str(), f.cb >= 0 ? tn::cbname(f.cb) : "no callback", KN[f.kind], f.nth, f.tamper, f.again, f.mumps ? " (MUMPS)" : "");
   if( getenv("MEM_DESC") ) fprintf(stderr, "%s\n", ex.desc.c_str());
   long d = measure(ex, p, T, f, calls, &status);
   ex.count("solves");
   if( d != 0 )
   {
      // anything set up once per process is there now
      long d2 = measure(ex, p, T, f, calls, &status);
      if( d2 != 0 ) ex.fail(mc::fmt("leak-%s-%d", f.cb >= 0 ? tn::cbname(f.cb) : "tamper", f.cb >= 0 ? f.kind : f.tamper), mc::fmt("%ld blocks stay allocated after all handles were released (status %d)", d2, status));
   }
   mc::Hash h;
   h.i(status); h.i(f.cb); h.i(f.kind); h.i(f.tamper); h.i(f.again); h.i(ti);
   for( int i = 0; i < tn::NCB; ++i ) h.i(calls[i]);
   ex.outcome(h.h);
}
#endif

int main(int argc, char** argv)
{
   setvbuf(stdout, nullptr, _IOLBF, 4096);
   mc::Explorer ex;
   return ex.main(argc, argv, [](mc::Explorer& e) {
#ifdef MEM_SOLVE
      if( e.mode == "oom" ) return oom(e);
      if( e.mode != "smart" ) return solves(e);
#endif
      smart(e);
   });
}
