// C10: the outcome of a solve does not depend on the history
#include "solvelib.hpp"
#include <sys/wait.h>

struct Outcome
{
   int st = -999;
   V data;             // final report, iterates, evaluation points: everything, in order
   std::string err;
   bool operator==(const Outcome& o) const { return st == o.st && bitEq(data, o.data); }
};
struct OptState { std::vector<int> on; };
static const std::vector<tn::Opts>& optSets()
{
   static std::vector<tn::Opts> O = {
      {{"mu_strategy", "adaptive"}}, {{"hessian_approximation", "limited-memory"}}, {{"nlp_scaling_method", "none"}}, {{"fixed_variable_treatment", "make_constraint"}}, {{"max_iter", "2"}},
      {{"derivative_test", "first-order"}}, {{"warm_start_init_point", "yes"}}, {{"start_with_resto", "yes"}}, {{"mehrotra_algorithm", "yes"}}, {{"line_search_method", "cg-penalty"}},
      {{"jacobian_approximation", "finite-difference-values"}}, {{"honor_original_bounds", "yes"}, {"bound_relax_factor", "1e-4"}}, {{"tol", "1e-3"}}, {{"expect_infeasible_problem", "yes"}}, {{"dependency_detector", "mumps"}}, {{"jac_c_constant", "yes"}},
      {{"mehrotra_algorithm", "yes"}, {"mu_strategy", "monotone"}}, {{"fixed_variable_treatment", "relax_bounds"}}, {{"replace_bounds", "yes"}}, {{"accept_after_max_steps", "1"}}, {{"corrector_type", "affine"}}, {{"alpha_for_y", "full"}}, {{"watchdog_shortened_iter_trigger", "1"}}, {{"hessian_approximation", "limited-memory"}, {"limited_memory_update_type", "sr1"}}, {{"mu_oracle", "probing"}, {"mu_strategy", "adaptive"}}, {{"recalc_y", "yes"}}
   };
   return O;
}
static const int NP = 7;
static sp::Problem prob(int k)
{
   switch( k )
   {
      case 0: { fam::Shape s = {1, 2, 1, {fam::B_LU, fam::B_L}, {fam::K_GE}}; return fam::make(s); }
      case 1: return fam::special(1);
      case 2: return fam::special(0);
      case 3: return fam::special(6);
      case 4: { fam::Shape s = {1, 3, 2, {fam::B_FIX, fam::B_L, fam::B_FREE}, {fam::K_RNG, fam::K_EQ}}; return fam::make(s); }
      case 5: { sp::Problem p = fam::special(1); p.xl = {-sp::INF, 0.1, 0.1}; p.g[1].t[2].c = -1.5; return p; }   // same structure as 1, other data
      case 6: return fam::special(8);
   }
   return sp::Problem();
}
/** same structure, other data */
static sp::Problem vary(sp::Problem p, int v)
{
   if( !v ) return p;
   for( int i = 0; i < p.n; ++i )
   {
      p.x0[i] += 0.1 * v;
      bool fx = p.xl[i] == p.xu[i];
      if( p.xl[i] > -1e19 ) p.xl[i] += 0.02 * v;
      if( p.xu[i] < 1e19 ) p.xu[i] = fx ? p.xl[i] : p.xu[i] + 0.03 * v;
   }
   for( auto& t : p.f.t ) t.c *= 1 + 0.1 * v;
   for( int j = 0; j < p.m; ++j )
   {
      bool eq = p.gl[j] == p.gu[j];
      if( p.gl[j] > -1e19 ) p.gl[j] -= 0.01 * v;
      if( p.gu[j] < 1e19 ) p.gu[j] = eq ? p.gl[j] : p.gu[j] + 0.01 * v;
   }
   return p;
}
/** how the user behaves */
enum Behave { BH_OK, BH_STOP, BH_NAN, BH_THROW, BH_NOINFO, BH_NOSTART, BH_NOJAC, NBH };

struct World
{
   bool mumps;
   dn::Hook hook;
   dn::Run run;
   SmartPtr<tn::Spec> t;
   sp::Problem p;
   int k = -1, v = 0;
   std::vector<V*> trash;
   std::set<int> on, onAtSolve;
   tn::Opts base;
   explicit World(bool m) : mumps(m) { fresh(); }
   void fresh()
   {
      run = dn::Run();
      run.app = tn::makeApp();
      run.hook = &hook;
      run.mumps = mumps;
      on.clear();
      t = nullptr;
      tn::setOpt(*run.app, "max_iter", "40");
      run.app->Initialize("");
   }
   void toggle(int o)
   {
      // two sets naming the same option would have an order of their own
      if( !on.count(o) ) for( int k : on ) for( auto& a : optSets()[k] ) for( auto& b : optSets()[o] ) if( a.first == b.first ) throw mc::Skip();
      if( on.count(o) )
      {
         on.erase(o);
         for( auto& kv : optSets()[o] ) if( kv.first != "max_iter" ) run.app->Options()->UnsetValue(kv.first); else tn::setOpt(*run.app, "max_iter", "40");
         if( optSets()[o][0].first == "replace_bounds" ) run.app->Initialize("");   // takes effect there only
      }
      else
      {
         on.insert(o);
         for( auto& kv : optSets()[o] ) tn::setOpt(*run.app, kv.first, kv.second);
         if( optSets()[o][0].first == "replace_bounds" ) run.app->Initialize("");
      }
   }
   Outcome record(ApplicationReturnStatus st, const V& evals)
   {
      Outcome o;
      o.st = st;
      const tn::Result& r = t->res;
      o.data.push_back(r.finals);
      o.data.push_back(r.status);
      for( const V* w : {&r.x, &r.zl, &r.zu, &r.g, &r.lam} ) { o.data.push_back((double) w->size()); o.data.insert(o.data.end(), w->begin(), w->end()); }
      o.data.push_back(r.f);
      for( auto& it : t->iters ) for( double d : {(double) it.mode, (double) it.iter, it.obj, it.inf_pr, it.inf_du, it.mu, it.dnorm, it.reg, it.adu, it.apr, (double) it.ls} ) o.data.push_back(d);
      o.data.push_back(-4711);
      o.data.insert(o.data.end(), evals.begin(), evals.end());
      // statistics of this solve
      SmartPtr<SolveStatistics> s = run.app->Statistics();
      o.data.push_back(IsValid(s));
      if( IsValid(s) )
      {
         Number a, b, c, d, e;
         s->Infeasibilities(a, b, e, c, d);
         Index i1, i2, i3, i4, i5, i6;
         i6 = 0; s->NumberOfEvaluations(i1, i2, i3, i4, i5);
         for( double q : {(double) s->IterationCount(), (double) s->FinalObjective(), (double) s->FinalScaledObjective(), (double) a, (double) b, (double) c, (double) d, (double) e, (double) i1, (double) i2, (double) i3, (double) i4, (double) i5, (double) i6} ) o.data.push_back(q);
      }
      for( double& d : o.data ) if( std::isnan(d) ) d = -7.77e77;
      o.err = t->err;
      return o;
   }
   Outcome solve(int k_, int v_, int behave, bool again)
   {
      if( !again ) { k = k_; onAtSolve = on; }
      v = v_;
      sp::Problem q = vary(prob(k), v);
      if( again ) p = q;       // the TNLP object stays the same and shows new data
      else
      {
         t = nullptr;
         p = q;
         t = new tn::Spec(p);
      }
      t->reset();
      p.zl0.assign(p.n, 0.7); p.zu0.assign(p.n, 0.9); p.lam0.assign(p.m, -0.4);
      V evals;
      t->onEval = [&](int cb, const double* x, bool nx) { evals.push_back(cb * 2 + nx); evals.insert(evals.end(), x, x + p.n); };
      t->fault = nullptr;
      t->onIter = nullptr;
      switch( behave )
      {
         case BH_STOP: t->onIter = [](tn::Spec&, const tn::Iter& it, const IpoptData*, IpoptCalculatedQuantities*) { return it.iter < 1; }; break;
         case BH_NAN: t->fault = [](int cb, int nth, const double*) { return cb == tn::C_GRAD && nth == 1 ? 2 : 0; }; break;
         case BH_THROW: t->fault = [](int cb, int nth, const double*) { return cb == tn::C_F && nth == 2 ? 4 : 0; }; break;
         case BH_NOINFO: t->fault = [](int cb, int, const double*) { return cb == tn::C_INFO ? 1 : 0; }; break;
         case BH_NOSTART: t->fault = [](int cb, int, const double*) { return cb == tn::C_START ? 1 : 0; }; break;
         case BH_NOJAC: t->fault = [](int cb, int, const double*) { return cb == tn::C_JSTRUCT ? 1 : 0; }; break;
      }
      ApplicationReturnStatus st;
      try { st = again ? run.resolve(GetRawPtr(t)) : run.solve(GetRawPtr(t)); }
      catch( IpoptException& ) { st = (ApplicationReturnStatus) -900; }
      catch( std::exception& ) { st = (ApplicationReturnStatus) -901; }
      Outcome o = record(st, evals);
      t->onEval = nullptr;
      return o;
   }
   /** re-optimization documentedly uses the same algorithmic objects, so it is only defined for unchanged options */
   bool canAgain() const { return IsValid(t) && on == onAtSolve; }
};

typedef std::vector<int> Key;
static std::map<Key, Outcome> refs;

/** outcome of the only solve in a fresh process (a child that never solved anything before) */
static const Outcome& reference(bool mumps, const std::set<int>& on, int k, int v, int behave)
{
   Key key = {mumps, k, v, behave};
   key.insert(key.end(), on.begin(), on.end());
   auto f = refs.find(key);
   if( f != refs.end() ) return f->second;
   static int req[2] = {-1, -1}, ans[2];
   static pid_t parent = 0;
   (void) parent;
   // ask the pristine server process, which forks a child for each question
   extern int gReq, gAns;
   (void) req; (void) ans;
   int n = (int) key.size();
   auto wr = [&](const void* b, size_t l) { const char* c = (const char*) b; while( l ) { ssize_t w = write(gReq, c, l); if( w <= 0 ) _exit(97); c += w; l -= w; } };
   auto rd = [&](void* b, size_t l) { char* c = (char*) b; while( l ) { ssize_t w = read(gAns, c, l); if( w <= 0 ) { fprintf(stderr, "reference process failed\n"); _exit(97); } c += w; l -= w; } };
   wr(&n, sizeof n);
   wr(key.data(), n * sizeof(int));
   Outcome o;
   int cnt;
   rd(&o.st, sizeof o.st);
   rd(&cnt, sizeof cnt);
   o.data.resize(cnt);
   rd(o.data.data(), cnt * sizeof(double));
   return refs[key] = o;
}
int gReq, gAns;

static void server(int in, int out)
{
   for( ;; )
   {
      int n;
      if( read(in, &n, sizeof n) != sizeof n ) _exit(0);
      Key key(n);
      if( read(in, key.data(), n * sizeof(int)) != (ssize_t) (n * sizeof(int)) ) _exit(0);
      pid_t c = fork();
      if( !c )
      {
         World w(key[0]);
         for( int i = 4; i < n; ++i ) w.toggle(key[i]);
         Outcome o = w.solve(key[1], key[2], key[3], false);
         int cnt = (int) o.data.size();
         std::string b;
         b.append((char*) &o.st, sizeof o.st);
         b.append((char*) &cnt, sizeof cnt);
         b.append((char*) o.data.data(), cnt * sizeof(double));
         size_t l = b.size();
         const char* q = b.data();
         while( l ) { ssize_t x = write(out, q, l); if( x <= 0 ) _exit(1); q += x; l -= x; }
         _exit(0);
      }
      int st;
      waitpid(c, &st, 0);
      if( st ) { int a[2] = {-5555, 0}; if( write(out, a, sizeof a) < 0 ) _exit(1); }
   }
}

static std::string diff(const Outcome& a, const Outcome& b)
{
   if( a.st != b.st ) return fmt("status %d, alone %d", a.st, b.st);
   if( a.data.size() != b.data.size() ) return fmt("record has %zu numbers, alone %zu", a.data.size(), b.data.size());
   for( size_t i = 0; i < a.data.size(); ++i ) if( memcmp(&a.data[i], &b.data[i], sizeof(double)) ) return fmt("number %zu of the record is %.17g, alone %.17g", i, a.data[i], b.data[i]);
   return "";
}

static void body(mc::Explorer& ex)
{
   bool mumps = ex.mode == "mumps";
   int len = ex.thorough ? (mumps ? 3 : 4) : (mumps ? 2 : 3);
   if( ex.mode == "long" ) len = ex.thorough ? 12 : 8;
   World A(mumps), B(mumps);
   std::string what;
   int nopt = (int) optSets().size();
   // operations: 0..6 solve problem k; 7..12 misbehaving user; 13..15 re-optimize (same data, two variants); 16 other application; 17 new application;
   // 18 Initialize again; 19.. toggle option
   const int NOP = 19 + nopt;
   mc::Hash h;
   int solves = 0;
   int same = ex.mode == "long" ? ex.choose(NOP) : 0, same2 = ex.mode == "long" ? ex.choose(NOP) : 0;
   for( int i = 0; i < len; ++i )
   {
      bool last = i + 1 == len;
      int op = ex.mode == "long" ? (last ? 3 : (i % 2 ? same2 : same)) : ex.choose(last ? 16 : NOP);
      if( i == 0 && ex.mode == "long" ) ex.shardPoint();
      if( i == 1 && ex.mode != "long" ) ex.shardPoint();
      Outcome o;
      const Outcome* ref = nullptr;
      std::string name;
      World* W = &A;
      if( op <= 6 ) { name = fmt("solve P%d", op); o = A.solve(op, 0, BH_OK, false); ref = &reference(mumps, A.on, op, 0, BH_OK); }
      else if( op <= 12 ) { int b = op - 6; name = fmt("solve P%d with behaviour %d", op % 2 ? 0 : 3, b); o = A.solve(op % 2 ? 0 : 3, 0, b, false); ref = &reference(mumps, A.on, op % 2 ? 0 : 3, 0, b); }
      else if( op <= 15 )
      {
         if( !A.canAgain() ) throw mc::Skip();
         int v = op - 13;
         name = fmt("re-optimize P%d variant %d", A.k, v);
         o = A.solve(-1, v, BH_OK, true);
         ref = &reference(mumps, A.on, A.k, v, BH_OK);
      }
      else if( op == 16 ) { name = "other application solves P1"; o = B.solve(1, 0, BH_OK, false); ref = &reference(mumps, B.on, 1, 0, BH_OK); W = &B; }
      else if( op == 17 ) { name = "new application"; A.fresh(); }
      else if( op == 18 ) { name = "Initialize"; A.run.app->Initialize(""); }
      else
      {
         for( auto& kv : optSets()[op - 19] ) name += "toggle " + kv.first + "=" + kv.second;
         A.toggle(op - 19);
      }
      what += (i ? "; " : "") + name;
      ex.desc = what;
      if( !ref ) continue;
      ++solves;
      if( o.st == -900 && ref->st == Invalid_Option && op >= 13 && op <= 15 )
      {
         ex.count("re-optimize-refused");       // there was nothing to re-optimize: the last optimization never got that far
         continue;
      }
      h.i(o.st);
      for( double d : o.data ) { h.d(d); if( d == -4711 ) break; }
      std::string e = diff(o, *ref);
      if( !e.empty() ) ex.fail(op >= 13 && op <= 15 ? "re-optimize" : "history", "outcome differs from that in a fresh process: " + e + fmt(" (%s)", name.c_str()));
      if( !W->t->err.empty() ) ex.fail("protocol", W->t->err);
      h.i(op);
   }
   ex.count("solves", solves);
   ex.outcome(h.h);
}

int main(int argc, char** argv)
{
   int a[2], b[2];
   if( pipe(a) || pipe(b) ) return 98;
   if( !fork() ) { close(a[1]); close(b[0]); server(a[0], b[1]); }
   close(a[0]);
   close(b[1]);
   gReq = a[1];
   gAns = b[0];
   mc::Explorer ex;
   return ex.main(argc, argv, [](mc::Explorer& e) { body(e); });
}
