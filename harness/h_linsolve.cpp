// C18: every answer a linear solver can give at every factorization; the regularization schedule
#include "solvelib.hpp"
#include "IpPDPerturbationHandler.hpp"
#include "IpPDFullSpaceSolver.hpp"
#include "IpIpoptNLP.hpp"

// ------------------------------------------------------------------ the schedule, stated independently
struct Model
{
   double dmax, dmin, incFirst, inc, dec, first, dc; bool always, resetLast;
   int H = 0, J = 0;          // 0 unknown, 1 not degenerate, 2 degenerate
   int seen = 0;              // tests that pointed to degeneracy
   double x = 0, c = 0, last = 0;
   int test = 0;              // 0 none; otherwise 1 + (constraints perturbed) + 2 * (Hessian perturbed)
   void conclude()
   {
      if( !test ) return;
      bool tc = (test - 1) & 1, tx = (test - 1) & 2;
      if( !tc && !tx ) { if( !H ) H = 1; if( !J ) J = 1; return; }
      if( tc && tx ) { if( ++seen >= 3 ) H = J = 2; return; }
      if( tc ) { if( !H ) H = 1; if( !J && ++seen >= 3 ) J = 2; }
      else { if( !J ) J = 1; if( !H && ++seen >= 3 ) H = 2; }
   }
   bool grow()
   {
      if( x == 0 ) x = last == 0 ? first : std::max(dmin, last * dec);
      else x *= last == 0 || 1e5 * last < x ? incFirst : inc;
      if( x > dmax ) { last = 0; return false; }
      return true;
   }
   bool begin()
   {
      conclude();
      if( resetLast || x > 0 ) last = x;
      test = !H || !J ? (always ? 2 : 1) : 0;
      c = J == 2 || always ? dc : 0;
      x = 0;
      return H == 2 ? grow() : true;
   }
   bool singular()
   {
      if( H && J )
      {
         if( c > 0 ) return grow();
         c = dc;
         return true;
      }
      switch( test )
      {
         case 1: if( !J ) { c = dc; test = 2; return true; } return grow() && (test = 3);
         case 2: if( always ) return grow() && (test = 4); c = 0; return grow() && (test = 3);
         case 3: c = dc; return grow() && (test = 4);
         default: return grow();
      }
   }
   bool wrong()
   {
      conclude();
      if( grow() ) return true;
      if( c != 0 ) return false;
      c = dc;
      x = 0;
      test = 0;
      if( H == 2 ) H = 0;
      return grow();
   }
};

static const std::vector<tn::Opts>& schedOpts()
{
   static std::vector<tn::Opts> T = {
      {}, {{"perturb_always_cd", "yes"}}, {{"max_hessian_perturbation", "10"}}, {{"first_hessian_perturbation", "1"}, {"perturb_inc_fact", "3"}, {"perturb_dec_fact", "0.9"}},
      {{"perturb_inc_fact_first", "2"}, {"min_hessian_perturbation", "0.5"}}, {{"jacobian_regularization_value", "1e-3"}, {"jacobian_regularization_exponent", "1"}}, {{"max_hessian_perturbation", "1"}, {"perturb_always_cd", "yes"}},
      {{"first_hessian_perturbation", "1e-12"}, {"perturb_inc_fact_first", "1e9"}}};
   return T;
}

static void handler(mc::Explorer& ex)
{
   int ti = ex.choose((int) schedOpts().size());
   const tn::Opts& T = schedOpts()[ti];
   fam::Shape s;
   s.family = 1; s.n = 2; s.m = 1; s.b[0] = fam::B_LU; s.b[1] = fam::B_FREE; s.c[0] = fam::K_EQ;
   static Solve* S = nullptr;
   static int builtFor = -1;
   static SmartPtr<IpoptData> data;
   static SmartPtr<IpoptCalculatedQuantities> cq;
   static SmartPtr<IpoptNLP> nlp;
   if( builtFor != ti )
   {
      data = nullptr; cq = nullptr; nlp = nullptr;
      delete S;
      S = new Solve(fam::make(s));
      for( auto& kv : T ) S->opts.push_back(kv);
      S->opt("max_iter", "1");
      S->go();
      data = S->run.app->IpoptDataObject();
      cq = S->run.app->IpoptCQObject();
      nlp = S->run.app->IpoptNLPObject();
      builtFor = ti;
   }
   ex.shardPoint();
   data->Set_mu(0.1);
   PDPerturbationHandler h;
   SmartPtr<OptionsList> ol = S->run.app->Options();
   Model m;
   auto num = [&](const char* n) { double v; ol->GetNumericValue(n, v, ""); return v; };
   m.dmax = num("max_hessian_perturbation"); m.dmin = num("min_hessian_perturbation"); m.incFirst = num("perturb_inc_fact_first"); m.inc = num("perturb_inc_fact"); m.dec = num("perturb_dec_fact"); m.first = num("first_hessian_perturbation");
   double jv = num("jacobian_regularization_value"), je = num("jacobian_regularization_exponent");
   ol->GetBoolValue("perturb_always_cd", m.always, "");
   m.resetLast = false;
   if( m.always ) m.J = 1;
   SmartPtr<PDPerturbationHandler> ph = new PDPerturbationHandler();
   if( !ph->Initialize(*S->run.app->Jnlst(), *nlp, *data, *cq, *ol, "") ) ex.fail("init", "initialization failed");
   double mu = 0.1;
   int steps = ex.thorough ? 12 : 9;
   std::string tr;
   bool started = false;
   double x = -1, ss = -1, c = -1, d = -1;   // the last perturbations are given back to the handler
   for( int k = 0; k < steps; ++k )
   {
      int op = started ? ex.choose(4) : 0;
      bool a, b;
      m.dc = jv * std::pow(mu, je);
      if( op == 3 )
      {
         if( mu < 0.1 ) throw mc::Skip();
         mu *= 0.2; data->Set_mu(mu); op = 0; tr += "mu ";
         m.dc = jv * std::pow(mu, je);
      }
      if( op == 0 ) { a = ph->ConsiderNewSystem(x, ss, c, d); b = m.begin(); tr += "new "; started = true; }
      else if( op == 1 ) { a = ph->PerturbForSingularity(x, ss, c, d); b = m.singular(); tr += "singular "; }
      else { a = ph->PerturbForWrongInertia(x, ss, c, d); b = m.wrong(); tr += "inertia "; }
      ex.desc = "options " + std::to_string(ti) + ": " + tr;
      if( a != b ) ex.fail("schedule", mc::fmt("returned %d, schedule says %d", a, b));
      if( a )
      {
         if( x != ss || c != d ) ex.fail("schedule", mc::fmt("x/s or c/d perturbations differ: %g %g %g %g", x, ss, c, d));
         if( !(std::fabs(x - m.x) <= 1e-12 * m.x) || !(std::fabs(c - m.c) <= 1e-12 * m.c) ) ex.fail("schedule", mc::fmt("perturbations %g, %g; schedule says %g, %g", x, c, m.x, m.c));
         if( x > m.dmax ) ex.fail("maximum", mc::fmt("perturbation %g exceeds the maximum %g", x, m.dmax));
         double x2, s2, c2, d2;
         ph->CurrentPerturbation(x2, s2, c2, d2);
         if( x2 != x || s2 != x || c2 != c || d2 != c ) ex.fail("current", mc::fmt("CurrentPerturbation %g %g %g %g, delivered %g %g", x2, s2, c2, d2, x, c));
         if( data->info_regu_x() != x ) ex.fail("reported", mc::fmt("reported regularization %g, used %g", data->info_regu_x(), x));
      }
      else started = false;
      mc::Hash hh;
      hh.i(ti); hh.i(a); hh.d(x); hh.d(c); hh.i(m.H); hh.i(m.J); hh.i(m.test);
      ex.outcome(hh.h);
   }
}

// ------------------------------------------------------------------ faults in solves
// The real handler, watched: which answer of the solver made the algorithm ask for which change, what the schedule says,
// and (Mon::call) whether the next matrix contains exactly the delivered perturbation.
struct Mon
{
   mc::Explorer* ex = nullptr;
   Model m;
   double jv = 0, je = 0, x = 0, c = 0;
   bool gaveUp = false, armed = false, exactCalls = true, negTest = false, have = false, prevGood = false;
   int last = -1, lastNeg = 0, lastWant = 0; // answer to the last factorization made for the handler's system; -1: none
   double px = 0, pc = 0, upTo = 0; V pA; int pn = 0;
   long events = 0, checked = 0;
   void event(int op, bool ret, double X, double S, double C, double D, double mu)
   {
      ++events;
      m.dc = jv * std::pow(mu, je);
      if( op == 0 ) have = false;
      if( exactCalls && op > 0 && last >= 0 )
      {
         if( armed ) ex->report("unused", "perturbations changed without a factorization in between");
         if( op == 1 && last == SYMSOLVER_WRONG_INERTIA && lastNeg >= lastWant ) ex->report("reaction", "wrong inertia with enough negative eigenvalues treated as singularity");
         if( op == 2 && last == SYMSOLVER_SINGULAR && lastWant > 0 ) ex->report("reaction", "singularity treated as wrong inertia");
         if( op == 2 && last == SYMSOLVER_WRONG_INERTIA && lastNeg < lastWant ) ex->report("reaction", "too few negative eigenvalues treated as too many");
         if( op == 2 && last == SYMSOLVER_SUCCESS && !negTest ) ex->report("reaction", "regularization after a successful factorization");
      }
      bool want = op == 0 ? m.begin() : op == 1 ? m.singular() : m.wrong();
      if( want != ret ) ex->report("schedule", mc::fmt("perturbation handler returned %d, schedule says %d", ret, want));
      armed = ret;
      last = -1;
      gaveUp = !ret;
      if( !ret ) return;
      if( X != S || C != D ) ex->report("schedule", mc::fmt("x/s or c/d perturbations differ: %g %g %g %g", X, S, C, D));
      if( !(std::fabs(X - m.x) <= 1e-12 * m.x) || !(std::fabs(C - m.c) <= 1e-12 * m.c) ) ex->report("schedule", mc::fmt("perturbations %g, %g; schedule says %g, %g", X, C, m.x, m.c));
      if( X > m.dmax ) ex->report("maximum", mc::fmt("perturbation %g exceeds the maximum %g", X, m.dmax));
      x = X; c = C;
   }
   void call(const dn::Call& k)
   {
      if( !armed )
      {
         if( gaveUp && m.dmax < 1e3 && exactCalls && have && pn == k.n && k.n && (int) k.A.size() == pn * pn )
         {
            bool same = true;
            double d0 = k.A[0] - pA[0];
            for( int r = 0; r < k.n && same; ++r ) for( int q = 0; q < k.n && same; ++q )
            {
               double d = k.A[r * k.n + q] - pA[r * k.n + q];
               same = std::fabs(d - (r != q || r >= k.n - lastWant ? 0 : d0)) <= 1e-6 * d0;
            }
            if( same && d0 > 0.01 && std::fabs(d0 - (upTo - px)) < 1e-6 * d0 ) ex->report("gave-up", mc::fmt("a matrix with larger perturbation (by %g) is solved after the perturbations were given up", d0));
         }
         if( exactCalls && last > 0 && last != SYMSOLVER_CALL_AGAIN && last != SYMSOLVER_FATAL_ERROR && k.newm && k.check ) ex->report("no-reaction", "a factorization failed and the next one was made without a change of the perturbation");
         return;
      }
      if( k.status == SYMSOLVER_CALL_AGAIN ) return;
      armed = false;
      last = k.status; lastNeg = k.neg; lastWant = k.want;
      if( !exactCalls || k.A.empty() ) { have = false; return; }
      if( have && pn == k.n )
      {
         for( int r = 0; r < k.n; ++r ) for( int q = 0; q < k.n; ++q )
         {
            double a = pA[r * k.n + q], b = k.A[r * k.n + q];
            double add = r != q ? 0 : r < k.n - lastWant ? x - px : pc - c;
            if( !(std::fabs(b - a - add) <= 1e-11 * (std::fabs(a) + std::fabs(b) + x + px + c + pc)) )
               ex->report("matrix", mc::fmt("entry %d,%d of the matrix is %.17g after %.17g; the perturbations went from %g, %g to %g, %g", r, q, b, a, px, pc, x, c));
         }
         ++checked;
      }
      have = true;
      pn = k.n; pA = k.A; px = x; pc = c;
   }
};
static Mon* mon = nullptr;
class MonHandler : public PDPerturbationHandler
{
   bool did(int op, bool r, double& x, double& s, double& c, double& d)
   {
      if( mon ) mon->event(op, r, x, s, c, d, IpData().curr_mu());
      if( mon && !r ) { double a, b, e; CurrentPerturbation(mon->upTo, a, b, e); }
      return r;
   }
public:
   bool InitializeImpl(const OptionsList& o, const std::string& prefix) override
   {
      Model& m = mon->m;
      m = Model();
      o.GetNumericValue("max_hessian_perturbation", m.dmax, prefix); o.GetNumericValue("min_hessian_perturbation", m.dmin, prefix); o.GetNumericValue("perturb_inc_fact_first", m.incFirst, prefix);
      o.GetNumericValue("perturb_inc_fact", m.inc, prefix); o.GetNumericValue("perturb_dec_fact", m.dec, prefix); o.GetNumericValue("first_hessian_perturbation", m.first, prefix);
      o.GetNumericValue("jacobian_regularization_value", mon->jv, prefix); o.GetNumericValue("jacobian_regularization_exponent", mon->je, prefix);
      o.GetBoolValue("perturb_always_cd", m.always, prefix);
      m.resetLast = false;
      if( m.always ) m.J = 1;
      return PDPerturbationHandler::InitializeImpl(o, prefix);
   }
   bool ConsiderNewSystem(Number& x, Number& s, Number& c, Number& d) override { return did(0, PDPerturbationHandler::ConsiderNewSystem(x, s, c, d), x, s, c, d); }
   bool PerturbForSingularity(Number& x, Number& s, Number& c, Number& d) override { return did(1, PDPerturbationHandler::PerturbForSingularity(x, s, c, d), x, s, c, d); }
   bool PerturbForWrongInertia(Number& x, Number& s, Number& c, Number& d) override { return did(2, PDPerturbationHandler::PerturbForWrongInertia(x, s, c, d), x, s, c, d); }
};
class MonBuilder : public dn::Builder
{
public:
   using dn::Builder::Builder;
   SmartPtr<PDSystemSolver> PDSystemSolverFactory(const Journalist& j, const OptionsList& o, const std::string& prefix) override
   {
      return new PDFullSpaceSolver(*GetAugSystemSolver(j, o, prefix), *new MonHandler());
   }
};

static const std::vector<tn::Opts>& treatments()
{
   static std::vector<tn::Opts> T = {
      {}, {{"mu_strategy", "adaptive"}}, {{"hessian_approximation", "limited-memory"}}, {{"neg_curv_test_tol", "1e-11"}}, {{"perturb_always_cd", "yes"}}, {{"max_hessian_perturbation", "1"}}, {{"start_with_resto", "yes"}},
      {{"max_hessian_perturbation", "1"}, {"mu_strategy", "adaptive"}, {"fixed_mu_oracle", "quality-function"}}, {{"max_hessian_perturbation", "1"}, {"mehrotra_algorithm", "yes"}},
      {{"mehrotra_algorithm", "yes"}}, {{"corrector_type", "affine"}, {"mu_strategy", "adaptive"}}, {{"fast_step_computation", "yes"}}, {{"line_search_method", "cg-penalty"}}, {{"neg_curv_test_tol", "1e-11"}, {"neg_curv_test_reg", "no"}},
      {{"min_refinement_steps", "0"}}, {{"max_refinement_steps", "1"}, {"min_refinement_steps", "0"}}, {{"mu_strategy", "adaptive"}, {"mu_oracle", "probing"}}, {{"recalc_y", "yes"}}, {{"linear_system_scaling", "slack-based"}}, {{"least_square_init_primal", "yes"}},
      {{"line_search_method", "penalty"}}, {{"mu_strategy", "adaptive"}, {"mu_oracle", "loqo"}},
      {{"max_hessian_perturbation", "1"}, {"mu_strategy", "adaptive"}, {"mu_oracle", "probing"}}, {{"max_hessian_perturbation", "1"}, {"corrector_type", "affine"}, {"mu_strategy", "adaptive"}},
   };
   return T;
}
struct Rec { int n; bool newm, check; int status; V A; int iter; };

static void faults(mc::Explorer& ex)
{
   sp::Problem p;
   std::string what;
   bool convex = false;
   if( ex.mode == "special" )
   {
      int k = ex.choose(fam::NSPECIAL);
      p = fam::special(k);
      what = fmt("special%d", k);
   }
   else
   {
      fam::Shape s;
      s.family = ex.thorough ? ex.of({0, 2, 1}) : ex.of({0, 2});
      s.n = 2;
      s.m = ex.choose(3);
      static const int BB[][2] = {{fam::B_LU, fam::B_FREE}, {fam::B_FREE, fam::B_FREE}, {fam::B_FIX, fam::B_L}};
      static const int CC[][2] = {{fam::K_EQ, fam::K_GE}, {fam::K_RNG, fam::K_LE}};
      int b = ex.choose(3), c = s.m ? ex.choose(2) : 0;
      for( int i = 0; i < 2; ++i ) { s.b[i] = BB[b][i]; s.c[i] = CC[c][i]; }
      p = fam::make(s);
      convex = s.family == 0;
      what = fam::shapeStr(s);
   }
   int ti = ex.choose(ex.thorough ? (int) treatments().size() : ex.mode == "special" ? 9 : 5);
   const tn::Opts& T = treatments()[ti];
   for( auto& kv : T ) what += " " + kv.first + "=" + kv.second;
   ex.shardPoint();
   static std::string refFor;
   static int N, refSt;
   static double refF;
   static V refX;
   auto prep = [&](Solve& S) {
      for( auto& kv : T ) S.opts.push_back(kv);
      S.opt("max_iter", "150");
      for( auto& kv : T ) if( kv.first == "neg_curv_test_tol" ) S.hook.inertia = false;
   };
   if( refFor != what )
   {
      Solve S(p);
      prep(S);
      S.go();
      N = S.hook.ncalls;
      refSt = S.st;
      refF = S.r().f;
      refX = S.r().x;
      refFor = what;
   }
   int M = std::min(N, ex.thorough ? 60 : ex.mode == "special" ? 12 : 16);
   int k = ex.choose(M + 1);
   if( k == M ) { if( N <= M ) throw mc::Skip(); k = N - 1; }
   int kind = ex.of<int>({SYMSOLVER_SINGULAR, SYMSOLVER_WRONG_INERTIA, SYMSOLVER_CALL_AGAIN, SYMSOLVER_FATAL_ERROR, 10, 11, 12, 13, 14, 15, 16});
   // 0: this call; 1: and the next; 2: and the next four; 3: all from then on; 4: every other from then on
   int persist = ex.choose(5);
   int k2 = -1, kind2 = 0;
   if( ex.thorough && persist == 0 && kind <= 3 && ti < 3 )
   {
      k2 = ex.choose(9);
      if( k2 ) kind2 = ex.of<int>({SYMSOLVER_SINGULAR, SYMSOLVER_WRONG_INERTIA, 10, 13});
      k2 = k2 ? k + k2 : -1;
   }
   int quality = kind >= 10 && kind <= 13 && ex.thorough ? ex.of({2, 0}) : 2;
   if( (kind == 14 || kind == 15) && persist ) throw mc::Skip();
   if( persist == 3 && kind == SYMSOLVER_CALL_AGAIN ) throw mc::Skip();   // a solver that never stops asking
   if( !ex.thorough && persist == 4 && kind != SYMSOLVER_WRONG_INERTIA && kind != SYMSOLVER_SINGULAR && kind != SYMSOLVER_CALL_AGAIN ) throw mc::Skip();
   static const char* KN[] = {"success", "singular", "wrong inertia", "call again", "fatal error"};
   static const char* PN[] = {"once", "twice", "five times", "from then on", "every other time from then on"};
   ex.desc = fmt("%s: linear solver call %d of %d answers %s %s%s, quality steps %d", what.c_str(), k, N, kind < 10 ? KN[kind] : fmt("fault %d", kind).c_str(), PN[persist], k2 >= 0 ? fmt(", call %d fault %d", k2, kind2).c_str() : "", quality);
   Solve S(p);
   prep(S);
   S.hook.quality = quality;
   S.hook.record = true;
   bool hit = false, illegal = false;
   std::vector<Rec> recs;
   int curIter = -1;
   long calls = 0;
   V wantA; int wantN = -1;
   S.hook.fault = [&](int nth, bool newm, bool check) {
      ++calls;
      if( calls > 20000 ) { ex.report("endless", "more than 20000 linear solver calls"); fflush(stdout); _exit(3); }
      int fk = -1;
      bool in = persist == 0 ? nth == k : persist == 1 ? nth >= k && nth <= k + 1 : persist == 2 ? nth >= k && nth <= k + 4 : persist == 3 ? nth >= k : nth >= k && (nth - k) % 2 == 0;
      if( in ) fk = kind;
      if( nth == k2 ) fk = kind2;
      if( fk == SYMSOLVER_WRONG_INERTIA && !check ) { fk = -1; if( nth == k ) illegal = true; }       // answer only allowed if asked for
      if( fk == SYMSOLVER_SINGULAR && !newm ) { fk = -1; if( nth == k ) illegal = true; }             // only a factorization can fail
      if( fk == SYMSOLVER_CALL_AGAIN && !newm && nth != k ) fk = -1;
      if( fk >= 0 ) hit = true;
      return fk;
   };
   S.hook.onCall = [&](const dn::Call& c) {
      if( wantN >= 0 )
      {
         if( c.n != wantN || !bitEq(c.A, wantA) ) ex.report("call-again", "after the request to call again the next call does not deliver the same matrix");
         wantN = -1;
      }
      if( c.status == SYMSOLVER_CALL_AGAIN && !c.A.empty() ) { wantN = c.n; wantA = c.A; }
      if( mon ) mon->call(c);
      recs.push_back(Rec{c.n, c.newm, c.check, c.status, c.newm ? c.A : V(), curIter});
      S.hook.calls.clear();
   };
   S.t->onIter = [&](tn::Spec&, const tn::Iter& it, const IpoptData*, IpoptCalculatedQuantities*) {
      curIter = it.iter;
      // regularization within its configured maximum
      double mx = 1e20;
      for( auto& kv : T ) if( kv.first == "max_hessian_perturbation" ) mx = atof(kv.second.c_str());
      if( it.reg > mx ) ex.report("maximum", fmt("reported regularization %g exceeds the maximum %g", it.reg, mx));
      return true;
   };
   Mon M2;
   M2.ex = &ex;
   M2.exactCalls = !S.has("hessian_approximation") && !S.has("linear_system_scaling");
   M2.negTest = S.has("neg_curv_test_tol");
   bool watch = !S.has("line_search_method", "cg-penalty");
   if( watch ) S.run.makeBuilder = [](dn::Hook* h) -> AlgorithmBuilder* { return new MonBuilder(h, false); };
   mon = watch ? &M2 : nullptr;
   struct Off { ~Off() { mon = nullptr; } } off;
   try { S.go(); }
   catch( std::exception& e ) { ex.fail("exception", std::string("exception left the solve: ") + e.what()); }
   catch( IpoptException& e ) { ex.fail("exception", "exception left the solve: " + e.Message()); }
   if( illegal ) throw mc::Skip();
   if( !hit ) throw mc::Skip();
   ex.count(fmt("status_%d", (int) S.st));
   mc::Hash h;
   h.i(S.st); h.i(recs.size()); h.i(S.t->iters.size());
   for( double v : S.r().x ) h.dr(v, 1e-7);
   ex.outcome(h.h);
   if( !S.hook.err.empty() ) ex.fail("solver-protocol", S.hook.err);
   if( !tn::documentedStatus(S.st) ) ex.fail("status", fmt("undocumented status %d", (int) S.st));
   if( kind == 15 && S.st != Insufficient_Memory ) ex.fail("status-memory", fmt("status %d after std::bad_alloc", (int) S.st));
   if( S.r().finals > 1 ) ex.fail("final", "more than one final report");
   if( S.r().finals && tn::expectedFinal(S.st) >= 0 && tn::expectedFinal(S.st) != S.r().status ) ex.fail("final-status", fmt("returned %d, final report %d", (int) S.st, S.r().status));
   // a starting point computed directly from the linear solver's result is not looked at
   bool direct = S.has("mehrotra_algorithm") || S.has("least_square_init_primal");
   if( !S.t->err.empty() && !(direct && (kind == 10 || kind == 16 || kind2 == 10)) ) ex.fail("protocol", S.t->err);
   if( S.ok() ) requireKkt(ex, S, 1, "kkt", true, 1e-8, 1e-10);
   if( S.st == Feasible_Point_Found && violation(p, S.r().x) > 1e-3 ) ex.fail("feasible-point", S.resStr());
   ex.count("handler events", M2.events);
   ex.count("matrices compared", M2.checked);
   // a transient failure does not prevent the solution
   bool transient = (persist <= 1 || (persist == 2 && (kind == SYMSOLVER_SINGULAR || kind == SYMSOLVER_WRONG_INERTIA))) && k2 < 0 && (kind == SYMSOLVER_SINGULAR || kind == SYMSOLVER_WRONG_INERTIA || kind == SYMSOLVER_CALL_AGAIN || kind == 12);
   if( transient && convex && refSt == Solve_Succeeded && !S.has("max_hessian_perturbation") )
   {
      if( !S.ok() ) ex.fail("transient-fatal", fmt("status %d", (int) S.st));
      if( std::fabs(S.r().f - refF) > 1e-5 * (1 + std::fabs(refF)) || maxAbsDiff(S.r().x, refX) > 1e-4 ) ex.fail("transient-other-result", S.resStr());
   }
   if( kind == SYMSOLVER_CALL_AGAIN && k2 < 0 && refSt == Solve_Succeeded && (S.st != refSt || !bitEq(S.r().x, refX)) ) ex.fail("call-again-result", "a request to call again changes the result: " + S.resStr());
}

int main(int argc, char** argv)
{
   setvbuf(stdout, nullptr, _IOLBF, 4096);
   mc::Explorer ex;
   return ex.main(argc, argv, [](mc::Explorer& e) {
      if( e.mode == "handler" ) return handler(e);
      faults(e);
   });
}
