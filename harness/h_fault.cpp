// C04: evaluation failures and non-finite values at every call of a solve
#include "alloc.hpp"
#include "solvelib.hpp"

static const std::vector<tn::Opts>& treatments()
{
   static std::vector<tn::Opts> T = {
      {}, {{"hessian_approximation", "limited-memory"}}, {{"start_with_resto", "yes"}}, {{"jacobian_approximation", "finite-difference-values"}, {"gradient_approximation", "finite-difference-values"}},
      {{"check_derivatives_for_naninf", "yes"}}, {{"mu_strategy", "adaptive"}}, {{"derivative_test", "second-order"}}, {{"dependency_detector", "mumps"}}, {{"honor_original_bounds", "yes"}, {"bound_relax_factor", "1e-3"}},
      {{"line_search_method", "cg-penalty"}}, {{"mehrotra_algorithm", "yes"}}, {{"least_square_init_primal", "yes"}, {"least_square_init_duals", "yes"}}, {{"accept_every_trial_step", "yes"}}, {{"nlp_scaling_method", "equilibration-based"}},
      {{"corrector_type", "primal-dual"}, {"mu_strategy", "adaptive"}}, {{"watchdog_shortened_iter_trigger", "1"}}, {{"fixed_variable_treatment", "make_constraint"}}, {{"magic_steps", "yes"}},
   };
   return T;
}

struct Outc { ApplicationReturnStatus st; tn::Result r; int evals; std::vector<tn::Iter> it; uint64_t pts; };

static void setup(mc::Explorer& ex, sp::Problem& p, std::string& what, bool& convex)
{
   convex = false;
   if( ex.mode == "special" )
   {
      int k = ex.choose(fam::NSPECIAL);
      p = fam::special(k);
      what = fmt("special%d", k);
   }
   else
   {
      fam::Shape s;
      s.family = ex.of({0, 1, 2});
      s.n = 2;
      s.m = ex.choose(3);
      static const int BB[][2] = {{fam::B_LU, fam::B_FREE}, {fam::B_FIX, fam::B_L}, {fam::B_U, fam::B_LU}};
      static const int CC[][2] = {{fam::K_EQ, fam::K_GE}, {fam::K_RNG, fam::K_LE}, {fam::K_FREE, fam::K_EQ}};
      int b = ex.choose(3), c = s.m ? ex.choose(3) : 0;
      for( int i = 0; i < 2; ++i ) { s.b[i] = BB[b][i]; s.c[i] = CC[c][i]; }
      p = fam::make(s);
      convex = s.family == 0;
      what = fam::shapeStr(s);
   }
}

/** one solve; fault(cb, nth, x) as in tn::Spec */
static Outc solve1(mc::Explorer& ex, const sp::Problem& p, const tn::Opts& opts, std::function<int(int, int, const double*)> fault, bool faulty, Solve** keep = nullptr)
{
   static std::vector<Solve*> old;
   for( Solve* s : old ) delete s;
   old.clear();
   Solve* S = new Solve(p);
   old.push_back(S);
   for( auto& kv : opts ) S->opts.push_back(kv);
   S->opt("max_iter", "80");
   S->t->fault = fault;
   mc::Hash h;
   S->t->onEval = [&](int cb, const double* x, bool) { h.i(cb); for( int i = 0; i < p.n; ++i ) h.d(x[i]); };
   try { S->go(); }
   catch( std::exception& e ) { ex.fail("exception", std::string("exception left the solve: ") + e.what()); }
   catch( IpoptException& e ) { ex.fail("exception", "IpoptException left the solve: " + e.Message()); }
   catch( int ) { ex.fail("exception", "user exception left the solve"); }
   (void) faulty;
   Outc o;
   o.st = S->st;
   o.r = S->r();
   o.it = S->t->iters;
   o.pts = h.h;
   o.evals = 0;
   if( keep ) *keep = S;
   return o;
}

static void body(mc::Explorer& ex)
{
   sp::Problem p;
   std::string what;
   bool convex;
   setup(ex, p, what, convex);
   int ti = ex.choose(ex.thorough ? (int) treatments().size() : ex.mode == "special" ? 12 : 3);
   const tn::Opts& T = treatments()[ti];
   for( auto& kv : T ) what += " " + kv.first + "=" + kv.second;
   int cb = ex.of({tn::C_F, tn::C_GRAD, tn::C_G, tn::C_JAC, tn::C_HESS, tn::C_START});
   ex.shardPoint();
   // reference solve without fault; gives the number of calls (the same for every fault of this configuration)
   static std::string refFor;
   static Outc ref;
   static int calls[tn::NCB];
   static V start;
   Solve* S = nullptr;
   if( refFor != what + ex.mode )
   {
      ref = solve1(ex, p, T, nullptr, false, &S);
      memcpy(calls, S->t->cnt, sizeof calls);
      refFor = what + ex.mode;
   }
   int N = calls[cb];
   if( N == 0 ) throw mc::Skip();
   int cap = ex.thorough ? 200 : 6;
   int M = std::min(N, cap);
   int nth = ex.choose(M + 1);      // last: the very last call
   if( nth == M ) { if( N == M ) throw mc::Skip(); nth = N - 1; }
   int kind = ex.of({1, 2, 3, 4, 5, 6, 7});
   int persist = ex.choose(3);      // 0 once, 1 from then on, 2 always at this point
   if( cb == tn::C_START && (kind == 6 || kind == 7 || persist != 1) ) throw mc::Skip();
   if( !ex.thorough && ((persist == 2 && kind > 2) || (persist && kind > 4)) ) throw mc::Skip();
   static const char* KN[] = {"", "fails", "NaN", "+Inf", "throws std", "throws IpoptException", "-Inf", "throws int"};
   static const char* PN[] = {"once", "from then on", "at that point"};
   ex.desc = fmt("%s: %s %s at call %d of %d %s", what.c_str(), tn::cbname(cb), KN[kind], nth, N, PN[persist]);
   V at;
   bool hit = false;
   std::vector<V> failed, good;      // points at which the callback failed / delivered
   std::function<int(int, int, const double*)> fault = [&](int c, int k, const double* x) {
      if( c != cb ) return 0;
      bool f = false;
      if( k == nth ) { f = true; if( x ) at.assign(x, x + p.n); }
      else if( persist == 1 && k > nth ) f = true;
      else if( persist == 2 && !at.empty() && x && !memcmp(at.data(), x, p.n * sizeof(double)) ) f = true;
      if( f ) hit = true;
      if( x ) (f ? failed : good).push_back(V(x, x + p.n));
      return f ? kind : 0;
   };
   Outc o[2];
   for( int rep = kind > 2 && !ex.thorough; rep < 2; ++rep )
   {
      at.clear();
      failed.clear();
      good.clear();
      if( !getenv("ALLOC_NOFILL") ) al::fill() = rep ? 0x55 : 0xff;          // 0xff..: NaN, 0x55..: 1.19e103
      o[rep] = solve1(ex, p, T, fault, true, &S);
      al::fill() = -1;
      if( !hit ) ex.fail("nondeterminism", "the call to fail was not reached");
   }
   const tn::Result& r = o[1].r;
   ApplicationReturnStatus st = o[1].st;
   ex.count(fmt("status_%d", (int) st));
   mc::Hash h;
   h.i(st);
   h.i(o[1].pts);
   ex.outcome(h.h);
   if( !tn::documentedStatus(st) ) ex.fail("status", fmt("undocumented status %d", (int) st));
   if( (kind <= 2 || ex.thorough) && (o[0].st != o[1].st || o[0].pts != o[1].pts || !sameResult(o[0].r, r)) ) ex.fail("uninitialized-memory", fmt("two runs differing only in the content of fresh memory differ: status %d / %d, %zu / %zu iterations, f %.17g / %.17g; %s", (int) o[0].st, (int) st, o[0].it.size(), o[1].it.size(), o[0].r.f, r.f, S->resStr().c_str()));
   std::string e = S->t->err;
   if( !e.empty() && e.find("non-finite") == std::string::npos ) ex.fail("protocol", e);
   if( !e.empty() && cb != tn::C_START && cb != tn::C_JAC && cb != tn::C_HESS ) ex.fail("non-finite", e);      // non-finite values propagated into evaluation points
   if( r.finals > 1 ) ex.fail("final", "more than one final report");
   if( r.finals && tn::expectedFinal(st) >= 0 && tn::expectedFinal(st) != r.status ) ex.fail("final-status", fmt("returned %d, final report %d", (int) st, r.status));
   bool succ = st == Solve_Succeeded || st == Solved_To_Acceptable_Level || st == Feasible_Point_Found;
   if( cb == tn::C_START )
   {
      if( succ && (kind == 1 || kind >= 4) ) ex.fail("success-after-failure", "success although the starting point could not be provided");
      return;
   }
   if( succ )
   {
      for( const V* v : {&r.x, &r.zl, &r.zu, &r.g, &r.lam} ) for( double d : *v ) if( !std::isfinite(d) ) ex.fail("non-finite-result", "success with non-finite result " + S->resStr());
      if( !std::isfinite(r.f) ) ex.fail("non-finite-result", "success with non-finite objective " + S->resStr());
      bool fixedNaN = (cb == tn::C_GRAD || cb == tn::C_JAC) && kind == 2 && p.xl[0] == p.xu[0];   // the first value, which is the one for the fixed variable, is not needed
      // no needed function may still be unavailable in the returned point
      if( persist && cb != tn::C_HESS && !S->has("honor_original_bounds") ) for( auto& fp : failed ) if( bitEq(fp, r.x) && !(cb == tn::C_JAC && std::fabs(maxAbsDiff(r.lam, V(p.m, 0.))) < 1e-8 && (kind == 2 || kind == 3 || kind == 6)) && !fixedNaN && std::find(good.begin(), good.end(), fp) == good.end() ) ex.fail("success-at-failed-point", fmt("status %d at a point where %s failed; %s", (int) st, tn::cbname(cb), S->resStr().c_str()));
      if( persist && cb == tn::C_HESS && st == Solve_Succeeded && persist == 1 && nth == 0 && !S->has("hessian_approximation") && kind != 2 && kind != 3 && kind != 6 && N > 1 && o[1].it.size() > 2 ) ex.fail("success-without-hessian", S->resStr());
      if( st != Feasible_Point_Found )
      {
         bool fd = S->has("gradient_approximation");
         double f = fd ? 100 : 1;
            // an infinite derivative in the starting point makes for a tiny scaling factor: only the unscaled tolerances are left
            if( (kind == 3 || kind == 6) && nth < (S->has("derivative_test") ? 9 : 5) ) f = 5e5;
         bool astro = false;
         for( double v : r.x ) astro |= !(std::fabs(v) < 1e4);
         if( !astro && !S->has("dependency_detector") )
         {
            if( S->has("honor_original_bounds") )
            {
               if( violation(p, r.x) > 1e-2 ) ex.fail("kkt-feasibility", S->resStr());
            }
            else requireKkt(ex, *S, f, "kkt", fd || cb == tn::C_GRAD || cb == tn::C_JAC);   // multipliers of fixed variables are recovered after the solve, best effort
         }
      }
      else if( violation(p, r.x) > 1e-3 ) ex.fail("feasible-point", S->resStr());
   }
   // a failed trial point only shortens the step
   bool refOk = ref.st == Solve_Succeeded;
   bool ev = cb == tn::C_F || cb == tn::C_G;
   if( refOk && persist == 0 && ev && nth > 1 && nth + 1 < N && (kind == 1 || kind == 2 || kind == 3) && ti == 0 && convex )
   {
      // evaluations at the starting point are not trial points
      V first = p.x0;
      if( st != Solve_Succeeded && st != Solved_To_Acceptable_Level ) ex.fail("trial-failure-fatal", fmt("a single failure of %s at call %d ends the solve with status %d", tn::cbname(cb), nth, (int) st));
      if( std::fabs(r.f - ref.r.f) > 1e-5 * (1 + std::fabs(ref.r.f)) ) ex.fail("trial-failure-other-result", S->resStr());
   }
   // a failure that hits every evaluation leaves nothing to report success on
   if( persist == 1 && nth == 0 && succ && (cb == tn::C_F || cb == tn::C_GRAD) && !(cb == tn::C_GRAD && kind == 2 && p.xl[0] == p.xu[0]) ) ex.fail("success-without-values", S->resStr());
}

int main(int argc, char** argv)
{
   mc::Explorer ex;
   return ex.main(argc, argv, [](mc::Explorer& e) { body(e); });
}
