// C11: iteration and time limits; the clock is owned by the harness
#include "solvelib.hpp"
#include <sys/time.h>
#include <sys/resource.h>

static double g_now = 0;          // virtual seconds
static long g_queries = 0;        // clock readings
static long g_jumpAt = -1;        // clock reading before which time jumps by a day
static void tick() { if( g_queries++ == g_jumpAt ) g_now += 1e5; }
extern "C" int gettimeofday(struct timeval* tv, void*) noexcept
{
   tick();
   double t = 1e6 + g_now;
   tv->tv_sec = (time_t) t;
   tv->tv_usec = (suseconds_t)((t - (double) tv->tv_sec) * 1e6);
   return 0;
}
extern "C" int getrusage(__rusage_who_t, struct rusage* r) noexcept
{
   memset(r, 0, sizeof(*r));
   tick();
   r->ru_utime.tv_sec = (time_t) g_now;
   return 0;
}

static const std::vector<tn::Opts>& treatments()
{
   static std::vector<tn::Opts> T = {
      {}, {{"start_with_resto", "yes"}}, {{"mu_strategy", "adaptive"}}, {{"watchdog_shortened_iter_trigger", "1"}, {"alpha_red_factor", "0.9"}}, {{"line_search_method", "cg-penalty"}}, {{"line_search_method", "penalty"}}, {{"hessian_approximation", "limited-memory"}},
      {{"fixed_variable_treatment", "make_constraint"}}, {{"obj_scaling_factor", "0.01"}}, {{"honor_original_bounds", "yes"}, {"bound_relax_factor", "1e-3"}}, {{"mehrotra_algorithm", "yes"}}, {{"expect_infeasible_problem", "yes"}, {"start_with_resto", "yes"}},
      {{"fixed_variable_treatment", "make_constraint"}, {"start_with_resto", "yes"}}, {{"accept_every_trial_step", "yes"}}, {{"soft_resto_pderror_reduction_factor", "0"}}, {{"gradient_approximation", "finite-difference-values"}}, {{"timing_statistics", "yes"}}, {{"dependency_detector", "mumps"}},
      {{"mu_strategy", "adaptive"}, {"adaptive_mu_globalization", "never-monotone-mode"}}, {{"corrector_type", "affine"}}, {{"max_soc", "0"}}, {{"acceptable_iter", "0"}}, {{"resto.mu_strategy", "adaptive"}, {"start_with_resto", "yes"}}, {{"expect_infeasible_problem", "yes"}}, {{"max_resto_iter", "1000"}}
   };
   return T;
}
struct Course
{
   std::vector<long> evAt;      // evaluations before each iteration callback
   std::vector<double> now;     // time at the end of each iteration callback
   std::vector<long> qAt;       // clock readings before each iteration callback
   std::vector<Snap> snap;
   long ev = 0;
   V lastPts;
   void attach(Solve& S, int cost)
   {
      S.t->onEval = [this, cost](int cb, const double*, bool) { ++ev; if( cost == 0 || (cost == 2 && cb == 0) ) g_now += 1; };
      S.t->onIter = [this, cost](tn::Spec& t, const tn::Iter&, const IpoptData* d, IpoptCalculatedQuantities* q) {
         evAt.push_back(ev);
         if( cost == 1 ) g_now += 1;
         now.push_back(g_now);
         qAt.push_back(g_queries);
         snap.push_back(Snap(t, d, q));
         return true;
      };
   }
};
static void zero() { g_now = 0; g_queries = 0; g_jumpAt = -1; }

static void body(mc::Explorer& ex)
{
   sp::Problem p;
   std::string what;
   if( ex.mode == "special" )
   {
      int k = ex.choose(fam::NSPECIAL);
      p = fam::special(k);
      int sh = ex.choose(ex.thorough ? 4 : 2);
      static const double SH[] = {0, -2, 1.5, 0.5};
      for( double& v : p.x0 ) v += SH[sh];
      int fx = ex.choose(2);
      if( fx ) p.xl[0] = p.xu[0] = std::fabs(p.x0[0]) < 1e-9 ? 0.5 : std::max(0.02, p.x0[0]);
      what = fmt("special%d shift %g fix %d", k, SH[sh], fx);
   }
   else
   {
      fam::Shape s = ex.thorough ? fam::chooseShape(ex, 1, 2, 0, 2, {0, 2}) : fam::chooseShape(ex, 1, 2, 0, 1, {2});
      p = fam::make(s);
      what = fam::shapeStr(s);
   }
   ex.shardPoint();
   int ti = ex.deviate((int) treatments().size());
   tn::Opts T = treatments()[ti];
   for( auto& kv : T ) what += " " + kv.first + "=" + kv.second;
   const int CAP = ex.thorough ? 100 : 25;
   // which limit: 0 iterations; 1 wall, 2 cpu, 3 both, every evaluation takes a second; 4 wall, every callback of intermediate takes a second; 5 wall, every objective value takes a second;
   // 6 time jumps past both budgets at one clock reading
   int lim = ex.choose(7);
   int cost = lim == 4 ? 1 : lim == 5 ? 2 : lim == 6 ? 3 : lim == 0 ? 3 : 0;
   // the unlimited solve
   static std::string refFor;
   static Course ref;
   static std::vector<tn::Iter> refIters;
   static tn::Result refRes;
   static ApplicationReturnStatus refSt;
   static double T0 = -1;                     // when the clock of the limit starts
   std::string key = what + fmt(" lim %d", lim);
   auto setLimits = [&](Solve& S, double budget) {
      S.opts = T;
      S.opt("max_iter", std::to_string(CAP));
      if( lim == 1 || lim >= 3 ) S.opt("max_wall_time", fmt("%.17g", budget));
      if( lim == 2 || lim == 3 || lim == 6 ) S.opt("max_cpu_time", fmt("%.17g", budget));
   };
   if( refFor != key )
   {
      ref = Course();
      Solve R(p);
      setLimits(R, 1e9);
      zero();
      ref.attach(R, cost);
      R.go();
      refIters = R.t->iters;
      refRes = R.r();
      refSt = R.st;
      T0 = -1;
      refFor = key;
   }
   int K = (int) ref.evAt.size();
   if( K == 0 ) throw mc::Skip();
   Solve S(p);
   Course c;
   c.attach(S, cost);
   int expectCb = -1;          // number of iteration callbacks if determined
   bool mayEnd = false;        // the solve may reach its regular end instead
   ApplicationReturnStatus expSt = Maximum_Iterations_Exceeded;
   if( lim == 0 )
   {
      int M = refIters.back().iter;
      int k = ex.choose(M + 2);
      S.opts = T;
      S.opt("max_iter", std::to_string(std::min(k, CAP)));
      ex.desc = what + fmt(" max_iter %d of %d", k, M);
      zero();
      S.go();
      // ends at the first callback of iteration k at which the limit is checked
      if( k > M ) { expectCb = K; expSt = refSt; }
      else mayEnd = true;
      for( auto& it : S.t->iters ) if( it.iter > k ) ex.fail("too-many", fmt("iteration %d with max_iter %d", it.iter, k));
      if( k < M && S.st != Maximum_Iterations_Exceeded ) ex.fail("status", fmt("status %d with max_iter %d although the solve needs %d iterations; %s", (int) S.st, k, M, S.resStr().c_str()));
      if( k == M && S.st != Maximum_Iterations_Exceeded && S.st != refSt ) ex.fail("status", fmt("status %d with max_iter %d, unlimited %d", (int) S.st, k, (int) refSt));
   }
   else if( lim <= 5 )
   {
      // every budget that ends between two steps of the clock
      double total = ref.now.back();
      auto fire = [&](double b, Solve& W) { setLimits(W, b); zero(); W.go(); };
      if( T0 < 0 )
      {
         // time that passed before the limit's clock started: measured by the budgets that are exceeded at the first callback
         // (without evaluations before the algorithm starts, time is counted from the first one)
         if( !S.has("dependency_detector") ) T0 = 0;
         else for( double b = 0.5; ; b += 1 )
         {
            Solve W(p);
            Course cw;
            cw.attach(W, cost);
            fire(b, W);
            if( W.t->iters.size() > 1 || b > total || (W.st != Maximum_WallTime_Exceeded && W.st != Maximum_CpuTime_Exceeded) ) { T0 = ref.now[0] - (b - 0.5); break; }
         }
         if( T0 < 0 ) ex.fail("clock-start", fmt("stopped at the first iteration although only %g s have passed since the start", ref.now[0]));
      }
      int nb = (int) total + 2;
      int stepb = 1;
      int maxb = ex.thorough ? 400 : ex.mode == "special" ? 30 : 5;
      while( nb / stepb > maxb ) ++stepb;
      int bi = ex.choose(nb / stepb + 1);
      double b = bi * stepb + 0.5;
      ex.desc = key + fmt(" budget %g of %g (start at %g)", b, total - T0, T0);
      fire(b, S);
      expSt = lim == 1 || lim >= 4 ? Maximum_WallTime_Exceeded : Maximum_CpuTime_Exceeded;
      // a restoration phase that has found its point returns without looking at the clock; the regular phase does so next
      for( int i = 0; i < K; ++i ) if( ref.now[i] - T0 >= b && !(i + 1 < K && refIters[i].mode && !refIters[i + 1].mode) ) { expectCb = i + 1; break; }
      bool limited = S.st == Maximum_WallTime_Exceeded || S.st == Maximum_CpuTime_Exceeded;
      if( expectCb < 0 )
      {
         // the budget suffices up to the last callback
         if( limited && g_now - T0 < b ) ex.fail("too-early", fmt("time limit reported after %g s, budget %g s", g_now - T0, b));
         expectCb = K;
         if( !limited ) expSt = refSt;
      }
      else
      {
         if( (int) S.t->iters.size() > expectCb ) ex.fail("too-late", fmt("%zu iteration callbacks, budget was exceeded at callback %d (%g s; mode %d)", S.t->iters.size(), expectCb - 1, ref.now[expectCb - 1] - T0, refIters[expectCb - 1].mode));
         if( limited && g_now - T0 < b ) ex.fail("too-early", fmt("time limit reported after %g s, budget %g s", g_now - T0, b));
         mayEnd = true;
         if( !limited && S.st != refSt ) ex.fail("status", fmt("status %d; unlimited %d; budget exceeded at callback %d of %d", (int) S.st, (int) refSt, expectCb - 1, K));
         if( !limited && expectCb < K ) ex.fail("status", fmt("status %d although the budget was exceeded at callback %d of %d", (int) S.st, expectCb - 1, K));
      }
      if( limited && S.st != expSt && lim != 3 ) ex.fail("status", fmt("status %d for limit kind %d", (int) S.st, lim));
   }
   else
   {
      long Q = ref.qAt.back() + 4;
      int stepq = 1;
      while( Q / stepq > (ex.thorough ? 1000 : ex.mode == "special" ? 40 : 6) ) ++stepq;
      int qi = ex.choose((int)(Q / stepq) + 1) * stepq;
      setLimits(S, 1e4);
      zero();
      g_jumpAt = qi;
      ex.desc = key + fmt(" time jumps at clock reading %d of %ld", qi, Q);
      S.go();
      bool limited = S.st == Maximum_WallTime_Exceeded || S.st == Maximum_CpuTime_Exceeded;
      if( !limited && S.st != refSt ) ex.fail("status", fmt("status %d, unlimited %d", (int) S.st, (int) refSt));
      // callbacks that happened before the jump; one more check may still follow
      int before = 0;
      while( before < K && ref.qAt[before] <= qi ) ++before;
      // the restoration phase measures the time left once when it starts, its own setup comes after that; and it returns without looking at the clock if it has found its point
      if( before < K && refIters[before].mode && (before == 0 || !refIters[before - 1].mode) ) while( before + 1 < K && refIters[before + 1].mode ) ++before;
      while( before + 1 < K && refIters[before].mode && !refIters[before + 1].mode ) ++before;
      if( qi >= ref.qAt[0] && (int) S.t->iters.size() > before + 1 ) ex.fail("too-late", fmt("%zu iteration callbacks although time jumped after %d", S.t->iters.size(), before));
      if( !limited && qi >= ref.qAt[0] && before + 1 < K ) ex.fail("status", fmt("status %d although time jumped after callback %d of %d", (int) S.st, before, K));
      mayEnd = true;
      expSt = S.st;
   }
   const tn::Result& r = S.r();
   int N = (int) S.t->iters.size();
   bool limited = S.st == Maximum_WallTime_Exceeded || S.st == Maximum_CpuTime_Exceeded || S.st == Maximum_Iterations_Exceeded;
   ex.count(fmt("status_%d", (int) S.st));
   if( N ) ex.count(fmt("mode_%d", S.t->iters.back().mode));
   mc::Hash h;
   h.i(S.st);
   h.i(N);
   for( double v : r.x ) h.dr(v, 1e-5);
   ex.outcome(h.h);
   if( !S.t->err.empty() ) ex.fail("protocol", S.t->err);
   if( !mayEnd && expectCb >= 0 && N != expectCb && S.st != refSt ) ex.fail("length", fmt("%d iteration callbacks, expected %d", N, expectCb));
   if( r.finals != 1 || r.status != tn::expectedFinal(S.st) ) ex.fail("final", fmt("%d final reports with status %d; returned %d", r.finals, r.status, (int) S.st));
   // same course as without the limit; a square problem's multipliers are computed at a feasible point only if there is time left
   int neq = 0, nfix = 0;
   for( int j = 0; j < p.m; ++j ) neq += p.gl[j] == p.gu[j];
   for( int i = 0; i < p.n; ++i ) nfix += p.xl[i] == p.xu[i];
   bool square = S.has("fixed_variable_treatment", "make_constraint") ? neq + nfix == p.n : neq == p.n - nfix;
   if( N > K ) ex.fail("other-course", fmt("%d iteration callbacks, without limit %d", N, K));
   for( int i = 0; i < N; ++i )
   {
      if( square && limited && i == N - 1 && violation(p, c.snap[i].x) < 1e-4 && bitEq(c.snap[i].x, ref.snap[i].x) && S.t->iters[i].iter == refIters[i].iter && S.t->iters[i].mode == refIters[i].mode ) { ex.count("square"); continue; }
      if( memcmp(&S.t->iters[i].obj, &refIters[i].obj, 4 * sizeof(double)) || S.t->iters[i].iter != refIters[i].iter || S.t->iters[i].mode != refIters[i].mode ) ex.fail("other-course", fmt("iteration callback %d differs from that of the solve without limit: iteration %d mode %d objective %.17g inf_pr %.17g inf_du %.17g mu %.17g; without limit %d %d %.17g %.17g %.17g %.17g", i, S.t->iters[i].iter, S.t->iters[i].mode, S.t->iters[i].obj, S.t->iters[i].inf_pr, S.t->iters[i].inf_du, S.t->iters[i].mu,
         refIters[i].iter, refIters[i].mode, refIters[i].obj, refIters[i].inf_pr, refIters[i].inf_du, refIters[i].mu));
      if( !bitEq(c.snap[i].x, ref.snap[i].x) || !bitEq(c.snap[i].lam, ref.snap[i].lam) || !bitEq(c.snap[i].zl, ref.snap[i].zl) ) ex.fail("other-course", fmt("iterate %d differs from that of the solve without limit", i));
   }
   if( !limited || S.st == refSt )
   {
      if( S.st == refSt && N == K && !sameResult(r, refRes) && !limited ) ex.fail("other-result", "result differs from that of the solve without limit: " + S.resStr());
      if( !limited ) return;
   }
   if( !N ) ex.fail("no-iteration", "limit reported before the first iteration callback");
   // the report carries the last iterate
   // (in a watchdog, the iterate from before it)
   int at = N - 1;
   if( !S.has("honor_original_bounds") ) for( int i = N - 1; i >= 0 && i >= N - 5; --i ) if( bitEq(c.snap[i].x, r.x) && (i == N - 1 || !S.t->iters[i].mode) ) { at = i; break; }
   if( at != N - 1 ) ex.count("watchdog");
   const Snap& s = c.snap[at];
   V x = s.x;
   bool honor = S.has("honor_original_bounds");
   if( honor ) for( int i = 0; i < p.n; ++i ) x[i] = std::min(std::max(x[i], p.xl[i]), p.xu[i]);
   bool late = g_now > c.now.back() || (lim == 6);   // the limit struck at the start of the restoration: the report is still the last iterate
   (void) late;
   if( !bitEq(x, r.x) ) ex.fail("reported-x", fmt("last iterate:%s; reported: %s", s.str().c_str(), S.resStr().c_str()));
   auto near = [](const V& a, const V& b, double t) { for( size_t i = 0; i < a.size(); ++i ) if( !(std::fabs(a[i] - b[i]) <= t * (1 + std::fabs(a[i]))) ) return false; return true; };
   V lam = s.lam;
   for( size_t j = 0; j < lam.size(); ++j ) if( lam[j] < -1e77 && S.has("dependency_detector") ) lam[j] = r.lam[j];
   if( !near(lam, r.lam, 1e-12) ) ex.fail("reported-lambda", fmt("last iterate:%s; reported: %s", s.str().c_str(), S.resStr().c_str()));
   bool fixd = false;
   for( int i = 0; i < p.n; ++i ) fixd |= p.xl[i] == p.xu[i];
   if( !(honor && fixd) ) if( !near(s.zl, r.zl, 1e-9) || !near(s.zu, r.zu, 1e-9) ) ex.fail("reported-z", fmt("last iterate:%s; reported: %s", s.str().c_str(), S.resStr().c_str()));
   const V& xv = honor ? s.x : r.x;
   double f = p.f.val(xv.data());
   if( !(std::fabs(f - r.f) <= 1e-11 * (1 + std::fabs(f))) ) ex.fail("reported-f", fmt("objective %.15g reported, value at the reported point is %.15g", r.f, f));
   for( int j = 0; j < p.m; ++j ) { double g = p.g[j].val(xv.data()); if( !(std::fabs(g - r.g[j]) <= 1e-11 * (1 + std::fabs(g))) ) ex.fail("reported-g", fmt("constraint %d: %.15g reported, value at the reported point is %.15g", j, r.g[j], g)); }
   SmartPtr<SolveStatistics> st = S.run.app->Statistics();
   if( IsNull(st) ) ex.fail("iteration-count", "no statistics");
   int it = st->IterationCount();
   if( it != S.t->iters.back().iter && !(S.t->iters.back().mode && it == S.t->iters.back().iter - 1) ) ex.fail("iteration-count", fmt("statistics report %d iterations, the last one was %d", it, S.t->iters.back().iter));
}

int main(int argc, char** argv)
{
   mc::Explorer ex;
   return ex.main(argc, argv, [](mc::Explorer& e) { body(e); });
}
