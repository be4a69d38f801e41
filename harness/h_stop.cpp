// C05: a stop request of the user at every iteration callback
#include "solvelib.hpp"

static const std::vector<tn::Opts>& treatments()
{
   static std::vector<tn::Opts> T = {
      {}, {{"start_with_resto", "yes"}}, {{"mu_strategy", "adaptive"}}, {{"watchdog_shortened_iter_trigger", "1"}, {"alpha_red_factor", "0.9"}}, {{"line_search_method", "cg-penalty"}}, {{"hessian_approximation", "limited-memory"}},
      {{"fixed_variable_treatment", "make_constraint"}}, {{"fixed_variable_treatment", "relax_bounds"}}, {{"obj_scaling_factor", "-1"}}, {{"obj_scaling_factor", "0.01"}}, {{"nlp_scaling_method", "none"}}, {{"honor_original_bounds", "yes"}, {"bound_relax_factor", "1e-3"}},
      {{"replace_bounds", "yes"}}, {{"mehrotra_algorithm", "yes"}}, {{"expect_infeasible_problem", "yes"}, {"start_with_resto", "yes"}}, {{"dependency_detector", "mumps"}}, {{"derivative_test", "first-order"}}, {{"fixed_variable_treatment", "make_constraint"}, {"start_with_resto", "yes"}},
      {{"nlp_scaling_method", "gradient-based"}, {"nlp_scaling_max_gradient", "0.1"}, {"start_with_resto", "yes"}}, {{"accept_every_trial_step", "yes"}}, {{"magic_steps", "yes"}}, {{"soft_resto_pderror_reduction_factor", "0"}}, {{"print_level", "5"}}, {{"gradient_approximation", "finite-difference-values"}}, {{"nlp_scaling_method", "user-scaling"}}
   };
   return T;
}
struct Ev { int cb; uint64_t h; };
struct Log
{
   std::vector<Ev> ev;                 // evaluations, in order
   std::vector<size_t> at;             // number of evaluations before each iteration callback
   std::vector<Snap> snap;
   std::vector<V> pts;
   void attach(Solve& S, const sp::Problem& p, int stop, bool query)
   {
      S.t->onEval = [this, &p](int cb, const double* x, bool) { mc::Hash h; for( int i = 0; i < p.n; ++i ) h.d(x[i]); ev.push_back({cb, h.h}); pts.push_back(V(x, x + p.n)); };
      S.t->onIter = [this, stop, query](tn::Spec& t, const tn::Iter&, const IpoptData* d, IpoptCalculatedQuantities* q) {
         at.push_back(ev.size());
         if( query || (int) at.size() == stop + 1 ) snap.push_back(Snap(t, d, q));
         return (int) at.size() != stop + 1;
      };
   }
};

static void body(mc::Explorer& ex)
{
   sp::Problem p;
   std::string what;
   if( ex.mode == "special" )
   {
      int k = ex.choose(fam::NSPECIAL);
      p = fam::special(k);
      int sh = ex.choose(ex.thorough ? 4 : 2);
      static const double SH[] = {0, -2, 1.5, 0.5};
      for( double& v : p.x0 ) v += SH[sh];
      int fx = ex.choose(2);
      if( fx ) p.xl[0] = p.xu[0] = std::fabs(p.x0[0]) < 1e-9 ? 0.5 : std::max(0.02, p.x0[0]);
      what = fmt("special%d shift %g fix %d", k, SH[sh], fx);
   }
   else
   {
      fam::Shape s = fam::chooseShape(ex, 1, 2, 0, ex.thorough ? 2 : 1, {0, 2});
      p = fam::make(s);
      what = fam::shapeStr(s);
   }
   ex.shardPoint();
   int ti = ex.deviate((int) treatments().size());
   tn::Opts T = treatments()[ti];
   for( auto& kv : T ) what += " " + kv.first + "=" + kv.second;
   bool us = !T.empty() && T[0].second == "user-scaling";
   bool neg = !T.empty() && T[0].second == "-1";
   if( neg ) for( auto& t : p.f.t ) t.c = -t.c;
   T.push_back({"max_iter", ex.thorough ? "200" : "25"});
   auto scal = [](Number& o_, bool& ux, Index n, Number* x, bool& ug, Index m, Number* g) { o_ = 2; ux = ug = true; for( int i = 0; i < n; ++i ) x[i] = 2 + i; for( int j = 0; j < m; ++j ) g[j] = 0.5 + j; return true; };
   // undisturbed solve
   static std::string refFor;
   static Log ref;
   static std::vector<tn::Iter> refIters;
   static tn::Result refRes;
   static ApplicationReturnStatus refSt;
   if( refFor != what )
   {
      ref = Log();
      Solve R(p);
      R.opts = T;
      if( us ) R.t->scaling = scal;
      ref.attach(R, p, -1, true);
      R.go();
      refIters = R.t->iters;
      refRes = R.r();
      refSt = R.st;
      refFor = what;
   }
   int K = (int) ref.at.size();
   if( K == 0 ) throw mc::Skip();
   int k = ex.choose(K);
   int query = ex.thorough ? ex.choose(2) : k % 2;
   ex.desc = what + fmt(" stop at callback %d of %d (iteration %d, mode %d)", k, K, refIters[k].iter, refIters[k].mode);
   Solve S(p);
   S.opts = T;
   if( us ) S.t->scaling = scal;
   Log log;
   log.attach(S, p, k, query);
   bool statOk = true;
   int statIter = -1;
   S.go();
   SmartPtr<SolveStatistics> st = S.run.app->Statistics();
   if( IsValid(st) ) statIter = st->IterationCount();
   (void) statOk;
   const tn::Result& r = S.r();
   ex.count(fmt("mode_%d", refIters[k].mode));
   mc::Hash h;
   h.i(S.st);
   h.i(k);
   for( double v : r.x ) h.dr(v, 1e-5);
   ex.outcome(h.h);
   if( S.st != User_Requested_Stop ) ex.fail("status", fmt("stop requested, solve ended with status %d", (int) S.st));
   if( r.finals != 1 || r.status != USER_REQUESTED_STOP ) ex.fail("final", fmt("%d final reports with status %d", r.finals, r.status));
   if( (int) S.t->iters.size() != k + 1 ) ex.fail("goes-on", fmt("%zu iteration callbacks after a stop request at number %d", S.t->iters.size(), k));
   if( !S.t->err.empty() ) ex.fail("protocol", S.t->err);
   // same course up to the stop (queries evaluate nothing new at other points, but may evaluate earlier)
   if( !query || true )
   {
      for( int i = 0; i <= k; ++i ) if( memcmp(&S.t->iters[i].obj, &refIters[i].obj, 4 * sizeof(double)) || S.t->iters[i].iter != refIters[i].iter || S.t->iters[i].mode != refIters[i].mode ) ex.fail("other-course", fmt("iteration callback %d differs from that of the solve without stop", i));
      size_t nb = log.at[k];
      if( query && (nb != ref.at[k]) ) ex.fail("other-course", fmt("%zu evaluations before the stop, %zu without stop", nb, ref.at[k]));
      if( query ) for( size_t i = 0; i < nb; ++i ) if( log.ev[i].cb != ref.ev[i].cb || log.ev[i].h != ref.ev[i].h ) ex.fail("other-course", fmt("evaluation %zu differs", i));
   }
   const Snap& s = log.snap.back();
   const Snap& sr = ref.snap[k];
   bool rb = S.has("replace_bounds");     // there the queries are not available
   if( s.ok1 == rb ) ex.fail("query", "iterate query " + std::string(rb ? "succeeds" : "fails"));
   if( !s.ok1 && !rb ) ex.fail("query", "iterate query fails");
   if( !rb ) if( !bitEq(s.x, sr.x) || !bitEq(s.lam, sr.lam) || !bitEq(s.zl, sr.zl) || !bitEq(s.g, sr.g) ) ex.fail("other-iterate", "iterate at the stop differs from that of the solve without stop");
   // nothing but the reported point is evaluated afterwards
   for( size_t i = log.at[k]; i < log.ev.size(); ++i )
      if( S.has("gradient_approximation") ? !(maxAbsDiff(log.pts[i], s.x) < 1e-5) :  !bitEq(log.pts[i], r.x) && !bitEq(log.pts[i], s.x) ) ex.fail("evaluates-on", fmt("%s evaluated after the stop at a point other than the reported one", tn::cbname(log.ev[i].cb)));
   // the reported point
   if( rb ) { if( !std::count(log.pts.begin(), log.pts.begin() + log.at[k], r.x) ) ex.fail("reported-x", "the reported point was never evaluated"); }
   V x = rb ? r.x : s.x;
   bool honor = S.has("honor_original_bounds");
   if( honor ) for( int i = 0; i < p.n; ++i ) x[i] = std::min(std::max(x[i], p.xl[i]), p.xu[i]);
   if( !bitEq(x, r.x) ) ex.fail("reported-x", fmt("iterate at the stop:%s; reported: %s", s.str().c_str(), S.resStr().c_str()));
   auto near = [](const V& a, const V& b, double t) { for( size_t i = 0; i < a.size(); ++i ) if( !(std::fabs(a[i] - b[i]) <= t * (1 + std::fabs(a[i]))) ) return false; return true; };
   for( size_t j = 0; j < s.lam.size(); ++j ) if( s.lam[j] < -1e77 && S.has("dependency_detector") ) { const_cast<V&>(s.lam)[j] = r.lam[j]; if( r.lam[j] != 0 ) ex.fail("reported-lambda", "multiplier of a dropped constraint"); }
   if( !rb && !near(s.lam, r.lam, 1e-12) ) ex.fail("reported-lambda", fmt("iterate at the stop:%s; reported: %s", s.str().c_str(), S.resStr().c_str()));
   bool fixd = false;
   for( int i = 0; i < p.n; ++i ) fixd |= p.xl[i] == p.xu[i];
   if( !rb && !(honor && fixd) ) if( !near(s.zl, r.zl, 1e-9) || !near(s.zu, r.zu, 1e-9) ) ex.fail("reported-z", fmt("iterate at the stop:%s; reported: %s", s.str().c_str(), S.resStr().c_str()));
   const V& xv = honor ? s.x : r.x;      // documented: the values are for the non-projected point
   double f = p.f.val(xv.data());
   if( !(std::fabs(f - r.f) <= 1e-11 * (1 + std::fabs(f))) ) ex.fail("reported-f", fmt("objective %.15g reported, value at the reported point is %.15g", r.f, f));
   for( int j = 0; j < p.m; ++j ) { double g = p.g[j].val(xv.data()); if( !(std::fabs(g - r.g[j]) <= 1e-11 * (1 + std::fabs(g))) ) ex.fail("reported-g", fmt("constraint %d: %.15g reported, value at the reported point is %.15g", j, r.g[j], g)); }
   if( statIter != S.t->iters.back().iter && !(refIters[k].mode && statIter == S.t->iters.back().iter - 1) ) ex.fail("iteration-count", fmt("statistics report %d iterations, stop was at iteration %d", statIter, S.t->iters.back().iter));
   // the application remains usable
   if( k == 0 || k == K - 1 || k == K / 2 )
   {
      Log l2;
      S.t->reset();
      l2.attach(S, p, -1, true);
      ApplicationReturnStatus s2 = S.run.solve(GetRawPtr(S.t));
      if( s2 != refSt || !sameResult(S.r(), refRes) ) ex.fail("next-solve", fmt("the solve after the stopped one ends with status %d; %s", (int) s2, S.resStr().c_str()));
   }
}

int main(int argc, char** argv)
{
   mc::Explorer ex;
   return ex.main(argc, argv, [](mc::Explorer& e) { body(e); });
}
