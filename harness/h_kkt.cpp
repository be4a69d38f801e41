// C01: every reported success is a KKT point of the user's problem.
#include "families.hpp"
#include "dense.hpp"
using namespace Ipopt;
using mc::fmt;

struct Treat { const char* name; const char* val; int flags; };
// flags: 1 no duals for fixed variables; 2 looser bounds (1e-4); 4 first-order Hessian; 8 finite differences; 16 needs linear family; 32 loose
static const std::vector<tn::Opts>& treatments()
{
   static std::vector<tn::Opts> T = {
      {{"fixed_variable_treatment", "make_constraint"}}, {{"fixed_variable_treatment", "relax_bounds"}}, {{"fixed_variable_treatment", "make_parameter_nodual"}},
      {{"bound_relax_factor", "0"}}, {{"bound_relax_factor", "1e-4"}}, {{"honor_original_bounds", "yes"}},
      {{"mu_strategy", "adaptive"}}, {{"mu_strategy", "adaptive"}, {"mu_oracle", "probing"}}, {{"mu_strategy", "adaptive"}, {"mu_oracle", "loqo"}},
      {{"mu_strategy", "adaptive"}, {"adaptive_mu_globalization", "kkt-error"}}, {{"mu_strategy", "adaptive"}, {"adaptive_mu_globalization", "never-monotone-mode"}},
      {{"hessian_approximation", "limited-memory"}}, {{"hessian_approximation", "limited-memory"}, {"limited_memory_update_type", "sr1"}},
      {{"nlp_scaling_method", "none"}}, {{"nlp_scaling_max_gradient", "0.1"}}, {{"obj_scaling_factor", "0.01"}},
      {{"linear_system_scaling", "none"}}, {{"linear_system_scaling", "slack-based"}},
      {{"line_search_method", "penalty"}}, {{"line_search_method", "cg-penalty"}}, {{"accept_every_trial_step", "yes"}},
      {{"least_square_init_primal", "yes"}, {"least_square_init_duals", "yes"}}, {{"recalc_y", "yes"}}, {{"bound_mult_init_method", "mu-based"}},
      {{"warm_start_init_point", "yes"}}, {{"start_with_resto", "yes"}}, {{"expect_infeasible_problem", "yes"}},
      {{"alpha_for_y", "bound-mult"}}, {{"alpha_for_y", "min"}}, {{"alpha_for_y", "full"}}, {{"alpha_for_y", "min-dual-infeas"}}, {{"alpha_for_y", "primal-and-full"}}, {{"alpha_for_y", "safer-min-dual-infeas"}},
      {{"corrector_type", "affine"}}, {{"corrector_type", "primal-dual"}}, {{"mehrotra_algorithm", "yes"}}, {{"perturb_always_cd", "yes"}},
      {{"gradient_approximation", "finite-difference-values"}}, {{"jacobian_approximation", "finite-difference-values"}},
      {{"max_soc", "0"}}, {{"soc_method", "1"}}, {{"kappa_sigma", "1e2"}}, {{"bound_push", "0.3"}, {"bound_frac", "0.3"}}, {{"bound_push", "1e-8"}, {"bound_frac", "1e-8"}},
      {{"kappa_d", "0"}}, {{"s_max", "1"}}, {{"mu_init", "1e-4"}}, {{"mu_init", "10"}}, {{"slack_move", "0"}}, {{"constr_mult_init_max", "0"}},
      {{"dependency_detector", "mumps"}}, {{"replace_bounds", "yes"}}, {{"check_derivatives_for_naninf", "yes"}}, {{"magic_steps", "yes"}},
      {{"watchdog_shortened_iter_trigger", "1"}}, {{"fast_step_computation", "yes"}}, {{"neg_curv_test_tol", "1e-11"}}, {{"tol", "1e-4"}}, {{"mu_allow_fast_monotone_decrease", "no"}},
      {{"constraint_violation_norm_type", "max-norm"}}, {{"limited_memory_aug_solver", "extended"}, {"hessian_approximation", "limited-memory"}}, {{"soft_resto_pderror_reduction_factor", "0"}},
      {{"obj_max_inc", "1.1"}}, {{"filter_reset_trigger", "1"}}, {{"derivative_test", "first-order"}}, {{"quality_function_norm_type", "max-norm"}, {"mu_strategy", "adaptive"}},
   };
   return T;
}

static bool has(const tn::Opts& o, const char* n, const char* v) { for( auto& kv : o ) if( kv.first == n && (!v || kv.second == v) ) return true; return false; }

static void body(mc::Explorer& ex)
{
   fam::Shape s;
   sp::Problem p;
   std::string what;
   bool treat = true;
   if( ex.mode == "special" )
   {
      int k = ex.choose(fam::NSPECIAL);
      p = fam::special(k);
      what = fmt("special%d", k);
   }
   else
   {
      bool big = ex.mode == "big";
      s = big ? fam::chooseShape(ex, 3, 3, 1, 2, {0, 1, 2}) : fam::chooseShape(ex, 1, 2, 0, 2, {0, 1, 2, 3});
      if( !ex.thorough && ex.mode != "mumps" )
      {
         // quick: one representative per multiset of bound kinds and of constraint kinds for the treatments
         bool sorted = true;
         for( int i = 0; i + 1 < s.n; ++i ) sorted &= s.b[i] <= s.b[i + 1];
         for( int j = 0; j + 1 < s.m; ++j ) sorted &= s.c[j] <= s.c[j + 1];
         treat = sorted && (s.family == 1 || s.family == 3);
      }
      p = fam::make(s);
      what = fam::shapeStr(s);
   }
   ex.shardPoint();
   tn::Opts opts;
   const auto& T = treatments();
   // up to maxdev non-default treatments
   int last = 0;
   for( int d = 0; treat && d < ex.maxdev; ++d )
   {
      int k = ex.choose((int) T.size() + 1 - last);
      if( k == 0 ) break;
      last += k;
      opts.insert(opts.end(), T[last - 1].begin(), T[last - 1].end());
      if( last == (int) T.size() ) break;
   }
   ex.desc = what;
   for( auto& kv : opts ) ex.desc += " " + kv.first + "=" + kv.second;
   dn::Run run;
   dn::Hook hook;
   SmartPtr<IpoptApplication> app = run.app = tn::makeApp();
   run.hook = &hook;
   run.mumps = ex.mode == "mumps";
   hook.format = (s.n + s.m + s.family) % 5;
   app->Options()->SetIntegerValue("max_iter", 200);
   for( auto& kv : opts ) if( !tn::setOpt(*app, kv.first, kv.second) ) ex.fail("option-refused", kv.first);
   if( app->Initialize("") != Solve_Succeeded ) ex.fail("initialize", "Initialize failed");
   SmartPtr<tn::Spec> t = new tn::Spec(p);
   ApplicationReturnStatus st = run.solve(GetRawPtr(t));
   if( !hook.err.empty() ) ex.fail("solver-interface", hook.err);
   ex.count(fmt("status_%d", (int) st));
   if( getenv("KKT_DIAG") && (st == -100 || st == -12 || st == -3) ) ex.count(fmt("diag %d %s", (int) st, opts.empty() ? "" : (opts[0].first + "=" + opts[0].second).c_str()));
   if( !t->err.empty() ) ex.fail("protocol", t->err);
   mc::Hash h;
   h.i(st);
   for( double v : t->res.x ) h.dr(v, 1e-4);
   for( double v : t->res.lam ) h.dr(v, 1e-3);
   for( int j = 0; j < s.m && ex.mode != "special"; ++j ) h.i(s.c[j]);
   ex.outcome(h.h);
   if( st != Solve_Succeeded && st != Solved_To_Acceptable_Level ) return;
   if( t->res.finals != 1 ) ex.fail("no-final-report", "success without final report");
   const tn::Result& r = t->res;
   if( r.status != tn::expectedFinal(st) ) ex.fail("final-status", fmt("returned %d, final report %d", (int) st, r.status));
   double brf = has(opts, "bound_relax_factor", "0") ? 0 : has(opts, "bound_relax_factor", "1e-4") ? 1e-4 : 1e-8;
   if( has(opts, "tol", "1e-4") || brf > 1e-5 ) {}
   sp::KktOpt ko;
   ko.bound_slack = has(opts, "honor_original_bounds", nullptr) && !has(opts, "replace_bounds", nullptr) ? 0 : brf;
   ko.skip_fixed_stat = has(opts, "fixed_variable_treatment", "make_parameter_nodual") || has(opts, "jacobian_approximation", nullptr);   // derivatives for fixed variables are not available from finite differences
   double tol = 2e-6;
   if( st == Solved_To_Acceptable_Level ) tol = 1e-2;
   ko.lamtol = tol;
   sp::Kkt k = sp::kkt(p, r.x.data(), r.zl.data(), r.zu.data(), r.lam.data(), r.g.data(), r.f, ko);
   double mult = 1;
   for( const sp::V* v : {&r.zl, &r.zu, &r.lam} ) for( double d : *v ) mult = std::max(mult, std::fabs(d));
   if( has(opts, "tol", "1e-4") ) tol = 1e-2;
   if( has(opts, "obj_scaling_factor", nullptr) || has(opts, "nlp_scaling_max_gradient", nullptr) ) tol *= 100;
   double tolc = tol;
   if( brf == 1e-4 || has(opts, "replace_bounds", nullptr) ) tolc = std::max(tolc, 2e-4);
   if( has(opts, "gradient_approximation", nullptr) ) tol = std::max(tol, 1e-4);
   if( has(opts, "jacobian_approximation", nullptr) ) tol = std::max(tol, 1e-4);
   bool depdet = has(opts, "dependency_detector", nullptr);
   auto chk = [&](const char* key, double v, double t_) {
      if( !(v <= t_) )
      {
         std::string xs;
         for( size_t i = 0; i < r.x.size(); ++i ) xs += fmt(" x%zu=%.9g zl=%.3g zu=%.3g", i, r.x[i], r.zl[i], r.zu[i]);
         for( size_t j = 0; j < r.lam.size(); ++j ) xs += fmt(" g%zu=%.9g lam=%.3g", j, r.g[j], r.lam[j]);
         ex.fail(std::string("kkt-") + key, fmt("status %d: %s error %.3g > %.3g;%s; %s", (int) st, key, v, t_, xs.c_str(), p.str().c_str()));
      }
   };
   double vt = has(opts, "honor_original_bounds", nullptr) ? 1e-6 : 1e-10;
   chk("objective-value", k.fval, vt);
   chk("constraint-value", k.gval, vt);
   chk("bounds", k.bnd, has(opts, "replace_bounds", nullptr) ? 1e-6 : 1e-14);
   if( depdet && p.m >= 2 && !(p.g[0].linear() && p.g[1].linear()) && k.prim > 1e-6 )
   {
      // a constraint that was removed as "dependent" is not satisfied
      bool removed = false;
      for( int j = 0; j < p.m; ++j ) removed |= p.gl[j] == p.gu[j] && r.lam[j] == 0 && std::fabs(p.g[j].val(r.x.data()) - p.gl[j]) > 1e-6;
      if( removed ) ex.fail("dependent-constraint-dropped", fmt("status %d with violation %g of an equality constraint that was taken out as linearly dependent; %s", (int) st, k.prim, p.str().c_str()));
   }
   if( (has(opts, "jacobian_approximation", nullptr) || has(opts, "gradient_approximation", nullptr)) ) for( double v : r.x ) if( std::fabs(v) > 1e4 ) return;   // finite differences carry no information there
   // constraint values carry the rounding error of their terms when an unbounded problem took x to astronomic values
   double xm = 0;
   for( double v : r.x ) xm = std::max(xm, std::fabs(v));
   tol += 1e-15 * xm;
   tolc += 1e-15 * xm;
   chk("feasibility", k.prim, brf == 1e-4 ? 2e-4 : std::max(tol, 1e-6));
   chk("stationarity", k.stat, tol * mult * 2);
   chk("complementarity", k.compl_, tolc * mult * 2);
   chk("sign", k.sign, tol * 5);
   chk("absent-multiplier", k.absent, 0);
   chk("absent-constraint-multiplier", k.absentg, tol);
   ex.count("successes");
}

int main(int argc, char** argv)
{
   mc::Explorer ex;
   return ex.main(argc, argv, [](mc::Explorer& e) { body(e); });
}
