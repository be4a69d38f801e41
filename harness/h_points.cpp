// C06: where and how the user's functions are evaluated
#include "solvelib.hpp"

static const std::vector<tn::Opts>& treatments()
{
   static std::vector<tn::Opts> T = {
      {{"bound_relax_factor", "0"}}, {{"bound_relax_factor", "1e-2"}, {"constr_viol_tol", "1e-2"}}, {{"bound_relax_factor", "1"}}, {{"bound_relax_factor", "0"}, {"start_with_resto", "yes"}}, {{"honor_original_bounds", "yes"}, {"bound_relax_factor", "1e-3"}},
      {{"fixed_variable_treatment", "make_constraint"}}, {{"fixed_variable_treatment", "relax_bounds"}}, {{"fixed_variable_treatment", "make_parameter_nodual"}}, {{"fixed_variable_treatment", "relax_bounds"}, {"bound_relax_factor", "1e-3"}},
      {{"start_with_resto", "yes"}}, {{"mu_strategy", "adaptive"}}, {{"mu_strategy", "adaptive"}, {"adaptive_mu_globalization", "never-monotone-mode"}}, {{"line_search_method", "cg-penalty"}}, {{"line_search_method", "penalty"}}, {{"hessian_approximation", "limited-memory"}},
      {{"accept_every_trial_step", "yes"}}, {{"mehrotra_algorithm", "yes"}}, {{"corrector_type", "affine"}}, {{"corrector_type", "primal-dual"}}, {{"max_soc", "0"}}, {{"watchdog_shortened_iter_trigger", "1"}}, {{"magic_steps", "yes"}},
      {{"expect_infeasible_problem", "yes"}}, {{"recalc_y", "yes"}}, {{"least_square_init_primal", "yes"}}, {{"least_square_init_duals", "yes"}}, {{"bound_push", "1e-20"}, {"bound_frac", "1e-20"}}, {{"slack_bound_push", "1e-20"}, {"slack_bound_frac", "1e-20"}}, {{"tau_min", "0.999999"}}, {{"slack_move", "1e-2"}},
      {{"nlp_scaling_method", "none"}}, {{"nlp_scaling_method", "equilibration-based"}}, {{"obj_scaling_factor", "-1"}}, {{"user-scaling", "neg"}}, {{"user-scaling", "tiny"}}, {{"dependency_detector", "mumps"}}, {{"warm_start_init_point", "yes"}}, {{"replace_bounds", "yes"}},
      {{"check_derivatives_for_naninf", "yes"}}, {{"alpha_for_y", "full"}}, {{"alpha_for_y", "dual-and-full"}}, {{"skip_corr_in_monotone_mode", "no"}, {"corrector_type", "affine"}}, {{"kappa_d", "0"}}, {{"max_filter_resets", "0"}}, {{"evaluate_orig_obj_at_resto_trial", "no"}}, {{"theta_max_fact", "1e-10"}},
      {{"soft_resto_pderror_reduction_factor", "0"}}, {{"limited_memory_aug_solver", "extended"}, {"hessian_approximation", "limited-memory"}}, {{"hessian_approximation_space", "all-variables"}, {"hessian_approximation", "limited-memory"}}, {{"jac_c_constant", "maybe"}}, {{"jac_d_constant", "maybe"}}, {{"grad_f_constant", "maybe"}}, {{"hessian_constant", "maybe"}}, {{"all_constant", "maybe"}},
      {{"derivative_test", "second-order"}}, {{"derivative_test", "first-order"}, {"point_perturbation_radius", "0"}}, {{"nlp_lower_bound_inf", "-3"}}, {{"constr_viol_tol", "1e-12"}, {"bound_relax_factor", "1e-3"}}, {{"linear_system_scaling", "slack-based"}}, {{"inf_pr_output", "internal"}}
   };
   return T;
}

/** a user who relies on new_x: recomputes only when told so */
struct Lazy : public tn::Spec
{
   V cx;
   explicit Lazy(const sp::Problem& p) : tn::Spec(p) { }
   const double* upd(Index n, const double* x, bool nx) { if( nx ) cx.assign(x, x + n); return cx.data(); }
   bool eval_f(Index n, const Number* x, bool nx, Number& v) override { x = upd(n, x, nx); return tn::Spec::eval_f(n, x, nx, v); }
   bool eval_grad_f(Index n, const Number* x, bool nx, Number* g) override { x = upd(n, x, nx); return tn::Spec::eval_grad_f(n, x, nx, g); }
   bool eval_g(Index n, const Number* x, bool nx, Index m, Number* g) override { x = upd(n, x, nx); return tn::Spec::eval_g(n, x, nx, m, g); }
   bool eval_jac_g(Index n, const Number* x, bool nx, Index m, Index ne, Index* r, Index* c, Number* v) override { if( v ) x = upd(n, x, nx); return tn::Spec::eval_jac_g(n, x, nx, m, ne, r, c, v); }
   bool eval_h(Index n, const Number* x, bool nx, Number of, Index m, const Number* l, bool nl, Index ne, Index* r, Index* c, Number* v) override { if( v ) x = upd(n, x, nx); return tn::Spec::eval_h(n, x, nx, of, m, l, nl, ne, r, c, v); }
};

static void body(mc::Explorer& ex)
{
   sp::Problem p;
   std::string what;
   static const double SH[] = {0, -2, 1.5, 20};
   if( ex.mode == "special" )
   {
      int k = ex.choose(fam::NSPECIAL);
      p = fam::special(k);
      int sh = ex.choose(4);
      for( double& v : p.x0 ) v += SH[sh];
      int fx = ex.choose(p.n + 1);
      if( fx ) { int i = fx - 1; p.xl[i] = p.xu[i] = std::fabs(p.x0[i]) < 1e-9 ? 0.5 : std::max(0.02, p.x0[i]); if( i % 2 ) p.xl[i] = p.xu[i] = 0.1 + 0.2; }
      what = fmt("special%d shift %g fix %d", k, SH[sh], fx - 1);
   }
   else
   {
      fam::Shape s = fam::chooseShape(ex, 1, ex.thorough ? 3 : 2, 0, ex.thorough ? 2 : 1, {1, 3});
      p = fam::make(s);
      what = fam::shapeStr(s);
      int sh = ex.choose(2);
      if( sh ) { for( double& v : p.x0 ) v += 3; what += " start outside"; }
   }
   ex.shardPoint();
   tn::Opts T;
   for( int d = 0; d < ex.maxdev; ++d )
   {
      size_t o = ex.deviate((int) treatments().size() + 1);
      if( !o ) break;
      for( auto& kv : treatments()[o - 1] ) { for( auto& q : T ) if( q.first == kv.first ) throw mc::Skip(); T.push_back(kv); }
   }
   for( auto& kv : T ) what += " " + kv.first + "=" + kv.second;
   ex.desc = what;
   tn::Opts O;
   std::string us, fvt = "make_parameter";
   double brf = 1e-8, cvt = 1e-4;
   bool cg = false, cc = false, cd = false, ch = false, replace = false, honor = false, dtest = false, radius0 = true, eqs = false, depdet = false;
   // linear equalities/inequalities, objective and Lagrangian as declared
   bool linC = true, linD = true, linF = p.f.linear(), quad = p.f.quadratic();
   int neq = 0, nfix = 0;
   for( int j = 0; j < p.m; ++j ) { bool eq = p.gl[j] == p.gu[j]; neq += eq; (eq ? linC : linD) &= p.g[j].linear(); quad &= p.g[j].linear(); }
   for( int i = 0; i < p.n; ++i ) nfix += p.xl[i] == p.xu[i];
   for( auto& kv : T )
   {
      if( kv.first == "user-scaling" ) { us = kv.second; O.push_back({"nlp_scaling_method", "user-scaling"}); continue; }
      if( kv.second == "maybe" )
      {
         auto on = [&](const char* n, bool cond, bool& flag) { if( cond && (kv.first == n || kv.first == "all_constant") ) { flag = true; O.push_back({n, "yes"}); } };
         on("jac_c_constant", linC, cc);
         on("jac_d_constant", linD, cd);
         on("grad_f_constant", linF, cg);
         on("hessian_constant", quad, ch);
         continue;
      }
      if( kv.first == "bound_relax_factor" ) brf = atof(kv.second.c_str());
      if( kv.first == "constr_viol_tol" ) cvt = atof(kv.second.c_str());
      if( kv.first == "fixed_variable_treatment" ) fvt = kv.second;
      if( kv.first == "replace_bounds" ) replace = true;
      if( kv.first == "honor_original_bounds" ) honor = true;
      if( kv.first == "derivative_test" ) dtest = true;
      if( kv.first == "dependency_detector" ) depdet = true;
      if( kv.first == "nlp_scaling_method" && kv.second == "equilibration-based" ) eqs = true;
      O.push_back(kv);
   }
   (void) honor;
   (void) radius0;
   O.push_back({"max_iter", "60"});
   bool asParam = fvt == "make_parameter" || fvt == "make_parameter_nodual";
   bool maybeRelaxed = asParam && nfix > 0 && neq > p.n - nfix;    // documented: fixed variables get relaxed bounds then
   if( maybeRelaxed ) asParam = false;
   tn::Result res[2];
   uint64_t hs[2];
   ApplicationReturnStatus st[2];
   std::string bad, badKey;
   long nev = 0;
   for( int lazy = 0; lazy < 2; ++lazy )
   {
      Solve S(p);
      if( lazy ) S.t = new Lazy(S.p);
      for( auto& kv : O ) if( kv.second == "user-scaling" || true ) S.opts.push_back(kv);
      if( !us.empty() ) S.t->scaling = [us](Number& o_, bool& ux, Index n, Number* x, bool& ug, Index m, Number* g) { o_ = us == "neg" ? -2 : 1e-3; ux = ug = true; for( int i = 0; i < n; ++i ) x[i] = us == "neg" ? 3 - 0.5 * i : 1e-3 * (i + 1); for( int j = 0; j < m; ++j ) g[j] = 0.1 + j; return true; };
      if( us == "neg" ) for( auto& t : S.p.f.t ) t.c = -t.c;
      mc::Hash h;
      bool iterating = false;
      int perCb[tn::NCB] = {0};
      S.t->onIter = [&](tn::Spec& t, const tn::Iter& it, const IpoptData*, IpoptCalculatedQuantities*) { iterating = true; h.i(it.mode); h.d(it.obj); h.d(it.inf_pr); h.d(it.inf_du); return true; };
      S.t->onEval = [&](int cb, const double* x, bool) {
         ++nev;
         ++perCb[cb];
         h.i(cb);
         for( int i = 0; i < p.n; ++i ) h.d(x[i]);
         if( !bad.empty() ) return;
         if( !iterating && (dtest || depdet) ) return;      // the derivative checker and the dependency detector perturb
         bool isStart = !iterating;
         if( isStart ) for( int i = 0; i < p.n; ++i ) if( x[i] != p.x0[i] && !(p.xl[i] == p.xu[i] && x[i] == p.xl[i]) ) isStart = false;
         for( int i = 0; i < p.n && !replace; ++i )
         {
            bool fx = p.xl[i] == p.xu[i];
            if( fx && asParam )
            {
               if( x[i] != p.xl[i] ) { bad = fmt("%s: fixed variable %d has value %.17g instead of %.17g", tn::cbname(cb), i, x[i], p.xl[i]); badKey = "fixed"; }
               continue;
            }
            if( fx && fvt == "make_constraint" ) continue;
            if( isStart || (!iterating && (dtest || eqs)) ) continue;      // the user's own starting point
            double rel = std::min(cvt, brf * std::max(1., std::fabs(p.xl[i]))), reu = std::min(cvt, brf * std::max(1., std::fabs(p.xu[i])));
            // slacks are pushed away from the bounds, moving the bound by a tiny amount (slack_move)
            double sm = (us == "tiny" ? 1e-6 : 1e-10) * std::max(1., std::fabs(x[i]));
            for( auto& kv : O ) if( kv.first == "slack_move" ) sm = 4e-2 * std::max(1., std::fabs(x[i]));
            if( p.xl[i] > -1e19 && !(x[i] >= p.xl[i] - rel - 1e-15 * std::fabs(p.xl[i]) - sm) ) { bad = fmt("%s: x[%d]=%.17g below its bound %g by %.3g", tn::cbname(cb), i, x[i], p.xl[i], p.xl[i] - x[i]); badKey = "bounds"; }
            if( p.xu[i] < 1e19 && !(x[i] <= p.xu[i] + reu + 1e-15 * std::fabs(p.xu[i]) + sm) ) { bad = fmt("%s: x[%d]=%.17g above its bound %g by %.3g", tn::cbname(cb), i, x[i], p.xu[i], x[i] - p.xu[i]); badKey = "bounds"; }
         }
      };
      S.go();
      if( !bad.empty() ) ex.fail(badKey, bad + "; " + S.p.str());
      if( !S.t->err.empty() ) ex.fail(S.t->err.find("new_") != std::string::npos ? "new_x" : "protocol", S.t->err);
      res[lazy] = S.r();
      st[lazy] = S.st;
      h.i(S.st);
      hs[lazy] = h.h;
      // constant functions are evaluated once
      int most = S.has("nlp_scaling_method", "none") ? 1 : 2;      // scaling factors are computed before
      if( !dtest && st[lazy] != Internal_Error )
      {
         if( cg && perCb[tn::C_GRAD] > (fvt == "make_parameter" && nfix ? 1e9 : most) ) ex.fail("constant-gradient", fmt("gradient declared constant is evaluated %d times", perCb[tn::C_GRAD]));
         bool hasEq = neq > 0 || (fvt == "make_constraint" && nfix), hasIn = neq < p.m || replace;
         if( (cc || !hasEq) && (cd || !hasIn) && (cc || cd) && perCb[tn::C_JAC] > most + (fvt == "make_parameter" && nfix ? 1000000 : 0) && !S.has("dependency_detector") ) ex.fail("constant-jacobian", fmt("Jacobian declared constant is evaluated %d times", perCb[tn::C_JAC]));
         if( ch && perCb[tn::C_HESS] > 1 ) ex.fail("constant-hessian", fmt("Hessian declared constant is evaluated %d times", perCb[tn::C_HESS]));
      }
   }
   ex.count("evaluations", nev);
   ex.count(fmt("status_%d", (int) st[0]));
   ex.outcome(hs[0]);
   if( hs[0] != hs[1] || st[0] != st[1] || !sameResult(res[0], res[1]) ) ex.fail("lazy-user", fmt("a user that recomputes only if new_x is set gets status %d instead of %d or other evaluations", (int) st[1], (int) st[0]));
   // declaring constant what is constant changes nothing
   if( (cg || cc || cd || ch) )
   {
      Solve S(p);
      for( auto& kv : O ) if( kv.first.find("_constant") == std::string::npos ) S.opts.push_back(kv);
      S.go();
      bool same = S.st == st[0] && maxAbsDiff(S.r().x, res[0].x) <= 1e-6 && maxAbsDiff(S.r().lam, res[0].lam) <= 1e-5;
      if( T.size() == 1 && !same ) ex.fail("constant-changes", fmt("declaring constant what is constant changes the result: status %d x0 %.12g instead of status %d, %s", (int) st[0], res[0].x.empty() ? 0. : res[0].x[0], (int) S.st, S.resStr().c_str()));
   }
}

int main(int argc, char** argv)
{
   mc::Explorer ex;
   return ex.main(argc, argv, [](mc::Explorer& e) { body(e); });
}
