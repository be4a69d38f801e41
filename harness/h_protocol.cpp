// C03: callback protocol, single final report, agreement of statuses and statistics
#include "solvelib.hpp"

struct Ending { const char* name; std::function<void(Solve&)> set; };
static const std::vector<Ending>& endings()
{
   auto o = [](const char* n, const char* v) { return std::function<void(Solve&)>([=](Solve& s) { s.opt(n, v); }); };
   auto fl = [](int cb, int nth, int kind) { return std::function<void(Solve&)>([=](Solve& s) { s.t->fault = [=](int c, int k, const double*) { return c == cb && k >= nth ? kind : 0; }; }); };
   auto fl1 = [](int cb, int nth, int kind) { return std::function<void(Solve&)>([=](Solve& s) { s.t->fault = [=](int c, int k, const double*) { return c == cb && k == nth ? kind : 0; }; }); };
   auto ls = [](int nth, int code) { return std::function<void(Solve&)>([=](Solve& s) { s.hook.fault = [=](int k, bool, bool) { return k >= nth ? code : -1; }; }); };
   static std::vector<Ending> E = {
      {"max_iter=0", o("max_iter", "0")}, {"max_iter=1", o("max_iter", "1")}, {"max_iter=3", o("max_iter", "3")},
      {"stop at 0", fl(tn::C_ITER, 0, 1)}, {"stop at 1", fl(tn::C_ITER, 1, 1)}, {"stop at 3", fl(tn::C_ITER, 3, 1)},
      {"callback throws at 1", fl(tn::C_ITER, 1, 4)}, {"callback throws IpoptException at 2", fl(tn::C_ITER, 2, 5)},
      {"f fails", fl(tn::C_F, 0, 1)}, {"f throws at 2", fl(tn::C_F, 2, 4)}, {"grad NaN from 1", fl(tn::C_GRAD, 1, 2)}, {"g fails from 0", fl(tn::C_G, 0, 1)}, {"g NaN from 2", fl(tn::C_G, 2, 2)},
      {"jac throws at 1", fl(tn::C_JAC, 1, 5)}, {"jac fails at 0", fl(tn::C_JAC, 0, 1)}, {"hess fails at 1", fl(tn::C_HESS, 1, 1)}, {"hess NaN at 0", fl(tn::C_HESS, 0, 2)}, {"hess throws at 2", fl(tn::C_HESS, 2, 4)},
      {"f fails once at 1", fl1(tn::C_F, 1, 1)}, {"g fails once at 2", fl1(tn::C_G, 2, 1)},
      {"jac structure fails", fl(tn::C_JSTRUCT, 0, 1)}, {"hess structure fails", fl(tn::C_HSTRUCT, 0, 1)}, {"start fails", fl(tn::C_START, 0, 1)}, {"start NaN", fl(tn::C_START, 0, 2)},
      {"solver fails from 0", ls(0, SYMSOLVER_FATAL_ERROR)}, {"solver fails from 2", ls(2, SYMSOLVER_FATAL_ERROR)}, {"solver singular from 1", ls(1, SYMSOLVER_SINGULAR)}, {"solver wrong inertia from 3", ls(3, SYMSOLVER_WRONG_INERTIA)}, {"solver throws at 2", ls(2, 14)}, {"solver out of memory at 1", ls(1, 15)},
      {"cpu limit", o("max_cpu_time", "1e-12")}, {"wall limit", o("max_wall_time", "1e-12")}, {"acceptable", [](Solve& s) { s.opt("acceptable_tol", "10"); s.opt("acceptable_dual_inf_tol", "1e10"); s.opt("acceptable_constr_viol_tol", "10"); s.opt("acceptable_compl_inf_tol", "10"); s.opt("acceptable_iter", "1"); }},
      {"diverging", o("diverging_iterates_tol", "1e-3")}, {"loose tol", o("tol", "1e-1")},
      {"start_with_resto", o("start_with_resto", "yes")}, {"resto + max_iter", [](Solve& s) { s.opt("start_with_resto", "yes"); s.opt("max_iter", "1"); }}, {"resto + stop", [](Solve& s) { s.opt("start_with_resto", "yes"); s.t->fault = [](int c, int k, const double*) { return c == tn::C_ITER && k >= 1 ? 1 : 0; }; }},
      {"resto limit", [](Solve& s) { s.opt("start_with_resto", "yes"); s.opt("max_resto_iter", "0"); }}, {"skip final", o("skip_finalize_solution_call", "yes")},
      {"derivative test", o("derivative_test", "second-order")}, {"derivative test only hessian", o("derivative_test", "only-second-order")}, {"limited-memory", o("hessian_approximation", "limited-memory")}, {"limited-memory subspace", [](Solve& s) { s.opt("hessian_approximation", "limited-memory"); s.t->wantNonlin = true; s.t->nonlinVars = {0}; }},
      {"warm start", [](Solve& s) { s.opt("warm_start_init_point", "yes"); }}, {"user scaling", [](Solve& s) { s.opt("nlp_scaling_method", "user-scaling"); s.t->scaling = [](Number& o_, bool& ux, Index n, Number* x, bool& ug, Index m, Number* g) { o_ = 2; ux = ug = true; for( int i = 0; i < n; ++i ) x[i] = 2 + i; for( int j = 0; j < m; ++j ) g[j] = 0.5 + j; return true; }; }},
      {"make_constraint", o("fixed_variable_treatment", "make_constraint")}, {"relax_bounds", o("fixed_variable_treatment", "relax_bounds")}, {"nodual", o("fixed_variable_treatment", "make_parameter_nodual")},
      {"fd jacobian", o("jacobian_approximation", "finite-difference-values")}, {"fd gradient", o("gradient_approximation", "finite-difference-values")}, {"constant derivatives", [](Solve& s) { s.opt("check_derivatives_for_naninf", "yes"); }}, {"dependency", o("dependency_detector", "mumps")}, {"replace_bounds", o("replace_bounds", "yes")},
      {"grad constant", o("grad_f_constant", "yes")}, {"adaptive", o("mu_strategy", "adaptive")}, {"cg-penalty", o("line_search_method", "cg-penalty")}, {"mehrotra", o("mehrotra_algorithm", "yes")}, {"exact iterates honor", o("honor_original_bounds", "yes")}, {"fortran", [](Solve& s) { s.t->pr.fortran = true; }}, {"bad option", o("linear_solver", "ma27")},
      {"final throws", nullptr}, {"lsq init", [](Solve& s) { s.opt("least_square_init_primal", "yes"); s.opt("least_square_init_duals", "yes"); }}, {"dual inf limit", o("dual_inf_tol", "1e-300")}, {"tiny steps", [](Solve& s) { s.opt("tiny_step_tol", "1e20"); s.opt("tiny_step_y_tol", "1e20"); }}, {"mumps", [](Solve& s) { s.run.mumps = true; }},
   };
   return E;
}

static void body(mc::Explorer& ex)
{
   sp::Problem p;
   if( ex.mode == "special" )
   {
      int k = ex.choose(fam::NSPECIAL);
      p = fam::special(k);
      ex.desc = fmt("special%d", k);
   }
   else
   {
      fam::Shape s = fam::chooseShape(ex, 1, ex.thorough ? 3 : 2, 0, 2, {0, 2});
      p = fam::make(s);
      ex.desc = fam::shapeStr(s);
   }
   ex.shardPoint();
   Solve S(p);
   S.t->keepTrace = true;
   bool skipFinal = false, startNaN = false, wl = false, badSolver = false, finalThrows = false, usedLm = false, usedTest = false, usedFd = false;
   for( int d = 0; d < ex.maxdev; ++d )
   {
      int e = ex.deviate((int) endings().size() + 1);
      if( !e ) break;
      const Ending& E = endings()[e - 1];
      if( std::string(E.name) == "final throws" ) { finalThrows = true; S.t->onFinal = [](tn::Spec&) { throw IpoptException("final", "user", 1, "USER"); }; }
      else E.set(S);
      ex.desc += std::string(" | ") + E.name;
      skipFinal |= !strcmp(E.name, "skip final");
      startNaN |= !strcmp(E.name, "start NaN");
      wl |= !strcmp(E.name, "warm start");
      badSolver |= !strcmp(E.name, "bad option");
      usedLm |= !strncmp(E.name, "limited", 7);
      usedTest |= !strncmp(E.name, "derivative", 10);
      usedFd |= !strncmp(E.name, "fd ", 3);
   }
   if( badSolver ) S.run.mumps = true;
   for( size_t i = 0; i < S.opts.size(); ++i ) for( size_t j = 0; j < i; ++j ) if( S.opts[i].first == S.opts[j].first ) throw mc::Skip();
   bool replace = S.has("replace_bounds");
   S.opt("max_iter", S.has("max_iter") ? "2" : "150");
   if( S.opts.back().second == "2" ) S.opts.pop_back();
   // interleaved events, for the order of callbacks around iterations
   int atFinalEvals = -1;
   auto total = [&]() { int k = 0; for( int c : {tn::C_F, tn::C_GRAD, tn::C_G, tn::C_JAC, tn::C_HESS} ) k += S.t->cnt[c]; return k; };
   bool threw = false;
   try { S.go(); }
   catch( IpoptException& ) { threw = true; }
   catch( std::exception& e ) { ex.fail("exception", std::string("exception left the solve: ") + e.what()); }
   if( threw && !finalThrows ) ex.fail("exception", "IpoptException left the solve");
   (void) atFinalEvals;
   (void) total;
   tn::Spec& t = *S.t;
   ex.count(fmt("status_%d", (int) S.st));
   mc::Hash h;
   h.i(S.st);
   h.i(t.iters.size());
   h.i(t.res.status);
   for( int c : t.trace ) h.i(c);
   ex.outcome(h.h);
   if( !t.err.empty() && !(startNaN && t.err.find("non-finite x") == 0) ) ex.fail("protocol", t.err + fmt(" (status %d)", (int) S.st));
   if( !tn::documentedStatus(S.st) && !threw ) ex.fail("status", fmt("undocumented status %d", (int) S.st));
   int nit = t.cnt[tn::C_ITER];
   if( threw || finalThrows ) return;
   if( skipFinal ) { if( t.res.finals ) ex.fail("final-report", "final report although it was switched off"); }
   else
   {
      if( nit > 0 && t.res.finals != 1 ) ex.fail("final-report", fmt("%d final reports after %d iteration callbacks, status %d", t.res.finals, nit, (int) S.st));
      if( t.res.finals > 1 ) ex.fail("final-report", fmt("%d final reports", t.res.finals));
      if( (S.ok() || S.st == User_Requested_Stop || S.st == Maximum_Iterations_Exceeded) && t.res.finals != 1 ) ex.fail("final-report", fmt("no final report for status %d", (int) S.st));
      if( t.res.finals )
      {
         int want = tn::expectedFinal(S.st);
         if( want >= 0 && t.res.status != want ) ex.fail("final-status", fmt("returned %d but the final report carries %d", (int) S.st, t.res.status));
         if( !t.trace.empty() && t.trace.back() != tn::C_FINAL && t.trace.back() != tn::C_FINALMETA ) ex.fail("final-last", fmt("%s is called after the final report", tn::cbname(t.trace.back())));
      }
   }
   // order of first calls
   auto first = [&](int c) { for( size_t i = 0; i < t.trace.size(); ++i ) if( t.trace[i] == c ) return (int) i; return -1; };
   int fi = first(tn::C_INFO), fb = first(tn::C_BOUNDS), fs = first(tn::C_START), fjs = first(tn::C_JSTRUCT), fj = first(tn::C_JAC), fhs = first(tn::C_HSTRUCT), fh = first(tn::C_HESS);
   if( fi < 0 && S.st != Invalid_Option ) ex.fail("order", "get_nlp_info never called");
   if( fb >= 0 && fb < fi ) ex.fail("order", "get_bounds_info before get_nlp_info");
   if( fs >= 0 && fs < fb && !usedTest ) ex.fail("order", "get_starting_point before get_bounds_info");
   if( fj >= 0 && (fjs < 0 || fj < fjs) ) ex.fail("order", "Jacobian values before structure");
   if( fh >= 0 && (fhs < 0 || fh < fhs) ) ex.fail("order", "Hessian values before structure");
   if( nit > 0 && (fi < 0 || fb < 0 || fs < 0 || (p.m > 0 && fjs < 0 && !usedFd)) ) ex.fail("order", "iterations before the problem was asked for");
   if( t.cnt[tn::C_INFO] > 2 && !replace ) ex.fail("order", fmt("get_nlp_info called %d times", t.cnt[tn::C_INFO]));
   if( t.cnt[tn::C_JSTRUCT] > 2 ) ex.fail("order", fmt("Jacobian structure requested %d times", t.cnt[tn::C_JSTRUCT]));
   if( usedLm && fh >= 0 ) ex.fail("hessian-requested", "Hessian requested in limited-memory mode");
   if( S.has("jacobian_approximation") && fj >= 0 ) ex.fail("jacobian-requested", "Jacobian values requested although they are to be approximated");
   int nfix = 0;
   for( int i = 0; i < p.n; ++i ) nfix += p.xl[i] == p.xu[i];
   if( S.has("gradient_approximation") && t.cnt[tn::C_GRAD] && !nfix ) ex.fail("gradient-requested", "gradient requested although it is to be approximated");
   if( t.cnt[tn::C_SCALING] && !S.has("nlp_scaling_method", "user-scaling") ) ex.fail("scaling-requested", "scaling parameters requested although not to be used");
   if( (t.init_z_seen || t.init_lam_seen) && !wl ) ex.fail("multipliers-requested", "starting multipliers requested without warm start");
   if( t.cnt[tn::C_NNONLIN] && !usedLm && !S.has("hessian_approximation") ) ex.fail("nonlinear-requested", "nonlinear variables requested with exact Hessian");
   // iteration numbers
   for( size_t i = 0; i < t.iters.size(); ++i )
   {
      int want = i == 0 ? 0 : t.iters[i - 1].iter + 1;
      bool rep = i && t.iters[i].iter == t.iters[i - 1].iter && t.iters[i].mode != t.iters[i - 1].mode;
      if( t.iters[i].iter != want && !rep ) ex.fail("iteration-number", fmt("iteration callback %zu carries number %d", i, t.iters[i].iter));
   }
   // statistics
   SmartPtr<SolveStatistics> st = S.run.app->Statistics();
   bool needStats = nit > 0 && S.st > -10 && S.st != Internal_Error;
   if( needStats && !IsValid(st) ) ex.fail("statistics", fmt("no statistics for status %d", (int) S.st));
   if( !needStats && IsValid(st) && (S.st <= -10 && S.st != Invalid_Number_Detected && S.st != Internal_Error) ) ex.fail("statistics", fmt("statistics present for a solve ending with status %d", (int) S.st));
   if( IsValid(st) && nit > 0 )
   {
      if( st->IterationCount() != t.iters.back().iter && !(S.st == Infeasible_Problem_Detected || S.st == Restoration_Failed || S.st == Feasible_Point_Found || t.iters.back().mode) ) ex.fail("statistics-iterations", fmt("statistics report %d iterations, last iteration callback was %d (status %d)", (int) st->IterationCount(), t.iters.back().iter, (int) S.st));
      if( st->IterationCount() < t.iters.back().iter - (t.iters.back().mode ? 1 : 0) || st->IterationCount() > t.iters.back().iter + 1 ) ex.fail("statistics-iterations", fmt("statistics report %d iterations, last iteration callback was %d (status %d)", (int) st->IterationCount(), t.iters.back().iter, (int) S.st));
      Index nf, ng, ngr, nj, nh;
      st->NumberOfEvaluations(nf, ng, ngr, nj, nh);
      if( t.res.finals && !replace && !S.has("honor_original_bounds") && t.res.status != INTERNAL_ERROR && t.res.status != INVALID_NUMBER_DETECTED )
      {
         double f = p.f.val(t.res.x.data());
         if( !(std::fabs(st->FinalObjective() - t.res.f) <= 1e-12 * (1 + std::fabs(f))) ) ex.fail("statistics-objective", fmt("statistics objective %.15g, final report %.15g", (double) st->FinalObjective(), t.res.f));
         double du, cv, bv, co, kk;
         st->Infeasibilities(du, cv, bv, co, kk);
         double viol = 0, bviol = 0, gm = 1, xm = 0;
         for( double v : t.res.x ) xm = std::max(xm, std::fabs(v));
         for( int j = 0; j < p.m; ++j ) { double g = p.g[j].val(t.res.x.data()); gm = std::max(gm, std::fabs(g)); viol = std::max(viol, std::max(p.gl[j] - g, g - p.gu[j])); }
         int neq = 0;
         for( int j = 0; j < p.m; ++j ) neq += p.gl[j] == p.gu[j];
         bool fixedRelaxed = p.n - nfix < neq || S.has("fixed_variable_treatment", "relax_bounds") || S.has("fixed_variable_treatment", "make_constraint");
         for( int i = 0; i < p.n; ++i ) if( p.xl[i] != p.xu[i] || fixedRelaxed ) bviol = std::max(bviol, std::max(p.xl[i] - t.res.x[i], t.res.x[i] - p.xu[i]));
         if( S.has("fixed_variable_treatment", "make_constraint") ) for( int i = 0; i < p.n; ++i ) if( p.xl[i] == p.xu[i] ) viol = std::max(viol, std::fabs(t.res.x[i] - p.xl[i]));
         bool resto = !t.iters.empty() && t.iters.back().mode;
         if( gm < 1e8 && std::fabs(cv - viol) > 1.1e-4 * 1e-4 * std::max(1., gm) + 1e-8 * gm && !resto && !S.has("dependency_detector") ) ex.fail("statistics-violation", fmt("statistics constraint violation %.9g, violation of the final report %.9g", cv, viol));
         if( std::fabs(bv - bviol) > 1e-9 && !fixedRelaxed && xm < 1e8 ) ex.fail("statistics-bounds", fmt("statistics bound violation %.9g, violation of the final report %.9g", bv, bviol));
         // stationarity of the reported multipliers is what the statistics say
         if( !S.has("fixed_variable_treatment", "make_parameter_nodual") && gm < 1e8 && !usedFd && S.st >= 0 && !S.t->fault && !S.has("grad_f_constant") )
         {
            V g(p.n, 0.), J;
            p.f.grad(t.res.x.data(), g.data());
            p.jac(t.res.x.data(), J);
            double e = 0, sc = 1;
            for( int i = 0; i < p.n; ++i )
            {
               sc = std::max(sc, std::fabs(g[i]));
               for( int j = 0; j < p.m; ++j ) { g[i] += J[j * p.n + i] * t.res.lam[j]; sc = std::max(sc, std::fabs(J[j * p.n + i] * t.res.lam[j])); }
               e = std::max(e, std::fabs(g[i] - t.res.zl[i] + t.res.zu[i]));
            }
            if( e > du + 1e-8 * sc && e > 1e-8 * sc ) ex.fail("statistics-dual", fmt("statistics dual infeasibility %.9g, stationarity error of the final report %.9g", du, e));
         }
         if( !(kk >= 0) ) ex.fail("statistics-kkt", "negative overall error");
      }
      // evaluation counters: what the user saw, except for evaluations made by optional extras
      bool extras = usedTest || usedFd || replace || S.has("dependency_detector") || S.t->fault || S.hook.fault || S.has("honor_original_bounds") || S.has("grad_f_constant");
      if( !extras )
      {
         bool resto = false;
         for( auto& i : t.iters ) resto |= i.mode != 0;
         int cf = t.cnt[tn::C_F], cgr = t.cnt[tn::C_GRAD], cg = t.cnt[tn::C_G], ch = t.cnt[tn::C_HESS], cj = t.cnt[tn::C_JAC];
         if( nf != cf ) ex.fail("statistics-evals", fmt("statistics count %d objective evaluations, there were %d", (int) nf, cf));
         if( ngr > cgr || cgr > ngr + 3 ) ex.fail("statistics-evals", fmt("statistics count %d gradient evaluations, there were %d", (int) ngr, cgr));
         if( p.m && (ng > cg || cg > ng + 3) ) ex.fail("statistics-evals", fmt("statistics count %d constraint evaluations, there were %d", (int) ng, cg));
         if( p.m && (nj > cj || cj > nj + 3) ) ex.fail("statistics-evals", fmt("statistics count %d Jacobian evaluations, there were %d", (int) nj, cj));
         if( nh < ch || (nh != ch && !resto && !S.has("start_with_resto")) ) ex.fail("statistics-evals", fmt("statistics count %d Hessian evaluations, there were %d", (int) nh, ch));
         (void) resto;
      }
   }
}

int main(int argc, char** argv)
{
   mc::Explorer ex;
   return ex.main(argc, argv, [](mc::Explorer& e) { body(e); });
}
