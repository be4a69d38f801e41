// C02: solvable problems are solved, unsolvable ones never called solved
#include "solvelib.hpp"

static void convex(mc::Explorer& ex)
{
   fam::Shape s = fam::chooseShape(ex, 1, ex.thorough ? 3 : 2, 0, 2, {0});
   sp::Problem p = fam::make(s);
   ex.shardPoint();
   static const double ST[][4] = {{0.1, 0.9, 0.6, -0.2}, {0, 0, 0, 0}, {10, -10, 10, 10}, {-0.5, 1.2, -0.5, 1.2}, {-1e4, 1e4, 3e3, 7}, {1.2, -0.5, 1.2, 1.2}, {1e-9, -1e-9, 5e-1, 0}};
   int k = ex.choose(7);
   for( int i = 0; i < p.n; ++i ) p.x0[i] = ST[k][i];
   int linsol = ex.choose(2);     // dense or MUMPS
   int mode = ex.choose(4);
   Solve S(p);
   S.run.mumps = linsol;
   S.hook.format = (int) (ex.evals % 5);
   if( mode == 1 ) S.opt("mu_strategy", "adaptive");
   if( mode == 2 ) S.opt("fixed_variable_treatment", "make_constraint");
   if( mode == 3 ) S.opt("mehrotra_algorithm", "yes");
   if( linsol && (mode || k > 2) && !ex.thorough ) throw mc::Skip();
   if( mode && k != 0 && k != 4 && !ex.thorough ) throw mc::Skip();
   ex.desc = fam::shapeStr(s) + fmt(" start %d mode %d mumps %d", k, mode, linsol);
   S.go();
   ex.count(fmt("status_%d", (int) S.st));
   int neq = 0, nfree = 0;
   for( int j = 0; j < p.m; ++j ) neq += p.gl[j] == p.gu[j];
   for( int i = 0; i < p.n; ++i ) nfree += p.xl[i] != p.xu[i];
   if( !S.t->err.empty() ) ex.fail("protocol", S.t->err);
   ex.outcome(S.hash());
   V xo;
   if( !qpMinimizer(p, xo) ) ex.fail("oracle", "no minimizer found by the oracle for " + p.str());
   bool square = neq >= nfree;
   if( neq > nfree && S.st == Not_Enough_Degrees_Of_Freedom ) { ex.count("too-few-dof"); return; }
   if( neq > nfree && !S.ok() ) { ex.count("overdetermined-unsolved"); if( S.st == Infeasible_Problem_Detected && violation(p, S.r().x) < 1e-9 ) ex.fail("infeasible-at-feasible", S.resStr()); return; }
   if( !S.ok() && mode != 3 && !(square && nfree == 0) )
   {
      // with redundant active constraints the multipliers are not unique and the last systems arbitrarily ill-conditioned: giving up at the minimizer itself is no wrong verdict
      int nact = 0;
      for( int i = 0; i < p.n; ++i ) nact += p.xl[i] != p.xu[i] && (std::fabs(xo[i] - p.xl[i]) < 1e-6 || std::fabs(xo[i] - p.xu[i]) < 1e-6);
      for( int j = 0; j < p.m; ++j ) { double g = p.g[j].val(xo.data()); nact += std::fabs(g - p.gl[j]) < 1e-6 || std::fabs(g - p.gu[j]) < 1e-6; }
      bool degenerate = nact > nfree;
      if( !(degenerate && (mode == 1 || !linsol) && S.r().x.size() && maxAbsDiff(S.r().x, xo) < 1e-5) ) ex.fail("not-solved", S.resStr() + "; " + p.str());
      ex.count("gave-up-at-minimizer");
   }
   if( !S.ok() ) return;
   double d = 0, sc = 1;
   for( int i = 0; i < p.n; ++i ) { d = std::max(d, std::fabs(S.r().x[i] - xo[i])); sc = std::max(sc, std::fabs(xo[i])); }
   if( !(d <= 3e-4 * sc) ) ex.fail("not-minimizer", fmt("distance %g to the minimizer (x0*=%.9g); ", d, xo[0]) + S.resStr() + "; " + p.str());
   if( neq <= nfree ) requireKkt(ex, S, 1, "kkt");
}

static void infeasible(mc::Explorer& ex)
{
   int k = ex.choose(12);
   sp::Problem p;
   using namespace sp;
   switch( k )
   {
      case 0: p = fam::special(0); break;
      case 1: p = fam::special(3); break;
      case 2: p.resize(1, 1); p.f.add(1, PROD, 0, 0); p.g[0].add(1, EXP, 0); p.gu[0] = -0.5; p.x0 = {0.5}; break;
      case 3: p.resize(2, 2); p.f.add(1, LIN, 0); p.g[0].add(1, LIN, 0).add(1, LIN, 1); p.g[1].add(2, LIN, 0).add(2, LIN, 1); p.gl[0] = p.gu[0] = 1; p.gl[1] = p.gu[1] = 3; break;
      case 4: p.resize(2, 1); p.f.add(1, LIN, 0); p.g[0].add(1, LIN, 0).add(1, LIN, 1); p.gl[0] = 5; p.xl = {0, 0}; p.xu = {1, 1}; p.x0 = {0.5, 0.5}; break;
      case 5: p.resize(2, 1); p.f.add(1, PROD, 0, 0).add(1, PROD, 1, 1); p.g[0].add(1, PROD, 0, 0).add(1, PROD, 1, 1); p.gu[0] = -1; p.x0 = {1, 2}; break;
      case 6: p.resize(1, 2); p.f.add(1, LIN, 0); p.g[0].add(1, PROD, 0, 0); p.gu[0] = 1; p.g[1].add(1, LIN, 0); p.gl[1] = 2; p.x0 = {0}; break;
      case 7: p.resize(2, 2); p.f.add(1, LIN, 0); p.g[0].add(1, PROD, 0, 1); p.gl[0] = p.gu[0] = 1; p.g[1].add(1, LIN, 0).add(1, LIN, 1); p.gl[1] = p.gu[1] = 0; p.x0 = {1, -2}; break;
      case 8: p.resize(1, 1); p.f.add(1, LIN, 0); p.g[0].add(1, LIN, 0); p.gl[0] = p.gu[0] = 3; p.xl = {2}; p.xu = {2}; p.x0 = {2}; break;   // fixed variable violates the constraint
      case 9: p.resize(2, 1); p.f.add(1, LIN, 0); p.g[0].add(1, LIN, 0).add(1, LIN, 1); p.gl[0] = 3.5; p.gu[0] = 4; p.xl = {2, -1}; p.xu = {2, 1}; p.x0 = {2, 0}; break;
      case 10: p.resize(3, 2); p.f.add(1, PROD, 0, 0); p.g[0].add(1, SIN, 0).add(1, PROD, 1, 1); p.gu[0] = -1.5; p.g[1].add(1, LIN, 2); p.gl[1] = 0; p.x0 = {0.5, 0.5, 0.5}; break;
      case 11: p.resize(1, 1); p.f.add(1, PROD, 0, 0); p.g[0].add(1, CONST); p.gl[0] = p.gu[0] = 2; p.x0 = {0.2}; break;   // constant constraint, never satisfied
   }
   static const double SH[] = {0, 1, -3, 25};
   int sh = ex.choose(4);
   for( double& v : p.x0 ) v += SH[sh];
   ex.shardPoint();
   static const std::vector<tn::Opts> O = {{}, {{"mu_strategy", "adaptive"}}, {{"hessian_approximation", "limited-memory"}}, {{"fixed_variable_treatment", "make_constraint"}}, {{"fixed_variable_treatment", "relax_bounds"}},
      {{"expect_infeasible_problem", "yes"}}, {{"nlp_scaling_method", "none"}}, {{"line_search_method", "cg-penalty"}}, {{"start_with_resto", "yes"}}, {{"mehrotra_algorithm", "yes"}}, {{"least_square_init_primal", "yes"}}, {{"accept_every_trial_step", "yes"}},
      {{"bound_relax_factor", "0"}}, {{"mu_strategy", "adaptive"}, {"adaptive_mu_globalization", "kkt-error"}}, {{"max_iter", "5"}}, {{"tol", "1e-3"}}, {{"acceptable_iter", "1"}, {"acceptable_tol", "1e-2"}}, {{"nlp_scaling_max_gradient", "1e-3"}}, {{"line_search_method", "penalty"}}, {{"soft_resto_pderror_reduction_factor", "0"}}, {{"required_infeasibility_reduction", "0.1"}}, {{"constr_viol_tol", "1e-8"}}};
   int o = ex.choose((int) O.size());
   Solve S(p);
   S.opts = O[o];
   S.opt("max_wall_time", "20");
   if( o != 14 ) S.opt("max_iter", "500");
   S.run.mumps = ex.choose(2);
   ex.desc = fmt("infeasible problem %d shift %g", k, SH[sh]);
   for( auto& kv : S.opts ) ex.desc += " " + kv.first + "=" + kv.second;
   S.go();
   ex.count(fmt("status_%d", (int) S.st));
   mc::Hash h; h.i(S.st); h.i(k); h.i(sh); for( double v : S.r().x ) h.dr(v, 1e-3);
   ex.outcome(h.h);
   if( !S.t->err.empty() ) ex.fail("protocol", S.t->err);
   if( S.ok() || S.st == Feasible_Point_Found )
   {
      double tolv = (O[o].size() && (O[o][0].first == "acceptable_iter")) ? 1e-2 : 1e-4;
      double v = violation(p, S.r().x);
      if( !(v <= tolv * 1.5) ) ex.fail("infeasible-called-solved", fmt("violation %g; ", v) + S.resStr() + "; " + p.str());
      ex.fail("infeasible-called-solved", S.resStr() + "; " + p.str());
   }
   if( S.st == Infeasible_Problem_Detected && !(violation(p, S.r().x) > 1e-8) ) ex.fail("infeasible-at-feasible-point", S.resStr() + "; " + p.str());
   if( !tn::documentedStatus(S.st) ) ex.fail("status", fmt("undocumented status %d", (int) S.st));
}

static void malformed(mc::Explorer& ex)
{
   fam::Shape s = fam::chooseShape(ex, 1, 2, 0, 2, {0, 1});
   sp::Problem p = fam::make(s);
   ex.shardPoint();
   int k = ex.choose(12);
   int at = ex.choose(4);
   Solve S(p);
   int want = 0;
   static const char* nm[] = {"crossed variable bounds", "crossed constraint bounds", "n=-1", "m=-1", "nnz_jac=-1", "nnz_h=-1", "get_nlp_info false", "get_bounds_info false", "get_starting_point false", "barely crossed variable bounds", "barely crossed constraint bounds", "too few degrees of freedom"};
   ex.desc = fam::shapeStr(s) + " " + nm[k] + fmt(" at %d", at);
   int nv = p.n, mm = p.m;
   switch( k )
   {
      case 0: case 9: if( at >= nv ) throw mc::Skip(); S.t->tamperBounds = [=](double* l, double* u, double*, double*) { l[at] = 1; u[at] = k == 0 ? 0.5 : std::nextafter(1., 0.); }; want = Invalid_Problem_Definition; break;
      case 1: case 10: if( at >= mm ) throw mc::Skip(); S.t->tamperBounds = [=](double*, double*, double* l, double* u) { l[at] = 1; u[at] = k == 1 ? -3 : std::nextafter(1., 0.); }; want = Invalid_Problem_Definition; break;
      case 2: case 3: case 4: case 5: if( at ) throw mc::Skip(); S.t->tamperInfo = [=](Index& n, Index& m, Index& j, Index& h) { (k == 2 ? n : k == 3 ? m : k == 4 ? j : h) = -1; }; want = -99; break;
      case 6: case 7: case 8:
         if( at ) throw mc::Skip();
         S.t->fault = [=](int cb, int, const double*) { return cb == (k == 6 ? tn::C_INFO : k == 7 ? tn::C_BOUNDS : tn::C_START) ? 1 : 0; };
         want = -99;
         break;
      case 11:
      {
         if( at > 1 ) throw mc::Skip();
         // more independent equations than variables, none of them fixed
         int nfree = 0, neq = 0;
         for( int i = 0; i < nv; ++i ) nfree += p.xl[i] != p.xu[i];
         for( int j = 0; j < mm; ++j ) neq += p.gl[j] == p.gu[j];
         if( !(neq > nfree && nfree == nv) ) throw mc::Skip();
         want = Not_Enough_Degrees_Of_Freedom;
         break;
      }
   }
   if( at == 1 && (k == 11) ) S.run.mumps = true;
   S.go();
   ex.count(fmt("status_%d", (int) S.st));
   mc::Hash h; h.i(S.st); h.i(k); h.i(at); h.i(S.t->res.finals); h.i(s.n); h.i(s.m); h.i(S.t->cnt[tn::C_F]);
   ex.outcome(h.h);
   bool infoBad = k >= 2 && k <= 5;
   if( !S.t->err.empty() && !(infoBad && S.t->err.find("nele") != std::string::npos) ) ex.fail("protocol", S.t->err);
   if( S.st >= 0 ) ex.fail("malformed-accepted", fmt("%s: status %d", nm[k], (int) S.st));
   if( want != -99 && S.st != want ) ex.fail("malformed-status", fmt("%s: status %d instead of %d", nm[k], (int) S.st, want));
   if( !tn::documentedStatus(S.st) || S.st == Maximum_Iterations_Exceeded ) ex.fail("malformed-status", fmt("%s: status %d", nm[k], (int) S.st));
   if( S.t->cnt[tn::C_ITER] ) ex.fail("malformed-iterated", "iterations were performed on a malformed problem");
   if( k != 8 && S.t->cnt[tn::C_F] + S.t->cnt[tn::C_G] ) ex.fail("malformed-evaluated", "functions of a malformed problem were evaluated");
   // the same application still solves a correct problem afterwards
   tn::Spec* t2 = new tn::Spec(S.p);
   SmartPtr<tn::Spec> hold = t2;
   if( k != 11 && at == 0 )
   {
      int neq = 0, nfree = 0;
      for( int i = 0; i < nv; ++i ) nfree += p.xl[i] != p.xu[i];
      for( int j = 0; j < mm; ++j ) neq += p.gl[j] == p.gu[j];
      ApplicationReturnStatus st2 = S.run.solve(t2);
      if( neq <= nfree && nfree && st2 != Solve_Succeeded && st2 != Solved_To_Acceptable_Level ) ex.fail("later-solve", fmt("after %s, a correct problem ends with status %d", nm[k], (int) st2));
   }
}

int main(int argc, char** argv)
{
   mc::Explorer ex;
   return ex.main(argc, argv, [](mc::Explorer& e) { if( e.mode == "convex" ) convex(e); else if( e.mode == "infeasible" ) infeasible(e); else malformed(e); });
}
