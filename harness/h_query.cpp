// C08: mid-solve queries and callback arguments
#include "solvelib.hpp"
#include "IpDenseVector.hpp"
#include "IpCompoundVector.hpp"
#include "IpIpoptData.hpp"

static V dense(const Vector& v)
{
   const Vector* w = &v;
   if( const CompoundVector* c = dynamic_cast<const CompoundVector*>(w) ) w = GetRawPtr(c->GetComp(0));
   const DenseVector* d = dynamic_cast<const DenseVector*>(w);
   V r(d->Dim());
   for( int i = 0; i < d->Dim(); ++i ) r[i] = d->IsHomogeneous() ? d->Scalar() : d->Values()[i];
   return r;
}

static const std::vector<tn::Opts>& treatments()
{
   static std::vector<tn::Opts> T = {
      {{"fixed_variable_treatment", "make_constraint"}}, {{"fixed_variable_treatment", "relax_bounds"}}, {{"fixed_variable_treatment", "make_parameter_nodual"}},
      {{"bound_relax_factor", "0"}}, {{"bound_relax_factor", "1e-3"}}, {{"honor_original_bounds", "yes"}, {"bound_relax_factor", "1e-3"}}, {{"start_with_resto", "yes"}}, {{"start_with_resto", "yes"}, {"fixed_variable_treatment", "make_constraint"}},
      {{"mu_strategy", "adaptive"}}, {{"hessian_approximation", "limited-memory"}}, {{"nlp_scaling_method", "none"}}, {{"nlp_scaling_max_gradient", "0.1"}}, {{"obj_scaling_factor", "0.1"}}, {{"obj_scaling_factor", "-1"}},
      {{"line_search_method", "cg-penalty"}}, {{"mehrotra_algorithm", "yes"}}, {{"accept_every_trial_step", "yes"}}, {{"watchdog_shortened_iter_trigger", "1"}}, {{"inf_pr_output", "internal"}}, {{"expect_infeasible_problem", "yes"}},
      {{"corrector_type", "affine"}}, {{"linear_system_scaling", "slack-based"}}, {{"recalc_y", "yes"}}, {{"bound_push", "0.4"}, {"bound_frac", "0.4"}}, {{"constr_mult_init_max", "0"}}, {{"least_square_init_primal", "yes"}}, {{"alpha_for_y", "full"}}, {{"jac_c_constant", "no"}},
      {{"gradient_approximation", "finite-difference-values"}}, {{"magic_steps", "yes"}}, {{"max_iter", "2"}}, {{"kappa_d", "0"}}, {{"dependency_detector", "mumps"}}
   };
   return T;
}

static void body(mc::Explorer& ex)
{
   sp::Problem p;
   std::string what;
   std::vector<int> fixed;
   if( ex.mode == "special" )
   {
      int k = ex.choose(fam::NSPECIAL);
      p = fam::special(k);
      static const double SH[] = {0, 1.5, -2};
      int sh = ex.choose(3);
      for( double& v : p.x0 ) v += SH[sh];
      int fx = ex.choose(p.n + 1);
      if( fx ) { int i = fx - 1; p.xl[i] = p.xu[i] = std::fabs(p.x0[i]) < 1e-9 ? 0.5 : std::max(0.02, p.x0[i]); }
      ex.shardPoint();
      what = fmt("special%d shift %g fix %d", k, SH[sh], fx - 1);
   }
   else
   {
      fam::Shape s = fam::chooseShape(ex, 1, ex.thorough ? 3 : 2, 0, 2, {1, 2});
      p = fam::make(s);
      ex.shardPoint();
      what = fam::shapeStr(s);
   }
   static const size_t NT = treatments().size();
   int nd = ex.maxdev;
   Solve S(p);
   for( int d = 0; d < nd; ++d )
   {
      size_t o = ex.deviate((int) NT + 1);
      if( !o ) break;
      for( auto& kv : treatments()[o - 1] ) if( S.has(kv.first.c_str()) ) throw mc::Skip(); else S.opts.push_back(kv);
   }
   for( auto& kv : S.opts ) what += " " + kv.first + "=" + kv.second;
   ex.desc = what;
   bool neg = S.has("obj_scaling_factor", "-1");
   if( neg ) for( auto& t : p.f.t ) t.c = -t.c;      // maximize
   S.p = p;
   S.t = new tn::Spec(S.p);
   if( !S.has("max_iter") ) S.opt("max_iter", "60");
   std::string fvt = "make_parameter";
   double brf = 1e-8;
   for( auto& kv : S.opts ) { if( kv.first == "fixed_variable_treatment" ) fvt = kv.second; if( kv.first == "bound_relax_factor" ) brf = atof(kv.second.c_str()); }
   int neq = 0, nfix = 0;
   for( int j = 0; j < p.m; ++j ) neq += p.gl[j] == p.gu[j];
   for( int i = 0; i < p.n; ++i ) nfix += p.xl[i] == p.xu[i];
   bool asParam = (fvt == "make_parameter" || fvt == "make_parameter_nodual");
   // for too few degrees of freedom the library retries with relaxed bounds of fixed variables
   bool maybeRelaxed = asParam && nfix > 0 && neq > p.n - nfix;
   bool relaxFixed = fvt == "relax_bounds";
   if( maybeRelaxed ) throw mc::Skip();
   bool honor = S.has("honor_original_bounds");
   int niter = 0, nresto = 0;
   mc::Hash h;
   std::string bad;
   bool droppedUnset = false;
   double ftol = S.has("gradient_approximation") ? 1e-4 : 1e-9;
   // objective and barrier problem quantities: relaxed bounds for fixed variables when they are relaxed
   auto chk = [&](const Snap& s) -> std::string {
      std::string e = s.check(S.p, brf, asParam, relaxFixed, ftol, neg ? -1 : 1);
      if( !e.empty() ) return e + ";" + s.str();
      return "";
   };
   S.t->onIter = [&](tn::Spec& t, const tn::Iter& it, const IpoptData* d, IpoptCalculatedQuantities* q) -> bool {
      ++niter;
      if( it.mode ) ++nresto;
      int savedInfo = t.cnt[tn::C_INFO];
      (void) savedInfo;
      Snap s(t, d, q);
      for( double v : s.g ) if( v < -1e77 && S.has("dependency_detector") ) droppedUnset = true;
      if( droppedUnset ) return true;
      if( bad.empty() ) { bad = chk(s); if( !bad.empty() ) bad = fmt("iteration %d mode %d: ", it.iter, it.mode) + bad; }
      // null arguments: every array is optional and the rest is unchanged
      int n = p.n, m = p.m;
      for( int sk = 0; sk < 5 && bad.empty(); ++sk )
      {
         V x(n, 7.), zl(n, 7.), zu(n, 7.), g(m, 7.), l(m, 7.);
         bool dual = sk != 1;
         if( !t.get_curr_iterate(d, q, false, sk == 0 && !dual ? 77 : n, sk == 0 ? nullptr : x.data(), dual ? zl.data() : nullptr, dual ? zu.data() : nullptr, sk == 2 ? 55 * 0 + m : m, sk == 2 ? nullptr : g.data(), sk == 3 ? nullptr : l.data()) ) bad = "query with omitted arrays refused";
         else if( (sk != 0 && !bitEq(x, s.x)) || (dual && (!bitEq(zl, s.zl) || !bitEq(zu, s.zu))) || (sk != 2 && !bitEq(g, s.g)) || (sk != 3 && !bitEq(l, s.lam)) ) bad = fmt("iteration %d: query with omitted array %d gives other values", it.iter, sk);
         V a(n, 7.), b(n, 7.), c1(n, 7.), c2(n, 7.), gl(n, 7.), cv(m, 7.), cg(m, 7.);
         if( !t.get_curr_violations(d, q, false, n, sk == 0 ? nullptr : a.data(), sk == 1 ? nullptr : b.data(), sk == 2 ? nullptr : c1.data(), sk == 3 ? nullptr : c2.data(), sk == 4 ? nullptr : gl.data(), m, sk == 0 ? nullptr : cv.data(), sk == 1 ? nullptr : cg.data()) ) bad = "violation query with omitted arrays refused";
         else if( (sk != 0 && !bitEq(a, s.xlv)) || (sk != 1 && !bitEq(b, s.xuv)) || (sk != 2 && !bitEq(c1, s.cl)) || (sk != 3 && !bitEq(c2, s.cu)) || (sk != 4 && !bitEq(gl, s.gl)) || (sk != 0 && !bitEq(cv, s.cv)) || (sk != 1 && !bitEq(cg, s.cg)) ) bad = fmt("iteration %d: violation query with omitted array %d gives other values", it.iter, sk);
      }
      // the same iterate, straight from the algorithm's data (variables are not scaled here)
      if( bad.empty() )
      {
         V xi = dense(*d->curr()->x());
         int k = 0;
         for( int i = 0; i < n && bad.empty(); ++i )
         {
            bool fx = p.xl[i] == p.xu[i];
            if( fx && asParam ) continue;
            if( s.x[i] != xi[k++] ) bad = fmt("iteration %d: x[%d] reported %.17g, iterate has %.17g", it.iter, i, s.x[i], xi[k - 1]);
         }
         if( S.has("nlp_scaling_method", "none") )
         {
            V zl = dense(*d->curr()->z_L()), zu = dense(*d->curr()->z_U()), yc = dense(*d->curr()->y_c()), yd = dense(*d->curr()->y_d());
            int a = 0, b = 0, c = 0, e = 0;
            for( int i = 0; i < n && bad.empty(); ++i )
            {
               bool fx = p.xl[i] == p.xu[i];
               if( fx && !relaxFixed ) continue;
               if( p.xl[i] > -1e19 && s.zl[i] != zl[a++] ) bad = fmt("z_L[%d] is not that of the iterate", i);
               if( p.xu[i] < 1e19 && s.zu[i] != zu[b++] ) bad = fmt("z_U[%d] is not that of the iterate", i);
            }
            for( int j = 0; j < m && bad.empty(); ++j ) if( s.lam[j] != (p.gl[j] == p.gu[j] ? yc[c++] : yd[e++]) ) bad = fmt("lambda[%d] is not that of the iterate", j);
         }
         if( it.mu != d->curr_mu() && bad.empty() ) bad = fmt("callback mu %g, current mu %g", it.mu, (double) d->curr_mu());
         if( it.iter != d->iter_count() && bad.empty() ) bad = "callback iteration number differs from iteration count";
      }
      // callback arguments
      bool huge = false;
      for( double v : s.x ) huge |= !(std::fabs(v) < 1e6);
      for( double v : s.g ) huge |= !(std::fabs(v) < 1e8);
      if( bad.empty() && !huge )
      {
         double f = S.p.f.val(s.x.data());
         if( !it.mode && !(std::fabs(it.obj - f) <= 1e-9 * (1 + std::fabs(f))) ) bad = fmt("iteration %d: objective %.12g passed, value at the iterate is %.12g", it.iter, it.obj, f);
         if( it.mode && !(std::fabs(it.obj - f) <= 1e-9 * (1 + std::fabs(f))) ) bad = fmt("iteration %d (restoration): objective %.12g passed, value at the iterate is %.12g", it.iter, it.obj, f);
         double v = 0, du = 0, ga = 1;
         // documented: primal infeasibility of the internal problem, i.e., of c(x) = 0 and d(x) - s = 0
         Snap sc(t, d, q, true);
         bool ident = bitEq(sc.lam, s.lam) && bitEq(sc.g, s.g) && bitEq(sc.zl, s.zl) && !neg && !S.has("obj_scaling_factor") && !S.has("nlp_scaling_max_gradient");
         V sl = dense(*d->curr()->s());
         int e = 0;
         for( int j = 0; j < m; ++j ) v = std::max(v, p.gl[j] == p.gu[j] ? std::fabs(s.g[j] - p.gl[j]) : std::fabs(s.g[j] - sl[e++]));
         if( fvt == "make_constraint" ) for( int i = 0; i < n; ++i ) if( p.xl[i] == p.xu[i] ) v = std::max(v, std::fabs(s.x[i] - p.xl[i]));
         if( ident && !(std::fabs(it.inf_pr - v) <= 1e-9 * (1 + v + std::fabs(s.g.empty() ? 0. : s.g[0]))) ) bad = fmt("iteration %d mode %d: inf_pr %.12g passed, violation is %.12g", it.iter, it.mode, it.inf_pr, v);
         for( int i = 0; i < n; ++i ) if( p.xl[i] != p.xu[i] ) { du = std::max(du, std::fabs(s.gl[i])); ga = std::max(ga, std::fabs(s.lam.empty() ? 0. : s.lam[0])); }
         // with automatic scaling switched off, the dual infeasibility is that of the user's Lagrangian (and of the slacks' multipliers)
         if( !it.mode && ident && it.inf_du < du * (1 - 1e-9) - 1e-9 ) bad = fmt("iteration %d: inf_du %.12g passed, gradient of the Lagrangian has norm %.12g", it.iter, it.inf_du, du);
         if( it.iter == 0 && (it.adu != 0 || it.apr != 0 || it.dnorm != 0 || it.ls != 0) ) bad = "step data passed for iteration 0";
         if( it.iter > 0 && (!(it.apr >= 0) || !(it.apr <= 1) || !(it.adu >= 0) || !(it.adu <= 1)) ) bad = fmt("iteration %d: step sizes %g %g", it.iter, it.apr, it.adu);
      }
      h.dr(s.x[0], 1e-5);
      h.i(it.mode);
      return true;
   };
   Snap fin;
   bool finOk = true;
   S.t->onFinal = [&](tn::Spec& t) {
      fin = Snap(t, t.ipd, t.ipq);
      finOk = true;
   };
   S.go();
   ex.count(fmt("status_%d", (int) S.st));
   ex.count("callbacks", niter);
   ex.count("restoration-callbacks", nresto);
   h.i(S.st);
   ex.outcome(h.h);
   if( droppedUnset ) ex.fail("query-dropped-constraint", "constraint value and multiplier of a constraint taken out as dependent are not written by the query; " + S.p.str());
   if( !bad.empty() ) ex.fail("query", bad + "; " + S.p.str());
   if( !S.t->err.empty() ) ex.fail("protocol", S.t->err);
   if( S.r().finals && fin.ok1 )
   {
      // queries in finalize_solution describe the reported solution
      const tn::Result& r = S.r();
      if( !honor && maxAbsDiff(fin.x, r.x) > 0 ) ex.fail("final-x", "x from the query in finalize_solution differs from the reported one; " + S.resStr() + ";" + fin.str());
      if( !honor && maxAbsDiff(fin.g, r.g) > 1e-12 * (1 + std::fabs(r.g.empty() ? 0. : r.g[0])) ) ex.fail("final-g", "g from the query in finalize_solution differs from the reported one; " + S.resStr() + ";" + fin.str());
      if( maxAbsDiff(fin.lam, r.lam) > 0 ) ex.fail("final-lambda", "lambda from the query in finalize_solution differs from the reported one; " + S.resStr() + ";" + fin.str());
      if( fvt != "make_parameter_nodual" && !honor && (maxAbsDiff(fin.zl, r.zl) > 1e-9 * (1 + std::fabs(r.zl[0])) || maxAbsDiff(fin.zu, r.zu) > 1e-9 * (1 + std::fabs(r.zu[0]))) ) ex.fail("final-z", "bound multipliers from the query in finalize_solution differ from the reported ones; " + S.resStr() + ";" + fin.str());
   }
   // outside of a solve
   V x(p.n, 3.);
   if( S.t->get_curr_iterate(nullptr, nullptr, false, p.n, x.data(), nullptr, nullptr, p.m, nullptr, nullptr) || x[0] != 3. ) ex.fail("outside", "iterate query without a running solve succeeded");
   if( S.t->get_curr_violations(nullptr, nullptr, false, p.n, x.data(), nullptr, nullptr, nullptr, nullptr, p.m, nullptr, nullptr) || x[0] != 3. ) ex.fail("outside", "violation query without a running solve succeeded");
   // looking does not change anything
   tn::Result seen = S.r();
   auto iters = S.t->iters;
   Solve R(S.p);
   R.opts = S.opts;
   R.go();
   if( R.st != S.st || !sameResult(R.r(), seen) ) ex.fail("query-alters-solve", "the solve with queries ends with " + S.resStr() + ", without with " + R.resStr());
   if( R.t->iters.size() != iters.size() ) ex.fail("query-alters-solve", "other number of iterations");
   for( size_t i = 0; i < iters.size(); ++i ) if( memcmp(&iters[i].obj, &R.t->iters[i].obj, sizeof(double) * 4) ) ex.fail("query-alters-solve", fmt("iteration %zu differs", i));
}

int main(int argc, char** argv)
{
   mc::Explorer ex;
   return ex.main(argc, argv, [](mc::Explorer& e) { body(e); });
}
