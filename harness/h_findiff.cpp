// C16: finite-difference gradients and Jacobians
#include "solvelib.hpp"
#include "alloc.hpp"
#include "IpDenseVector.hpp"
#include "IpCompoundVector.hpp"
#include "IpIpoptData.hpp"

static V dense(const Vector& v)
{
   const Vector* w = &v;
   if( const CompoundVector* c = dynamic_cast<const CompoundVector*>(w) ) w = GetRawPtr(c->GetComp(0));
   const DenseVector* d = dynamic_cast<const DenseVector*>(w);
   V r(d->Dim());
   for( int i = 0; i < d->Dim(); ++i ) r[i] = d->IsHomogeneous() ? d->Scalar() : d->Values()[i];
   return r;
}

static const char* FT[] = {"make_parameter", "make_constraint", "relax_bounds", "make_parameter_nodual"};
static const std::vector<tn::Opts>& others()
{
   static std::vector<tn::Opts> T = {
      {{"fixed_variable_treatment", "make_constraint"}}, {{"fixed_variable_treatment", "relax_bounds"}}, {{"fixed_variable_treatment", "make_parameter_nodual"}},
      {{"findiff_perturbation", "1e-6"}}, {{"findiff_perturbation", "1e-8"}}, {{"findiff_perturbation", "1e-4"}}, {{"bound_push", "1e-9"}, {"bound_frac", "1e-9"}}, {{"bound_relax_factor", "0"}}, {{"mu_strategy", "adaptive"}}, {{"hessian_approximation", "limited-memory"}},
      {{"nlp_scaling_method", "none"}}, {{"start_with_resto", "yes"}}, {{"line_search_method", "cg-penalty"}}, {{"nlp_lower_bound_inf", "-0.4"}}, {{"least_square_init_primal", "yes"}}, {{"jac_c_constant", "no"}}, {{"check_derivatives_for_naninf", "yes"}},
      {{"derivative_test", "first-order"}}, {{"warm_start_init_point", "yes"}}, {{"mehrotra_algorithm", "yes"}}
   };
   return T;
}

static void body(mc::Explorer& ex)
{
   sp::Problem p;
   std::string what;
   bool heavy = false, defStart = true;
   bool special = ex.mode == "special", narrow = ex.mode == "narrow", convex = false;
   if( special )
   {
      int k = ex.choose(fam::NSPECIAL);
      p = fam::special(k);
      what = fmt("special%d", k);
   }
   else
   {
      fam::Shape s = fam::chooseShape(ex, 1, (ex.thorough && !narrow) ? 3 : 2, 0, narrow ? 1 : 2, {0, 1, 2, 3});
      heavy = !ex.thorough && s.n == 2 && s.m == 2 && (s.family != 2 || s.b[0] == fam::B_L || s.b[0] == fam::B_U || s.c[0] == fam::K_LE || s.c[1] == fam::K_LE || s.c[1] == fam::K_FREE);
      if( narrow && !ex.thorough && (s.family == 1 || s.family == 3) ) throw mc::Prune();
      if( ex.thorough && s.n == 3 && s.m == 2 && s.b[2] != fam::B_FREE && s.b[2] != fam::B_LU && s.b[2] != fam::B_FIX ) throw mc::Prune();
      p = fam::make(s);
      what = fam::shapeStr(s);
      convex = s.family == 0;
      if( narrow )
      {
         // a variable in a box that is not much wider than the perturbation
         int i = ex.choose(s.n);
         if( !ex.thorough && (s.b[i] != fam::B_FREE || (s.n == 2 && s.b[1 - i] != fam::B_LU && s.b[1 - i] != fam::B_FIX)) ) throw mc::Prune();
         static const double W[] = {1e-3, 1e-6, 1.5e-7, 1e-7, 6e-8, 2e-8, 1e-8};
         double w = W[ex.choose(7)], at = ex.of({0.4, 0., -3.});
         p.xl[i] = at;
         p.xu[i] = at + w;
         int st = ex.choose(4);
         p.x0[i] = st == 0 ? at : st == 1 ? at + w : st == 2 ? at + 0.5 * w : at - 1;
         what += fmt(" x%d in [%g,%g+%g] start %d", i, at, at, w, st);
         convex = false;
      }
   }
   int approx = 1 + ex.choose(3);       // 1 gradient, 2 Jacobian, 3 both
   if( approx != 1 && p.m == 0 ) throw mc::Prune();
   ex.shardPoint();
   int o = ex.deviate((int) others().size() + 1), present = ex.deviate(5), start = narrow ? 0 : ex.deviate(5);
   if( heavy && ex.devs ) throw mc::Prune();
   defStart = !start && !o;
   Solve S(p);
   if( o ) for( auto& kv : others()[o - 1] ) { S.opts.push_back(kv); what += " " + kv.first + "=" + kv.second; }
   if( start ) for( int i = 0; i < p.n; ++i )
   {
      double& x = S.p.x0[i];
      if( start == 1 ) x = p.xl[i] > -1e19 ? p.xl[i] : x;
      if( start == 2 ) x = p.xu[i] < 1e19 ? p.xu[i] : x;
      if( start == 3 ) x = 5;
      if( start == 4 ) x = -2;
   }
   if( o && others()[o - 1][0].first == "nlp_lower_bound_inf" ) for( int i = 0; i < p.n; ++i ) if( S.p.xl[i] == -0.5 ) S.p.xl[i] = -sp::INF; else if( S.p.xl[i] <= -0.4 ) throw mc::Prune();
   if( S.has("nlp_lower_bound_inf") ) for( int j = 0; j < p.m; ++j ) if( S.p.gl[j] <= -0.4 && S.p.gl[j] > -1e19 ) { if( S.p.gl[j] == S.p.gu[j] ) throw mc::Prune(); S.p.gl[j] = -sp::INF; }
   p = S.p;
   what += fmt(" %s present=%d start=%d", approx == 1 ? "gradient" : approx == 2 ? "Jacobian" : "both", present, start);
   ex.desc = what;
   S.t = new tn::Spec(S.p);
   tn::Spec& t = *S.t;
   switch( present )
   {
      case 1: t.pr.fortran = true; break;
      case 2: std::reverse(t.pr.jac.begin(), t.pr.jac.end()); break;
      case 3: { std::set<std::pair<int, int>> have; for( auto& e : t.pr.jac ) have.insert({e.r, e.c}); for( int i = p.n - 1; i >= 0; --i ) for( int j = 0; j < p.m; ++j ) if( !have.count({j, i}) ) t.pr.jac.insert(t.pr.jac.begin(), {j, i, 1.}); break; }
      case 4: t.pr.fortran = true; std::stable_sort(t.pr.jac.begin(), t.pr.jac.end(), [](const tn::Ent& a, const tn::Ent& b) { return a.c < b.c; }); break;
   }
   S.opt("max_iter", "80");
   if( approx & 1 ) S.opt("gradient_approximation", "finite-difference-values");
   if( approx & 2 ) S.opt("jacobian_approximation", "finite-difference-values");
   double pert = 1e-7, brf = 1e-8;
   std::string fvt = "make_parameter";
   bool noscale = false;
   for( auto& kv : S.opts ) { if( kv.first == "findiff_perturbation" ) pert = atof(kv.second.c_str()); if( kv.first == "bound_relax_factor" ) brf = atof(kv.second.c_str()); if( kv.first == "fixed_variable_treatment" ) fvt = kv.second; }
   bool checkMat = !S.has("nlp_scaling_method");
   if( checkMat ) { S.opt("nlp_scaling_method", "none"); noscale = true; }
   (void) noscale;
   int neq = 0, nfix = 0;
   for( int j = 0; j < p.m; ++j ) neq += p.gl[j] == p.gu[j];
   for( int i = 0; i < p.n; ++i ) nfix += p.xl[i] == p.xu[i];
   bool param = fvt.substr(0, 14) == "make_parameter";
   bool maybeRelaxed = param && nfix > 0 && neq > p.n - nfix;
   bool relaxFixed = fvt == "relax_bounds" || maybeRelaxed;
   bool dep = S.has("dependency_detector"), dtest = S.has("derivative_test");

   std::string evalErr;
   bool started = false;
   int last = -1;
   auto seq = [&](int cb, const double* x, bool) {
      last = cb;
      for( int i = 0; i < p.n; ++i )
      {
         if( cb != tn::C_F && cb != tn::C_G && !((cb == tn::C_GRAD && !(approx & 1)) || (cb == tn::C_JAC && (!(approx & 2) || dep)) || cb == tn::C_HESS) && evalErr.empty() && !dtest && !(cb == tn::C_GRAD && nfix > 0 && param) )      // multipliers of fixed variables are computed from the user's gradient, if it is there
            evalErr = fmt("%s called although approximated", tn::cbname(cb));
         if( dep || dtest || t.cnt[tn::C_ITER] == 0 ) continue;     // before the first iteration, other points may be looked at
         double rl = 0;
         if( p.xl[i] == p.xu[i] ) rl = relaxFixed ? std::max(brf, 1e-8) : fvt == "make_constraint" ? 1e9 : 0;
         else rl = brf;
         double bl = p.xl[i] - 1.01 * std::min(1e-4, rl * std::max(1., std::fabs(p.xl[i]))) - 1e-10, bu = p.xu[i] + 1.01 * std::min(1e-4, rl * std::max(1., std::fabs(p.xu[i]))) + 1e-10;
         if( rl > 1 || std::fabs(x[i]) > 1e10 ) continue;
         if( (x[i] < bl || x[i] > bu) && evalErr.empty() ) evalErr = fmt("%s at x%d=%.17g outside of bounds [%.17g,%.17g]", tn::cbname(cb), i, x[i], p.xl[i], p.xu[i]);
      }
   };
   t.onEval = seq;
   (void) started;
   std::string matErr, fixZero;
   auto fscale = [&](const sp::Func& f, const double* x) { double s = 1; for( auto& e : f.t ) { sp::Func q; q.t = {e}; s += std::fabs(q.val(x)); } return s; };
   auto hdiag = [&](const sp::Func& f, const double* x, int i) { V H(p.n * p.n, 0.); double s = 0; for( auto& e : f.t ) { sp::Func q; q.t = {e}; V h(p.n * p.n, 0.); q.hess(x, h.data(), p.n); s += std::fabs(h[i * p.n + i]); if( e.k >= sp::CUBE ) s += 3 * std::fabs(e.c); } return s; };
   t.onIter = [&](tn::Spec&, const tn::Iter& it, const IpoptData* d, IpoptCalculatedQuantities* q) {
      if( it.mode != 0 || matErr.size() || !checkMat ) return true;
      V xi = dense(*d->curr()->x()), x(p.n);
      std::vector<int> col;
      for( int i = 0; i < p.n; ++i ) if( !(param && !maybeRelaxed && p.xl[i] == p.xu[i]) ) col.push_back(i);
      if( col.size() != xi.size() )
      {
         if( maybeRelaxed || S.has("dependency_detector") ) return true;
         matErr = fmt("%zu variables, expected %zu", xi.size(), col.size());
         return true;
      }
      for( int i = 0; i < p.n; ++i ) x[i] = p.xl[i];
      for( size_t k = 0; k < col.size(); ++k ) x[col[k]] = xi[k];
      for( double v : x ) if( std::fabs(v) > 1e4 ) return true;
      // unperturbed values
      double f = q->curr_f();
      if( f != p.f.val(x.data()) ) { matErr = fmt("objective %.17g used at x, is %.17g", f, p.f.val(x.data())); return true; }
      V c = dense(*q->curr_c()), dd = dense(*q->curr_d());
      std::vector<int> ce, de;
      for( int j = 0; j < p.m; ++j ) (p.gl[j] == p.gu[j] ? ce : de).push_back(j);
      if( !dep )
      {
         for( size_t k = 0; k < ce.size(); ++k ) if( c[k] != p.g[ce[k]].val(x.data()) - p.gl[ce[k]] ) matErr = fmt("constraint %d used with value %.17g, is %.17g", ce[k], c[k], p.g[ce[k]].val(x.data()) - p.gl[ce[k]]);
         for( size_t k = 0; k < de.size(); ++k ) if( dd[k] != p.g[de[k]].val(x.data()) ) matErr = fmt("constraint %d used with value %.17g, is %.17g", de[k], dd[k], p.g[de[k]].val(x.data()));
      }
      V gr = dense(*q->curr_grad_f()), gt(p.n, 0.), J;
      p.f.grad(x.data(), gt.data());
      p.jac(x.data(), J);
      auto tolOf = [&](const sp::Func& fu, int i) { double h = pert * std::max(1., std::fabs(x[i])); return 1e-13 * fscale(fu, x.data()) + h * hdiag(fu, x.data(), i) * 2 + 8 * 2.3e-16 * fscale(fu, x.data()) / (narrow ? std::min(h, 0.5 * std::max(p.xu[i] - p.xl[i], 1e-12)) : h); };
      for( size_t k = 0; k < col.size(); ++k )
      {
         int i = col[k];
         bool fx = p.xl[i] == p.xu[i];
         if( (approx & 1) && fx && gr[k] == 0 ) { if( std::fabs(gt[i]) > 1e-3 ) fixZero = fmt("objective gradient entry %d of a fixed variable is 0, should be %.10g", i, gt[i]); }
         else if( !(std::fabs(gr[k] - gt[i]) <= ((approx & 1) ? tolOf(p.f, i) : 1e-13 * fscale(p.f, x.data()) + 1e-14 * std::fabs(gt[i]))) ) matErr = fmt("objective gradient entry %d is %.10g, should be %.10g", i, gr[k], gt[i]);
      }
      if( dep ) return true;
      for( int typ = 0; typ < 2; ++typ )
      {
         const std::vector<int>& rows = typ ? de : ce;
         SmartPtr<const Matrix> M = typ ? q->curr_jac_d() : q->curr_jac_c();
         SmartPtr<Vector> y = d->curr()->x()->MakeNew(), e = typ ? d->curr()->y_d()->MakeNew() : d->curr()->y_c()->MakeNew();
         for( size_t r = 0; r < rows.size(); ++r )
         {
            e->Set(0.);
            Vector* ev = GetRawPtr(e);
            if( CompoundVector* cv = dynamic_cast<CompoundVector*>(ev) ) ev = GetRawPtr(cv->GetCompNonConst(0));
            dynamic_cast<DenseVector*>(ev)->Values()[r] = 1;
            M->TransMultVector(1., *e, 0., *y);
            V row = dense(*y);
            for( size_t k = 0; k < col.size(); ++k )
            {
               int i = col[k];
               double tr = J[rows[r] * p.n + i];
               if( (approx & 2) && p.xl[i] == p.xu[i] && row[k] == 0 ) { if( std::fabs(tr) > 1e-3 ) fixZero = fmt("Jacobian entry (%d,%d) of a fixed variable is 0, should be %.10g", rows[r], i, tr); continue; }
               if( !(std::fabs(row[k] - tr) <= ((approx & 2) ? tolOf(p.g[rows[r]], i) : 1e-13 * (1 + std::fabs(tr)))) ) matErr = fmt("Jacobian entry (%d,%d) is %.10g, should be %.10g", rows[r], i, row[k], tr);
            }
         }
      }
      return true;
   };
   al::fill() = 0xff;
   S.go();
   al::fill() = -1;
   ++ex.evals;
   ex.outcome(S.hash());
   if( t.err.size() ) ex.fail("protocol", t.err);
   if( evalErr.size() ) ex.fail("evaluation", evalErr);
   if( matErr.size() ) ex.fail("derivative-entry", matErr);
   auto fixedZero = [&](const std::string& m) { if( ex.seenViol["fixed-variable-derivative"] < 1 ) ex.report("fixed-variable-derivative", m); else ex.count("derivative of a fixed variable taken as zero"); };
   if( fixZero.size() ) fixedZero(fixZero);
   ex.nontrivial = t.iters.size() > 1;
   // the reference: exact derivatives
   Solve R(p);
   for( auto& kv : S.opts ) if( kv.first.find("_approximation") == std::string::npos || kv.first == "hessian_approximation" ) R.opts.push_back(kv);
   R.t->pr = t.pr;
   R.go();
   bool meh = S.has("mehrotra_algorithm") || S.has("hessian_approximation") || S.has("line_search_method");
   if( narrow )
   {
      if( S.ok() && !(violation(p, S.r().x) < 1e-4) ) ex.fail("feasibility", S.resStr());
      if( R.st == Solve_Succeeded && !S.ok() ) ex.count("not converged (narrow)");
      return;
   }
   if( R.st == Solve_Succeeded && !S.ok() )
   {
      bool large = false;
      for( double v : R.r().lam ) large = large || std::fabs(v) > 1e3;
      if( nfix && !param && (approx & 2) ) fixedZero("wrong derivatives of a fixed variable prevent a solution: " + S.resStr());
      else if( !(convex || defStart) || maybeRelaxed || pert < 5e-8 || pert > 1e-5 || meh || large ) ex.count("not converged (option)");
      else ex.fail("no-solution", fmt("status %d; with exact derivatives ", (int) S.st) + R.resStr() + "; approximated: " + S.resStr());
   }
   for( double v : S.r().x ) if( std::fabs(v) > 1e3 ) { ex.count("astronomic solution"); return; }
   if( S.ok() )
   {
      if( R.ok() && convex && maxAbsDiff(S.r().x, R.r().x) > 1e-3 * (1 + pert * 1e5) ) ex.fail("solution", "approximated: " + S.resStr() + "; exact: " + R.resStr());
      requireKkt(ex, S, (pert > 1e-5 ? 3e3 : 50) , "kkt", nfix > 0, std::max(brf, 1e-8), 1e-4);
   }
   else if( R.ok() == false ) ex.count("both unsuccessful");
}

int main(int argc, char** argv)
{
   mc::Explorer ex;
   return ex.main(argc, argv, body);
}
