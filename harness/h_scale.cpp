// C09: scaling is invisible to the user
#include "solvelib.hpp"
#include "IpDenseVector.hpp"
#include "IpCompoundVector.hpp"
#include "IpOrigIpoptNLP.hpp"

struct Fac
{
   double o = 1;
   bool usex = false, useg = false;
   V x, g;
   Fac(int n, int m) : x(n, 1.), g(m, 1.) {}
   double fx(int i) const { return usex ? x[i] : 1.; }
   double fg(int j) const { return useg ? g[j] : 1.; }
   std::string str() const
   {
      std::string s = fmt("obj factor %g", o);
      if( usex ) for( double v : x ) s += fmt(" x%g", v);
      if( useg ) for( double v : g ) s += fmt(" g%g", v);
      return s;
   }
};

/** the problem a user would state who scales by hand */
class ByHand : public TNLP
{
public:
   SmartPtr<tn::Spec> u;
   const Fac& s;
   V xb, gb;
   std::vector<V> path;
   ByHand(tn::Spec* u_, const Fac& s_) : u(u_), s(s_), xb(u_->P->n), gb(u_->P->m) {}
   const double* ux(Index n, const Number* x) { for( int i = 0; i < n; ++i ) xb[i] = x[i] / s.fx(i); return xb.data(); }
   bool get_nlp_info(Index& n, Index& m, Index& a, Index& b, IndexStyleEnum& st) override { return u->get_nlp_info(n, m, a, b, st); }
   bool get_bounds_info(Index n, Number* xl, Number* xu, Index m, Number* gl, Number* gu) override
   {
      bool r = u->get_bounds_info(n, xl, xu, m, gl, gu);
      for( int i = 0; i < n; ++i ) { if( xl[i] > -1e19 ) xl[i] *= s.fx(i); if( xu[i] < 1e19 ) xu[i] *= s.fx(i); }
      for( int j = 0; j < m; ++j ) { if( gl[j] > -1e19 ) gl[j] *= s.fg(j); if( gu[j] < 1e19 ) gu[j] *= s.fg(j); }
      return r;
   }
   bool get_starting_point(Index n, bool ix, Number* x, bool iz, Number* zl, Number* zu, Index m, bool il, Number* lam) override
   {
      bool r = u->get_starting_point(n, ix, x, iz, zl, zu, m, il, lam);
      if( ix ) for( int i = 0; i < n; ++i ) x[i] *= s.fx(i);
      if( iz ) for( int i = 0; i < n; ++i ) { zl[i] *= s.o / s.fx(i); zu[i] *= s.o / s.fx(i); }
      if( il ) for( int j = 0; j < m; ++j ) lam[j] *= s.o / s.fg(j);
      return r;
   }
   bool eval_f(Index n, const Number* x, bool nx, Number& v) override { bool r = u->eval_f(n, ux(n, x), nx, v); v *= s.o; return r; }
   bool eval_grad_f(Index n, const Number* x, bool nx, Number* g) override { bool r = u->eval_grad_f(n, ux(n, x), nx, g); for( int i = 0; i < n; ++i ) g[i] = s.o * g[i] / s.fx(i); return r; }
   bool eval_g(Index n, const Number* x, bool nx, Index m, Number* g) override { bool r = u->eval_g(n, ux(n, x), nx, m, g); for( int j = 0; j < m; ++j ) g[j] *= s.fg(j); return r; }
   bool eval_jac_g(Index n, const Number* x, bool nx, Index m, Index ne, Index* ir, Index* jc, Number* v) override
   {
      if( !v ) return u->eval_jac_g(n, x, nx, m, ne, ir, jc, v);
      bool r = u->eval_jac_g(n, ux(n, x), nx, m, ne, ir, jc, v);
      for( int k = 0; k < ne; ++k ) v[k] *= s.fg(u->pr.jac[k].r) / s.fx(u->pr.jac[k].c);
      return r;
   }
   bool eval_h(Index n, const Number* x, bool nx, Number of, Index m, const Number* lam, bool nl, Index ne, Index* ir, Index* jc, Number* v) override
   {
      if( !v ) return u->eval_h(n, x, nx, of, m, lam, nl, ne, ir, jc, v);
      V l(m);
      for( int j = 0; j < m; ++j ) l[j] = lam[j] * s.fg(j);
      bool r = u->eval_h(n, ux(n, x), nx, of * s.o, m, l.data(), nl, ne, ir, jc, v);
      for( int k = 0; k < ne; ++k ) v[k] /= s.fx(u->pr.hess[k].r) * s.fx(u->pr.hess[k].c);
      return r;
   }
   Index get_number_of_nonlinear_variables() override { return u->get_number_of_nonlinear_variables(); }
   bool get_list_of_nonlinear_variables(Index k, Index* pos) override { return u->get_list_of_nonlinear_variables(k, pos); }
   bool intermediate_callback(AlgorithmMode mode, Index it, Number obj, Number ip, Number id, Number mu, Number dn, Number reg, Number ad, Number ap, Index ls, const IpoptData* d, IpoptCalculatedQuantities* q) override
   {
      u->iters.push_back(tn::Iter{(int) mode, it, obj / s.o, ip, id, mu, dn, reg, ad, ap, ls});
      V x(u->P->n);
      if( get_curr_iterate(d, q, false, u->P->n, x.data(), nullptr, nullptr, u->P->m, nullptr, nullptr) ) { ux(u->P->n, x.data()); path.push_back(xb); }
      return true;
   }
   void finalize_solution(SolverReturn st, Index n, const Number* x, const Number* zl, const Number* zu, Index m, const Number* g, const Number* lam, Number f, const IpoptData*, IpoptCalculatedQuantities*) override
   {
      tn::Result& r = u->res;
      r.finals++;
      r.status = st;
      r.x.resize(n); r.zl.resize(n); r.zu.resize(n); r.g.resize(m); r.lam.resize(m);
      for( int i = 0; i < n; ++i ) { r.x[i] = x[i] / s.fx(i); r.zl[i] = zl[i] * s.fx(i) / s.o; r.zu[i] = zu[i] * s.fx(i) / s.o; }
      for( int j = 0; j < m; ++j ) { r.g[j] = g[j] / s.fg(j); r.lam[j] = lam[j] * s.fg(j) / s.o; }
      r.f = f / s.o;
   }
};

static const std::vector<tn::Opts>& treatments()
{
   static std::vector<tn::Opts> T = {
      {{"fixed_variable_treatment", "make_constraint"}}, {{"fixed_variable_treatment", "relax_bounds"}}, {{"bound_relax_factor", "1e-8"}}, {{"bound_relax_factor", "1e-3"}},
      {{"mu_strategy", "adaptive"}}, {{"hessian_approximation", "limited-memory"}}, {{"start_with_resto", "yes"}}, {{"mehrotra_algorithm", "yes"}},
      {{"warm_start_init_point", "yes"}}, {{"nlp_lower_bound_inf", "-1e18"}}, {{"hessian_constant", "yes"}}, {{"jac_c_constant", "yes"}, {"jac_d_constant", "yes"}},
      {{"least_square_init_primal", "yes"}, {"least_square_init_duals", "yes"}}, {{"recalc_y", "yes"}}, {{"mu_target", "1e-4"}}, {{"max_iter", "3"}}, {{"corrector_type", "primal-dual"}}, {{"linear_system_scaling", "slack-based"}},
      {{"gradient_approximation", "finite-difference-values"}}, {{"jacobian_approximation", "finite-difference-values"}}, {{"limited_memory_update_type", "sr1"}, {"hessian_approximation", "limited-memory"}}, {{"expect_infeasible_problem", "yes"}}
   };
   return T;
}
/** how the factors are given */
static const int NUSER = 17, NAUTO = 16;
static std::string userFac(int k, Fac& f)
{
   int n = (int) f.x.size(), m = (int) f.g.size();
   static const double PX[] = {4, 0.125, 2, 16}, PG[] = {0.5, 8, 2};
   auto fillx = [&](double a) { for( int i = 0; i < n; ++i ) f.x[i] = PX[i] * a; };
   auto fillg = [&](double a) { for( int j = 0; j < m; ++j ) f.g[j] = PG[j] * a; };
   fillx(1);
   fillg(1);
   switch( k )
   {
      case 0: f.o = 4; f.usex = f.useg = true; return "all";
      case 1: f.o = -8; f.usex = f.useg = true; return "all, maximize";
      case 2: f.o = 1. / 64; return "objective small";
      case 3: f.o = -1; return "maximize";
      case 4: f.usex = true; return "x";
      case 5: f.useg = true; return "g";
      case 6: f.usex = true; for( int i = 1; i < n; ++i ) f.x[i] = 1; return "x0 only";
      case 7: f.usex = true; for( int i = 0; i + 1 < n; ++i ) f.x[i] = 1; f.x[n - 1] = 8; return "last x only";
      case 8: f.useg = true; for( int j = 1; j < m; ++j ) f.g[j] = 1; return "g0 only";
      case 9: f.useg = true; for( int j = 0; j + 1 < m; ++j ) f.g[j] = 1; if( m ) f.g[m - 1] = 4; return "last g only";
      case 10: f.o = 2; f.usex = true; return "objective and x";
      case 11: f.o = 0.5; f.useg = true; fillg(-1); for( double& v : f.g ) v = -v; return "objective and g";
      case 12: f.usex = f.useg = true; for( double& v : f.x ) v = 1. / v; for( double& v : f.g ) v = 1. / v; return "inverse";
      case 13: f.o = 3; f.usex = f.useg = true; fillx(0.3); fillg(0.7); return "odd";
      case 14: f.o = -0.1; f.usex = f.useg = true; fillx(3); fillg(1.3); return "odd, maximize";
      case 15: f.o = 1000; f.useg = true; fillg(100); return "large";
      case 16: return "nothing used";
   }
   return "";
}

static void body(mc::Explorer& ex)
{
   sp::Problem p;
   std::string what;
   bool special = ex.mode == "special" || ex.mode == "special-auto";
   bool autoM = ex.mode == "shapes-auto" || ex.mode == "special-auto";
   int fam_ = -1;
   if( special )
   {
      int k = ex.choose(fam::NSPECIAL);
      p = fam::special(k);
      int fx = ex.choose(p.n + 1);
      if( fx ) { int i = fx - 1; p.xl[i] = p.xu[i] = std::fabs(p.x0[i]) < 1e-9 ? 0.5 : std::max(0.02, p.x0[i]); }
      ex.shardPoint();
      what = fmt("special%d fix %d", k, fx - 1);
   }
   else
   {
      fam::Shape s = fam::chooseShape(ex, 1, ex.thorough ? 3 : 2, 0, 2, {0, 1});
      if( autoM && !ex.thorough && s.family ) throw mc::Skip();
      p = fam::make(s);
      fam_ = s.family;
      ex.shardPoint();
      what = fam::shapeStr(s);
   }
   int n = p.n, m = p.m;
   Fac fac(n, m);
   Solve S(p);
   int sc = 0;
   double maxgrad = 100, minval = 1e-8, target = 0, ctarget = 0, osf = 1;
   bool gradient = false;
   if( !autoM )
   {
      sc = ex.deviate(NUSER);
      what += " user-scaling: " + userFac(sc, fac);
      S.opt("nlp_scaling_method", "user-scaling");
   }
   else
   {
      sc = ex.deviate(NAUTO);
      gradient = true;
      switch( sc )
      {
         case 0: maxgrad = 0.5; break;
         case 1: maxgrad = 0.01; break;
         case 2: maxgrad = 2; break;
         case 3: maxgrad = 100; break;
         case 4: maxgrad = 1e-6; minval = 1e-2; break;
         case 5: target = 0.1; break;
         case 6: target = 50; break;
         case 7: maxgrad = 0.5; osf = -1; break;
         case 8: osf = 1e-3; break;
         case 9: osf = -100; maxgrad = 1; break;
         case 10: ctarget = 0.3; break;
         case 11: gradient = false; osf = 1; break;
         case 12: gradient = false; osf = -2; break;
         case 13: gradient = false; osf = 0.01; break;
         case 14: maxgrad = 1; minval = 0; osf = 7; break;
         case 15: target = 0.2; ctarget = 4; minval = 0.05; break;
      }
      what += fmt(" %s maxgrad %g min %g target %g constr target %g factor %g", gradient ? "gradient-based" : "none", maxgrad, minval, target, ctarget, osf);
      auto g = [](double v) { return fmt("%.17g", v); };
      if( gradient )
      {
         S.opt("nlp_scaling_max_gradient", g(maxgrad));
         S.opt("nlp_scaling_min_value", g(minval));
         if( target ) S.opt("nlp_scaling_obj_target_gradient", g(target));
         if( ctarget ) S.opt("nlp_scaling_constr_target_gradient", g(ctarget));
      }
      else S.opt("nlp_scaling_method", "none");
      if( osf != 1 ) S.opt("obj_scaling_factor", g(osf));
   }
   double sign = (autoM ? osf : fac.o) < 0 ? -1 : 1;
   static const size_t NT = treatments().size();
   size_t tr = ex.deviate((int) NT + 1);
   if( tr ) for( auto& kv : treatments()[tr - 1] ) S.opts.push_back(kv);
   for( auto& kv : S.opts ) what += " " + kv.first + "=" + kv.second;
   ex.desc = what;
   sp::Problem pm = p;       // the minimization problem
   if( sign < 0 ) for( auto& t : p.f.t ) t.c = -t.c;
   S.p = p;
   S.t = new tn::Spec(S.p);
   // all that is not affected by scaling: relaxed bounds only if asked for, termination by the scaled error alone
   double brf = 0;
   std::string fvt = "make_parameter";
   for( auto& kv : S.opts ) { if( kv.first == "bound_relax_factor" ) brf = atof(kv.second.c_str()); if( kv.first == "fixed_variable_treatment" ) fvt = kv.second; }
   if( !S.has("bound_relax_factor") && fvt != "relax_bounds" ) S.opt("bound_relax_factor", "0");
   if( fvt == "relax_bounds" ) S.opt("bound_relax_factor", brf ? fmt("%g", brf) : "1e-8");
   if( fvt == "relax_bounds" && !brf ) brf = 1e-8;
   bool pow2 = !autoM && sc != 13 && sc != 14 && sc != 15 && brf == 0 && !S.has("gradient_approximation") && !S.has("jacobian_approximation");
   for( int i = 0; i < n; ++i ) if( p.xl[i] == p.xu[i] && fvt == "relax_bounds" ) pow2 = false;
   if( fvt == "make_constraint" && fac.usex ) for( int i = 0; i < n; ++i ) if( p.xl[i] == p.xu[i] ) pow2 = false;   // the extra constraint is not scaled
   if( !S.has("max_iter") ) S.opt("max_iter", special ? "60" : "150");
   int nfix = 0, neq = 0;
   for( int j = 0; j < m; ++j ) neq += p.gl[j] == p.gu[j];
   for( int i = 0; i < n; ++i ) nfix += p.xl[i] == p.xu[i];
   if( nfix && neq > n - nfix ) throw mc::Skip();       // retried with relaxed bounds for the fixed variables
   bool warm = S.has("warm_start_init_point");
   if( warm && nfix == n && fvt.compare(0, 14, "make_parameter") == 0 ) throw mc::Skip();    // nothing to optimize: the multipliers stay the given ones
   auto start = [&](tn::Spec&) { };
   (void) start;
   for( sp::Problem* q : {&S.p, &p} )
   {
      q->zl0.assign(n, 0.); q->zu0.assign(n, 0.); q->lam0.assign(m, 0.);
      for( int i = 0; i < n; ++i ) { q->zl0[i] = sign * (0.5 + i); q->zu0[i] = sign * (0.25 + 2 * i); }
      for( int j = 0; j < m; ++j ) q->lam0[j] = sign * (j ? -0.75 : 0.375);
   }
   S.t->scaling = [&](Number& o, bool& ux, Index n_, Number* x, bool& ug, Index m_, Number* g) {
      o = fac.o; ux = fac.usex; ug = fac.useg;
      for( int i = 0; i < n_; ++i ) x[i] = fac.x[i];
      for( int j = 0; j < m_; ++j ) g[j] = fac.g[j];
      return true;
   };
   // reference factors of the gradient-based method
   Fac exp_(n, m);
   bool expKnown = true;
   if( autoM )
   {
      exp_.useg = true;
      exp_.o = 1;
      if( gradient )
      {
         V xs = p.x0, gr(n, 0.), J;
         bool asParam = fvt.compare(0, 14, "make_parameter") == 0;
         for( int i = 0; i < n; ++i ) if( asParam && p.xl[i] == p.xu[i] ) xs[i] = p.xl[i];
         p.f.grad(xs.data(), gr.data());
         p.jac(xs.data(), J);
         double mg = 0;
         auto col = [&](int i) { return !(asParam && p.xl[i] == p.xu[i]); };
         for( int i = 0; i < n; ++i ) if( col(i) ) mg = std::max(mg, std::fabs(gr[i]));
         if( target ) { if( mg != 0 ) exp_.o = target / mg; }
         else if( mg > maxgrad ) exp_.o = maxgrad / mg;
         exp_.o = std::max(exp_.o, minval);
         for( int eq = 0; eq < 2; ++eq )
         {
            double all = 0;
            V row(m, 0.);
            for( int j = 0; j < m; ++j )
            {
               if( (p.gl[j] == p.gu[j]) != (eq == 1) ) continue;
               for( int i = 0; i < n; ++i ) if( col(i) ) row[j] = std::max(row[j], std::fabs(J[j * n + i]));
               all = std::max(all, row[j]);
            }
            if( eq && fvt == "make_constraint" && nfix ) all = std::max(all, 1.);
            for( int j = 0; j < m; ++j )
            {
               if( (p.gl[j] == p.gu[j]) != (eq == 1) ) continue;
               if( ctarget > 0 ) exp_.g[j] = all > 0 ? std::max(ctarget / all, minval) : 1.;
               else if( all > maxgrad ) exp_.g[j] = std::max(std::min(1., maxgrad / row[j]), minval);
            }
         }
      }
      exp_.o *= osf;
   }
   else exp_ = fac;
   std::string bad;
   std::vector<V> path;
   mc::Hash h;
   bool fd = S.has("gradient_approximation") || S.has("jacobian_approximation");
   auto near = [](double a, double b, double rel) { return std::fabs(a - b) <= rel * std::max(1e-300, std::max(std::fabs(a), std::fabs(b))); };
   S.t->onIter = [&](tn::Spec& t, const tn::Iter& it, const IpoptData* d, IpoptCalculatedQuantities* q) -> bool {
      V x(n), zl(n), zu(n), g(m), l(m), X(n), ZL(n), ZU(n), G(m), L(m);
      if( !t.get_curr_iterate(d, q, false, n, x.data(), zl.data(), zu.data(), m, g.data(), l.data()) || !t.get_curr_iterate(d, q, true, n, X.data(), ZL.data(), ZU.data(), m, G.data(), L.data()) ) { if( bad.empty() ) bad = "query refused"; return true; }
      path.push_back(x);
      h.dr(x[0], 1e-5);
      if( !bad.empty() ) return true;
      double f = p.f.val(x.data());
      bool huge = !(std::fabs(f) < 1e8);
      for( double v : x ) huge |= !(std::fabs(v) < 1e6);
      if( huge ) return true;
      if( !near(it.obj, f, 1e-9) && std::fabs(it.obj - f) > 1e-9 ) bad = fmt("iteration %d: objective %.12g passed to the callback, the user's function has value %.12g at the iterate", it.iter, it.obj, f);
      for( int j = 0; j < m && bad.empty(); ++j ) { double v = p.g[j].val(x.data()); if( std::fabs(g[j] - v) > 1e-9 * (1 + std::fabs(v)) ) bad = fmt("iteration %d: constraint %d reported %.12g, is %.12g", it.iter, j, g[j], v); }
      if( !expKnown || !bad.empty() ) return true;
      // internal iterate = factor * user's iterate
      for( int i = 0; i < n && bad.empty(); ++i )
      {
         bool fx = p.xl[i] == p.xu[i];
         double rel = fd ? 1e-5 : 1e-12;
         if( !near(X[i], x[i] * exp_.fx(i), 1e-12) && !(fx && fvt != "relax_bounds") ) bad = fmt("iteration %d: x[%d] is %.17g, scaled %.17g, factor should be %.17g", it.iter, i, x[i], X[i], exp_.fx(i));
         if( !fx && (!near(ZL[i], zl[i] * exp_.o / exp_.fx(i), rel) || !near(ZU[i], zu[i] * exp_.o / exp_.fx(i), rel)) ) bad = fmt("iteration %d: bound multipliers of variable %d are %.17g %.17g, scaled %.17g %.17g, factor should be %.17g", it.iter, i, zl[i], zu[i], ZL[i], ZU[i], exp_.o / exp_.fx(i));
         if( !fx && (ZL[i] < 0 || ZU[i] < 0) ) bad = "negative internal multiplier";
      }
      for( int j = 0; j < m && bad.empty(); ++j )
      {
         double rel = fd ? 1e-5 : 1e-12;
         if( !near(G[j], g[j] * exp_.fg(j), rel) && std::fabs(G[j] - g[j] * exp_.fg(j)) > 1e-12 * exp_.fg(j) ) bad = fmt("iteration %d: constraint %d is %.17g, scaled %.17g, factor should be %.17g", it.iter, j, g[j], G[j], exp_.fg(j));
         if( !near(L[j], l[j] * exp_.o / exp_.fg(j), rel) ) bad = fmt("iteration %d: multiplier of constraint %d is %.17g, scaled %.17g, factor should be %.17g", it.iter, j, l[j], L[j], exp_.o / exp_.fg(j));
      }
      if( bad.empty() && it.mode == 0 && !near(q->curr_f(), f * exp_.o, fd ? 1e-5 : 1e-9) && std::fabs(q->curr_f() - f * exp_.o) > 1e-9 * std::fabs(exp_.o) ) bad = fmt("iteration %d: objective %.12g, scaled %.12g, factor should be %.12g", it.iter, f, (double) q->curr_f(), exp_.o);
      return true;
   };
   // points of evaluation are in the user's units
   V dom = p.x0;
   S.t->onEval = [&](int cb, const double* x, bool) {
      for( int i = 0; i < n && bad.empty(); ++i )
      {
         if( p.xl[i] == p.xu[i] && fvt == "relax_bounds" ) continue;
         double rl = p.xl[i] - std::min(1e-4, brf * std::max(1., std::fabs(p.xl[i]))), ru = p.xu[i] + std::min(1e-4, brf * std::max(1., std::fabs(p.xu[i])));
         if( p.xl[i] == p.xu[i] && fvt == "make_constraint" ) continue;
         bool ini = true;
         for( int k = 0; k < n; ++k ) ini &= (x[k] == p.x0[k] || p.xl[k] == p.xu[k] || fd);
         if( ini && cb != tn::C_HESS ) continue;
         double ftol = fd ? 1e-6 : 1e-11;
         if( (p.xl[i] > -1e19 && x[i] < rl - ftol * (1 + std::fabs(rl))) || (p.xu[i] < 1e19 && x[i] > ru + ftol * (1 + std::fabs(ru))) ) bad = fmt("%s evaluated at x[%d]=%.17g outside [%g, %g]", tn::cbname(cb), i, x[i], p.xl[i], p.xu[i]);
      }
   };
   // strictness in the user's units
   S.opt("dual_inf_tol", pow2 ? "1e10" : "1e-6");
   S.opt("constr_viol_tol", pow2 ? "1e10" : "1e-7");
   S.opt("compl_inf_tol", pow2 ? "1e10" : "1e-6");
   S.opt("acceptable_iter", "0");
   S.go();
   ex.count(fmt("status_%d", (int) S.st));
   for( double v : S.r().x ) h.dr(v, 1e-5);
   for( double v : S.r().lam ) h.dr(v, 1e-4);
   h.i(S.st);
   ex.outcome(h.h);
   if( !bad.empty() ) ex.fail("scaling", bad + "; " + S.p.str());
   if( !S.t->err.empty() ) ex.fail("protocol", S.t->err);
   if( autoM ? S.t->cnt[tn::C_SCALING] : S.t->cnt[tn::C_SCALING] != 1 ) ex.fail("scaling-callback", fmt("get_scaling_parameters called %d times", S.t->cnt[tn::C_SCALING]));
   if( S.r().finals )
   {
      const tn::Result& r = S.r();
      V x = r.x;
      double f = p.f.val(x.data());
      bool hon = S.has("honor_original_bounds"), big = !(std::fabs(f) < 1e8);
      if( !hon && !big && !S.has("max_iter", "0") && std::isfinite(f) && S.st >= -4 && std::fabs(r.f - f) > 1e-9 * (1 + std::fabs(f)) ) ex.fail("final-f", fmt("objective %.12g reported, is %.12g; ", r.f, f) + S.resStr());
      // signs of multipliers
      for( int i = 0; i < n; ++i ) if( p.xl[i] != p.xu[i] && (sign * r.zl[i] < 0 || sign * r.zu[i] < 0) ) ex.fail("final-sign", "bound multiplier of wrong sign; " + S.resStr());
   }
   if( S.ok() && !S.has("mu_target") && !(pow2 && nfix == n) && (fam_ == 0 || !(S.has("jac_c_constant") || S.has("hessian_constant"))) )
   {
      // optimality for the minimization problem in the user's units
      Solve K(pm);
      K.st = S.st;
      K.t->res = S.r();
      tn::Result& r = K.t->res;
      r.f *= sign;
      for( V* v : {&r.zl, &r.zu, &r.lam} ) for( double& d : *v ) d *= sign;
      if( sign < 0 ) for( int i = 0; i < n; ++i ) if( p.xl[i] == p.xu[i] ) { double z = r.zl[i] - r.zu[i]; r.zl[i] = std::max(0., z); r.zu[i] = std::max(0., -z); }    // either bound may carry it
      // pow2 solves terminate by the scaled error: tolerance in user's units follows from the factors
      double fmin = 1;
      double o = std::fabs(exp_.o);
      for( int i = 0; i < n; ++i ) fmin = std::min(fmin, std::min(o / exp_.fx(i), o) * std::min(1., std::min(exp_.fx(i), exp_.fx(i) * exp_.fx(i))));
      for( int j = 0; j < m; ++j ) fmin = std::min(fmin, std::min(exp_.fg(j), std::min(o / exp_.fg(j), o)));
      double factor = (pow2 ? 30 / std::min(fmin, o) : 3) * (fd ? 100 : 1);
      requireKkt(ex, K, factor, "kkt", fvt == "relax_bounds" || fd, std::max(brf, 1e-8));
      V xo;
      if( fam_ == 0 && !fd && qpMinimizer(pm, xo) )
      {
         double dx = maxAbsDiff(xo, S.r().x);
         if( dx > 1e-3 * std::max(1., 1e-3 * factor) + 100 * brf && !(S.has("warm_start_init_point") && dx < 1e-2) ) ex.fail("minimizer", fmt("distance %g to the minimizer; ", dx) + S.resStr());
      }
   }
   if( fam_ == 0 && !fd && !S.ok() && !S.has("max_iter", "3") && !S.has("start_with_resto") && !S.has("fixed_variable_treatment", "relax_bounds") && !warm && !S.has("mehrotra_algorithm") )
   {
      V xo;
      int act = 0;
      bool degen = !qpMinimizer(pm, xo);
      if( !degen ) for( int i = 0; i < n; ++i ) act += std::fabs(xo[i] - p.xl[i]) < 1e-6 || std::fabs(xo[i] - p.xu[i]) < 1e-6;
      if( !degen ) for( int j = 0; j < m; ++j ) { double g = p.g[j].val(xo.data()); act += std::fabs(g - p.gl[j]) < 1e-6 || std::fabs(g - p.gu[j]) < 1e-6; }
      if( !degen && act <= n ) ex.fail("not-solved", "strictly convex problem not solved under scaling; " + S.resStr());
   }
   // the user who scales by hand
   if( pow2 )
   {
      Solve R(S.p);
      R.opts = S.opts;
      for( auto& kv : R.opts ) if( kv.first == "nlp_scaling_method" ) kv.second = "none";
      R.prepare();
      SmartPtr<ByHand> bh = new ByHand(GetRawPtr(R.t), fac);
      R.run.hook = &R.hook;
      if( ex.verbose ) S.hook.record = R.hook.record = true;
      ApplicationReturnStatus st = R.run.solve(GetRawPtr(bh));
      if( ex.verbose )
      {
         Solve T(S.p); T.opts = S.opts; T.hook.record = true; T.t->scaling = S.t->scaling;
         T.go();
         for( size_t k = 0; k < T.hook.calls.size() && k < R.hook.calls.size(); ++k )
         {
            auto &a = T.hook.calls[k], &b = R.hook.calls[k];
            auto cmp = [&](const char* w, const V& u, const V& v) { for( size_t i = 0; i < u.size(); ++i ) if( u[i] != v[i] ) fprintf(stderr, "call %zu %s[%zu] %.17g %.17g\n", k, w, i, u[i], v[i]); };
            cmp("A", a.A, b.A); cmp("rhs", a.rhs, b.rhs); cmp("sol", a.sol, b.sol);
            if( !bitEq(a.A, b.A) || !bitEq(a.rhs, b.rhs) ) break;
         }
      }
      ex.count("by-hand-comparisons");
      // rounding differs (sums are formed in another order), so the comparison has a tolerance and stops where errors could have grown
      auto same = [](const V& a, const V& b, double tol) { for( size_t i = 0; i < a.size(); ++i ) if( !(std::fabs(a[i] - b[i]) <= tol * (1 + std::fabs(a[i]))) ) return false; return true; };
      size_t K = special ? 3 : 6;
      bool restoSeen = false;
      for( size_t k = 0; k < path.size() && k < K && !restoSeen; ++k )
      {
         if( k >= bh->path.size() ) ex.fail("by-hand", fmt("scaling by hand takes %zu instead of %zu iterations", bh->path.size(), path.size()));
         restoSeen = S.t->iters[k].mode != 0;
         if( !same(path[k], bh->path[k], 1e-7) ) ex.fail("by-hand", fmt("iterate %zu differs from that of scaling by hand by %g; ", k, maxAbsDiff(path[k], bh->path[k])) + S.resStr());
      }
      const tn::Result &a = S.r(), &b = R.r();
      if( a.finals != b.finals ) ex.fail("by-hand", "other number of final reports than with scaling by hand");
      bool ok2 = st == Solve_Succeeded || st == Solved_To_Acceptable_Level;
      bool lie = fam_ != 0 && (S.has("hessian_constant") || S.has("jac_c_constant"));      // derivatives declared constant that are not
      if( S.ok() != ok2 && !special && !lie && !S.has("mehrotra_algorithm") && !restoSeen ) ex.fail("by-hand", fmt("scaling by hand ends with status %d; ", (int) st) + S.resStr());
      if( S.ok() && ok2 && !special && !lie && !(fam_ != 0 && S.has("mehrotra_algorithm")) )      // (Mehrotra: no globalization, rounding may decide where it ends)
      {
         ex.count("by-hand-same-solution");
         if( !same(a.x, b.x, 1e-4) || !same(a.g, b.g, 1e-4) || std::fabs(a.f - b.f) > 1e-4 * (1 + std::fabs(a.f)) ) ex.fail("by-hand", "solution differs from that of scaling by hand: " + S.resStr() + " / " + R.resStr());
      }
   }
}

int main(int argc, char** argv)
{
   mc::Explorer ex;
   return ex.main(argc, argv, [](mc::Explorer& e) { body(e); });
}
