// C12: the first iterate, with and without warm start, against an independent reconstruction of the documented rules
#include "solvelib.hpp"
#include "IpDenseVector.hpp"

static V vals(const Vector& v)
{
   const DenseVector* d = dynamic_cast<const DenseVector*>(&v);
   V r;
   if( !d ) return V(v.Dim(), NAN);
   for( int i = 0; i < d->Dim(); ++i ) r.push_back(d->IsHomogeneous() ? d->Scalar() : d->Values()[i]);
   return r;
}

/** the internal problem and first iterate, one entry per user variable / user constraint */
struct Init
{
   V x, s, zl, zu, vl, vu, yc;       // s, vl, vu: indexed by user constraint; yc: user constraint (all kinds)
   V fixy;                           // multipliers of the equations for fixed variables
   V xl, xu, dl, du;                 // internal bounds
};

struct Cfg
{
   tn::Opts o;
   std::string get(const char* k, const std::string& d) const { for( auto i = o.rbegin(); i != o.rend(); ++i ) if( i->first == k ) return i->second; return d; }
   bool has(const char* k) const { return get(k, "\1") != "\1"; }
   double num(const char* k, double d) const { std::string v = get(k, ""); return v.empty() ? d : atof(v.c_str()); }
};

static double relaxed(double b, double dir, double brf) { return std::fabs(b) >= 1e19 ? b : b + dir * std::min(1e-4, brf * std::max(1., std::fabs(b))); }
static double push(double v, double L, double U, double kp, double kf)
{
   bool hl = L > -1e18, hu = U < 1e18;
   if( hl ) v = std::max(v, L);
   if( hu ) v = std::min(v, U);
   double pl = kp * std::max(1., std::fabs(L)), pu = kp * std::max(1., std::fabs(U));
   if( hl && hu ) { pl = std::min(pl, kf * (U - L)); pu = std::min(pu, kf * (U - L)); }
   double dl = hl ? std::max(0., L + pl - v) : 0, du = hu ? std::max(0., v - (U - pu)) : 0;
   return v + dl - du;
}
/** solves a small dense system; false if (nearly) singular */
static bool gauss(V A, V& b)
{
   int q = (int) b.size();
   for( int c = 0; c < q; ++c )
   {
      int piv = c;
      for( int r = c; r < q; ++r ) if( std::fabs(A[r * q + c]) > std::fabs(A[piv * q + c]) ) piv = r;
      if( std::fabs(A[piv * q + c]) < 1e-9 ) return false;
      for( int j = 0; j < q; ++j ) std::swap(A[piv * q + j], A[c * q + j]);
      std::swap(b[piv], b[c]);
      for( int r = 0; r < q; ++r ) if( r != c ) { double f = A[r * q + c] / A[c * q + c]; if( f == 0 ) continue; for( int j = c; j < q; ++j ) A[r * q + j] -= f * A[c * q + j]; b[r] -= f * b[c]; }
   }
   for( int c = 0; c < q; ++c ) b[c] /= A[c * q + c];
   return true;
}

struct Scal { double f = 1; V x, g; };

static const std::vector<tn::Opts>& treatments(bool warm)
{
   static std::vector<tn::Opts> W = {
      {}, {{"warm_start_bound_push", "0.3"}, {"warm_start_bound_frac", "0.1"}}, {{"warm_start_bound_push", "1e-9"}, {"warm_start_slack_bound_push", "1e-9"}, {"warm_start_bound_frac", "1e-9"}, {"warm_start_slack_bound_frac", "1e-9"}}, {{"warm_start_bound_frac", "0.5"}, {"warm_start_bound_push", "10"}},
      {{"warm_start_slack_bound_push", "0.25"}}, {{"warm_start_slack_bound_frac", "0.4"}, {"warm_start_slack_bound_push", "3"}}, {{"warm_start_mult_bound_push", "0.5"}}, {{"warm_start_mult_bound_push", "1e-10"}}, {{"warm_start_mult_init_max", "0.65"}}, {{"warm_start_mult_init_max", "-1"}},
      {{"warm_start_entire_iterate", "yes"}}, {{"bound_push", "0.2"}, {"bound_frac", "0.2"}}, {{"slack_bound_push", "0.3"}, {"slack_bound_frac", "0.3"}}, {{"bound_mult_init_val", "7"}}, {{"bound_mult_init_method", "mu-based"}}, {{"least_square_init_primal", "yes"}}, {{"least_square_init_duals", "yes"}},
      {{"constr_mult_init_max", "0"}}, {{"warm_start_target_mu", "1e-2"}}, {{"warm_start_target_mu", "1e-6"}},
      {{"bound_relax_factor", "0"}}, {{"bound_relax_factor", "1e-2"}}, {{"fixed_variable_treatment", "make_constraint"}}, {{"fixed_variable_treatment", "relax_bounds"}}, {{"obj_scaling_factor", "10"}}, {{"obj_scaling_factor", "-0.5"}}, {{"nlp_scaling_method", "user-scaling"}}, {{"nlp_scaling_method", "user-scaling"}, {"obj_scaling_factor", "4"}},
      {{"mu_init", "1e-5"}}, {{"mu_strategy", "adaptive"}}, {{"hessian_approximation", "limited-memory"}}, {{"line_search_method", "cg-penalty"}}, {{"honor_original_bounds", "yes"}}, {{"jac_c_constant", "yes"}}, {{"fixed_variable_treatment", "make_parameter_nodual"}}, {{"start_with_resto", "yes"}}, {{"derivative_test", "first-order"}}
   };
   static std::vector<tn::Opts> C = {
      {}, {{"bound_push", "0.3"}, {"bound_frac", "0.1"}}, {{"bound_push", "1e-9"}, {"bound_frac", "1e-9"}}, {{"bound_frac", "0.5"}, {"bound_push", "10"}}, {{"bound_push", "0.2"}}, {{"slack_bound_push", "0.25"}}, {{"slack_bound_push", "3"}, {"slack_bound_frac", "0.4"}},
      {{"bound_mult_init_val", "7"}}, {{"bound_mult_init_val", "1e-7"}}, {{"bound_mult_init_method", "mu-based"}}, {{"bound_mult_init_method", "mu-based"}, {"mu_init", "1e-4"}}, {{"constr_mult_init_max", "0"}}, {{"constr_mult_init_max", "1e-3"}}, {{"constr_mult_init_max", "0.5"}},
      {{"least_square_init_primal", "yes"}}, {{"least_square_init_duals", "yes"}}, {{"least_square_init_duals", "yes"}, {"bound_mult_init_val", "0.2"}}, {{"least_square_init_primal", "yes"}, {"least_square_init_duals", "yes"}}, {{"least_square_init_primal", "yes"}, {"bound_push", "1e-9"}, {"bound_frac", "1e-9"}},
      {{"warm_start_bound_push", "0.3"}, {"warm_start_mult_bound_push", "5"}, {"warm_start_slack_bound_push", "0.4"}}, {{"bound_relax_factor", "0"}}, {{"bound_relax_factor", "1e-2"}}, {{"fixed_variable_treatment", "make_constraint"}}, {{"fixed_variable_treatment", "relax_bounds"}}, {{"obj_scaling_factor", "10"}},
      {{"obj_scaling_factor", "-0.5"}}, {{"nlp_scaling_method", "user-scaling"}}, {{"mu_strategy", "adaptive"}}, {{"hessian_approximation", "limited-memory"}}, {{"honor_original_bounds", "yes"}}, {{"fixed_variable_treatment", "make_parameter_nodual"}}, {{"mehrotra_algorithm", "yes"}}, {{"line_search_method", "cg-penalty"}}
   };
   return warm ? W : C;
}

static void body(mc::Explorer& ex)
{
   const bool warm = ex.mode != "cold";
   fam::Shape sh = ex.thorough ? fam::chooseShape(ex, 1, 3, 0, 2, {0, 1}) : fam::chooseShape(ex, 1, 2, 0, 2, {0});
   if( ex.thorough && sh.n == 3 && (sh.m == 2 || sh.family == 1) ) throw mc::Skip();
   if( !ex.thorough && sh.n == 2 && sh.m == 2 && sh.c[0] > sh.c[1] && (sh.b[0] > 1 || sh.b[1] > 1) ) throw mc::Skip();
   ex.shardPoint();
   sp::Problem p = fam::make(sh);
   const int n = p.n, m = p.m;
   Cfg cfg;
   int nt = 0;
   std::string what = fam::shapeStr(sh);
   for( int k = 0; k < (ex.thorough ? 2 : 1); ++k )
   {
      int t = ex.deviate((int) treatments(warm).size());
      for( auto& kv : treatments(warm)[t] ) { if( k && cfg.has(kv.first.c_str()) ) throw mc::Skip(); }
      for( auto& kv : treatments(warm)[t] ) { cfg.o.push_back(kv); what += " " + kv.first + "=" + kv.second; }
      if( t ) ++nt;
   }
   static const double XT[] = {0.3, -0.5, 1.2, -0.5 + 1e-9, 5, -7, 1.2 - 4e-3, -0.497, 0};
   static const double ZT[] = {0.37, 0, 1e-8, 1e7, -1, 2.5};
   static const double LT[] = {0.6, 0, -0.7, 3e7, -2e7, 3, -1e-7};
   int px = ex.choose(9), pz = warm ? ex.choose(ex.thorough && nt < 2 ? 6 : 3) : 0;
   if( !ex.thorough && warm ) pz = (pz * 2 + px) % 6;
   for( int i = 0; i < n; ++i ) p.x0[i] = XT[(px + 2 * i) % 9];
   p.zl0.assign(n, 0.);
   p.zu0.assign(n, 0.);
   p.lam0.assign(m, 0.);
   for( int i = 0; i < n; ++i ) { p.zl0[i] = ZT[(pz + 2 * i) % 6]; p.zu0[i] = ZT[(pz + 2 * i + 5) % 6] * 1.1; }
   for( int j = 0; j < m; ++j ) p.lam0[j] = LT[(pz + px + 3 * j) % 7];
   ex.desc = what + fmt(" x0 pattern %d dual pattern %d", px, pz);
   // ---- scaling in force
   Scal sc;
   sc.x.assign(n, 1.);
   sc.g.assign(m, 1.);
   Solve S(p);
   S.opts = cfg.o;
   const bool us = cfg.get("nlp_scaling_method", "") == "user-scaling";
   if( us )
   {
      sc.f = 2;
      for( int i = 0; i < n; ++i ) sc.x[i] = i ? 0.25 : 3;
      for( int j = 0; j < m; ++j ) sc.g[j] = j ? 8 : 0.5;
      S.t->scaling = [&](Number& o_, bool& ux, Index nn, Number* x, bool& ug, Index mm, Number* g) { o_ = 2; ux = ug = true; for( int i = 0; i < nn; ++i ) x[i] = sc.x[i]; for( int j = 0; j < mm; ++j ) g[j] = sc.g[j]; return true; };
   }
   else S.opt("nlp_scaling_method", "none");
   sc.f *= cfg.num("obj_scaling_factor", 1);
   if( warm ) S.opt("warm_start_init_point", "yes");
   S.opt("print_level", "0");
   // ---- observe
   bool seen = false;
   Snap q;
   Init got;
   std::string mode;
   int itMode = -1;
   S.t->onIter = [&](tn::Spec& t, const tn::Iter& it, const IpoptData* d, IpoptCalculatedQuantities* cq) {
      if( seen ) return false;
      seen = true;
      itMode = it.mode;
      q = Snap(t, d, cq);
      if( IsValid(d->curr()) )
      {
         got.s = vals(*d->curr()->s());
         got.vl = vals(*d->curr()->v_L());
         got.vu = vals(*d->curr()->v_U());
         got.yc = vals(*d->curr()->y_c());
         got.x = vals(*d->curr()->x());
         got.zl = vals(*d->curr()->z_L());
         got.zu = vals(*d->curr()->z_U());
         got.fixy = vals(*d->curr()->y_d());
      }
      return false;
   };
   bool iterateGiven = false;
   V given;
   if( warm && cfg.get("warm_start_entire_iterate", "no") == "yes" && px % 2 )
   {
      iterateGiven = true;
      S.t->warmIterate = [&](IteratesVector& it) {
         // distinct values everywhere
         double v = 0.11;
         for( int k = 0; k < 8; ++k )
         {
            SmartPtr<const Vector> c = it.GetComp(k);
            DenseVector* d = dynamic_cast<DenseVector*>(const_cast<Vector*>(GetRawPtr(c)));
            if( !d ) return false;
            Number* w = d->Values();
            for( int i = 0; i < d->Dim(); ++i ) { w[i] = v; given.push_back(v); v += 0.03; }
         }
         return true;
      };
   }
   S.go();
   if( !S.t->err.empty() ) ex.fail("protocol", S.t->err);
   std::string fvt = cfg.get("fixed_variable_treatment", "make_parameter");
   {
      // documented fallback if removing the fixed variables leaves too few degrees of freedom
      int neq = 0, nf = 0;
      for( int j = 0; j < m; ++j ) neq += p.gl[j] == p.gu[j];
      for( int i = 0; i < n; ++i ) nf += p.xl[i] != p.xu[i];
      if( fvt.substr(0, 14) == "make_parameter" && nf < n && nf > 0 && nf < neq ) fvt = "relax_bounds";
   }
   const bool param = fvt == "make_parameter" || fvt == "make_parameter_nodual", mkcon = fvt == "make_constraint";
   const double brf = cfg.num("bound_relax_factor", 1e-8);
   mc::Hash h;
   h.i(S.st);
   if( warm != S.t->init_z_seen && seen && n && !(warm && iterateGiven) )
   {
      // nothing to be initialized if all variables are fixed
      ex.fail(warm ? "multipliers-not-requested" : "multipliers-requested", fmt("bound multipliers were %srequested", S.t->init_z_seen ? "" : "not "));
   }
   if( !warm && S.t->init_lam_seen && seen ) ex.fail("multipliers-requested", "constraint multipliers were requested without warm start");
   bool anyFree = false;
   for( int i = 0; i < n; ++i ) anyFree |= p.xl[i] != p.xu[i];
   if( !seen )
   {
      ex.count("no-iterate");
      h.i(px);
      ex.outcome(h.h);
      // everything fixed or too few degrees of freedom end without an iterate
      int neq = 0, nf = 0;
      for( int j = 0; j < m; ++j ) neq += p.gl[j] == p.gu[j];
      for( int i = 0; i < n; ++i ) nf += p.xl[i] != p.xu[i];
      bool overflow = cfg.get("least_square_init_primal", "") == "yes" && sh.family == 1 && S.st == Invalid_Number_Detected;      // exp() of the least-square point
      if( anyFree && !(neq > nf) && !(brf == 0) && !overflow ) ex.fail("no-iterate", fmt("no iteration callback, status %d", (int) S.st));
      return;
   }
   if( cfg.get("start_with_resto", "") == "yes" || itMode != 0 ) { ex.count("restoration"); if( itMode != 0 ) return; }
   // ---- oracle, in the internal space
   auto ne = [&](double a, double b) { return !(std::fabs(a - b) <= 1e-10 * std::max(1., std::fabs(b))); };
   const bool mehr = cfg.get("mehrotra_algorithm", "no") == "yes";
   double kp, kf, skp, skf;
   if( warm )
   {
      kp = cfg.has("warm_start_bound_push") ? cfg.num("warm_start_bound_push", 0) : cfg.num("bound_push", 1e-3);
      kf = cfg.has("warm_start_bound_frac") ? cfg.num("warm_start_bound_frac", 0) : cfg.num("bound_frac", 1e-3);
      skp = cfg.has("warm_start_slack_bound_push") ? cfg.num("warm_start_slack_bound_push", 0) : cfg.num("bound_push", 1e-3);
      skf = cfg.has("warm_start_slack_bound_frac") ? cfg.num("warm_start_slack_bound_frac", 0) : cfg.num("bound_frac", 1e-3);
   }
   else
   {
      kp = cfg.num("bound_push", mehr ? 10 : 1e-2);
      kf = cfg.num("bound_frac", mehr ? 0.2 : 1e-2);
      skp = cfg.has("slack_bound_push") ? cfg.num("slack_bound_push", 0) : kp;
      skf = cfg.has("slack_bound_frac") ? cfg.num("slack_bound_frac", 0) : kf;
   }
   std::vector<int> var, ineq, eq;        // internal x, d, c
   for( int i = 0; i < n; ++i ) if( !(param && p.xl[i] == p.xu[i]) ) var.push_back(i);
   for( int j = 0; j < m; ++j ) (p.gl[j] == p.gu[j] ? eq : ineq).push_back(j);
   auto fx = [&](int i) { return p.xl[i] == p.xu[i]; };
   auto lo = [&](int i) { return fx(i) && mkcon ? -1e20 : p.xl[i] <= -1e19 ? -1e20 : relaxed(p.xl[i], -1, fx(i) && brf == 0 ? 1e-8 : brf) * sc.x[i]; };
   auto hi = [&](int i) { return fx(i) && mkcon ? 1e20 : p.xu[i] >= 1e19 ? 1e20 : relaxed(p.xu[i], 1, fx(i) && brf == 0 ? 1e-8 : brf) * sc.x[i]; };
   auto dlo = [&](int j) { return p.gl[j] <= -1e19 ? -1e20 : relaxed(p.gl[j], -1, brf) * sc.g[j]; };
   auto dhi = [&](int j) { return p.gu[j] >= 1e19 ? 1e20 : relaxed(p.gu[j], 1, brf) * sc.g[j]; };
   if( got.x.size() != var.size() || got.s.size() != ineq.size() || got.yc.size() < eq.size() ) ex.fail("dimensions", "unexpected internal dimensions");
   // user-space snapshot agrees with the internal iterate (other checks cover this; here it ties the two views)
   for( size_t k = 0; k < var.size(); ++k ) if( ne(q.x[var[k]] * sc.x[var[k]], got.x[k]) ) ex.fail("views", fmt("x[%d]: user view %.17g, internal %.17g", var[k], q.x[var[k]], got.x[k]));
   bool relaxNoInterior = brf == 0 && fvt == "relax_bounds";
   for( int i = 0; i < n; ++i ) if( relaxNoInterior && fx(i) ) { ex.count("no-interior"); return; }
   const double tmu = warm ? cfg.num("warm_start_target_mu", 0) : 0;
   const bool lsp = !warm && cfg.get("least_square_init_primal", mehr ? "yes" : "no") == "yes", lsd = !warm && cfg.get("least_square_init_duals", "no") == "yes";
   // primal point requested
   V xreq(n);
   for( int i = 0; i < n; ++i ) xreq[i] = fx(i) && param ? p.xl[i] : p.x0[i];
   bool knowX = true;
   if( lsp )
   {
      // min |x|^2+|s|^2 (internal variables) subject to the linearized constraints
      V J;
      p.jac(xreq.data(), J);
      int nv = (int) var.size(), nd = (int) ineq.size(), ncc = (int) eq.size();
      int nfx = 0;
      std::vector<int> fxs;
      if( mkcon ) for( int i = 0; i < n; ++i ) if( fx(i) ) { fxs.push_back(i); ++nfx; }
      int rows = ncc + nd + nfx, q_ = nv + nd + rows;
      V A(q_ * q_, 0.), b(q_, 0.);
      for( int k = 0; k < nv + nd; ++k ) A[k * q_ + k] = 1;
      auto setA = [&](int r, int c, double v) { A[(nv + nd + r) * q_ + c] = v; A[c * q_ + nv + nd + r] = v; };
      for( int r = 0; r < ncc + nd; ++r )
      {
         int j = r < ncc ? eq[r] : ineq[r - ncc];
         double rhs = (r < ncc ? p.gl[j] : 0.) - p.g[j].val(xreq.data());
         for( int k = 0; k < nv; ++k ) { double a = J[j * n + var[k]]; setA(r, k, a * sc.g[j] / sc.x[var[k]]); rhs += a * xreq[var[k]]; }
         if( r >= ncc ) setA(r, nv + r - ncc, -1);
         b[nv + nd + r] = rhs * sc.g[j];
      }
      for( int r = 0; r < nfx; ++r ) { int k = (int) (std::find(var.begin(), var.end(), fxs[r]) - var.begin()); setA(ncc + nd + r, k, 1); b[nv + nd + ncc + nd + r] = p.xl[fxs[r]]; }
      if( us && nfx ) knowX = false;
      if( knowX && gauss(A, b) ) for( int k = 0; k < nv; ++k ) xreq[var[k]] = b[k] / sc.x[var[k]];
      else knowX = false;
   }
   if( iterateGiven && !given.empty() ) for( size_t k = 0; k < var.size(); ++k ) xreq[var[k]] = given[k] / sc.x[var[k]];
   V xi(n);     // internal x used
   for( size_t k = 0; k < var.size(); ++k )
   {
      int i = var[k];
      double want = push(xreq[i] * sc.x[i], lo(i), hi(i), kp, kf);
      if( tmu <= 0 && knowX && ne(got.x[k], want) )
         ex.fail("x", fmt("first iterate has x[%d]=%.15g, the %s gives %.15g (bounds %g %g, push %g frac %g)", i, got.x[k] / sc.x[i], lsp ? "least-square point" : "starting point", want / sc.x[i], lo(i), hi(i), kp, kf));
      // (a push below the rounding error of the bound cannot be kept)
      bool lost = lo(i) > -1e18 && hi(i) < 1e18 && std::min(kp, kf * (hi(i) - lo(i))) < 1e-15 * std::max(1., std::fabs(lo(i)));
      if( (!(got.x[k] > lo(i)) || !(got.x[k] < hi(i))) && !lost ) ex.fail("interior", fmt("first x[%d]=%.17g is not strictly inside its bounds %.17g %.17g", i, got.x[k], lo(i), hi(i)));
      xi[i] = got.x[k];
      h.dr(got.x[k]);
   }
   // constraint values at the (user) point the slacks are made from: with warm start the requested point, otherwise the pushed one
   V xs(n);
   for( int i = 0; i < n; ++i ) xs[i] = fx(i) && param ? p.xl[i] : warm ? xreq[i] : xi[i] / sc.x[i];
   size_t off = 0;
   if( iterateGiven ) off = var.size();
   for( size_t k = 0; k < ineq.size(); ++k )
   {
      int j = ineq[k];
      double d = iterateGiven && !given.empty() ? given[off + k] : p.g[j].val(xs.data()) * sc.g[j];
      double want = push(d, dlo(j), dhi(j), skp, skf);
      if( tmu <= 0 && ne(got.s[k], want) ) ex.fail("s", fmt("first iterate has slack %.15g for constraint %d, expected %.15g (value %g, bounds %g %g, push %g frac %g)", got.s[k], j, want, d, dlo(j), dhi(j), skp, skf));
      if( !(got.s[k] > dlo(j)) || !(got.s[k] < dhi(j)) ) ex.fail("interior", fmt("first slack %.17g of constraint %d is not strictly inside its bounds", got.s[k], j));
      h.dr(got.s[k]);
   }
   // ---- multipliers: internal values got.zl (per lower bound), got.zu, vl, vu, yc, fixy = y_d
   std::vector<int> hasL, hasU, hasDL, hasDU;
   for( size_t k = 0; k < var.size(); ++k ) { if( lo(var[k]) > -1e19 ) hasL.push_back((int) k); if( hi(var[k]) < 1e19 ) hasU.push_back((int) k); }
   for( size_t k = 0; k < ineq.size(); ++k ) { if( dlo(ineq[k]) > -1e19 ) hasDL.push_back((int) k); if( dhi(ineq[k]) < 1e19 ) hasDU.push_back((int) k); }
   if( got.zl.size() != hasL.size() || got.zu.size() != hasU.size() || got.vl.size() != hasDL.size() || got.vu.size() != hasDU.size() || got.fixy.size() != ineq.size() ) ex.fail("dimensions", "unexpected number of bound multipliers");
   for( const V* v : {&got.zl, &got.zu, &got.vl, &got.vu} ) for( double d : *v ) if( !(d > 0) || !std::isfinite(d) ) ex.fail("positive", fmt("first bound multiplier is %g", d));
   auto sameAll = [&](const char* name, const V& g, const V& w) { for( size_t k = 0; k < w.size(); ++k ) if( ne(g[k], w[k]) ) ex.fail(name, fmt("%s multiplier %zu of the first iterate is %.15g, expected %.15g", name, k, g[k], w[k])); };
   for( double d : got.zl ) h.dr(d);
   for( double d : got.yc ) h.dr(d);
   for( double d : got.fixy ) h.dr(d);
   h.i(nt);
   if( warm )
   {
      double mb = cfg.num("warm_start_mult_bound_push", 1e-3), mx = cfg.num("warm_start_mult_init_max", 1e6);
      auto cap = [&](double v) { return mx > 0 ? std::min(v, mx) : v; };
      auto cap2 = [&](double v) { return mx > 0 ? std::max(-mx, std::min(v, mx)) : v; };
      V zl, zu, vl, vu, yc, yd;
      if( iterateGiven && !given.empty() )
      {
         size_t o_ = var.size() + ineq.size();
         auto take = [&](size_t cnt) { V r(given.begin() + o_, given.begin() + o_ + cnt); o_ += cnt; return r; };
         yc = take(got.yc.size());
         yd = take(ineq.size());
         zl = take(hasL.size());
         zu = take(hasU.size());
         vl = take(hasDL.size());
         vu = take(hasDU.size());
         for( V* v : {&zl, &zu, &vl, &vu} ) for( double& d : *v ) d = std::max(mb, cap(d));
         for( V* v : {&yc, &yd} ) for( double& d : *v ) d = cap2(d);
      }
      else
      {
         for( int k : hasL ) zl.push_back(std::max(mb, cap(p.zl0[var[k]] * sc.f / sc.x[var[k]])));
         for( int k : hasU ) zu.push_back(std::max(mb, cap(p.zu0[var[k]] * sc.f / sc.x[var[k]])));
         for( int j : eq ) yc.push_back(cap2(p.lam0[j] * sc.f / sc.g[j]));
         for( int j : ineq ) yd.push_back(cap2(p.lam0[j] * sc.f / sc.g[j]));
         if( mkcon && !us ) for( int i = 0; i < n; ++i ) if( fx(i) ) yc.push_back(cap2((p.zu0[i] - p.zl0[i]) * sc.f));
         for( int k : hasDL ) vl.push_back(std::max(mb, -yd[k]));
         for( int k : hasDU ) vu.push_back(std::max(mb, yd[k]));
      }
      sameAll("equality constraint", got.yc, yc);
      sameAll("inequality constraint", got.fixy, yd);
      if( tmu <= 0 )
      {
         sameAll("lower bound", got.zl, zl);
         sameAll("upper bound", got.zu, zu);
         sameAll("constraint lower side", got.vl, vl);
         sameAll("constraint upper side", got.vu, vu);
      }
   }
   else
   {
      const bool mub = cfg.get("bound_mult_init_method", "constant") == "mu-based";
      double val = cfg.num("bound_mult_init_val", mehr ? 10 : 1), mu = cfg.num("mu_init", 0.1), cmax = cfg.num("constr_mult_init_max", mehr ? 0 : 1e3);
      V zl, zu, vl, vu;
      for( int k : hasL ) zl.push_back(mub ? mu / (got.x[k] - lo(var[k])) : val);
      for( int k : hasU ) zu.push_back(mub ? mu / (hi(var[k]) - got.x[k]) : val);
      for( int k : hasDL ) vl.push_back(mub ? mu / (got.s[k] - dlo(ineq[k])) : val);
      for( int k : hasDU ) vu.push_back(mub ? mu / (dhi(ineq[k]) - got.s[k]) : val);
      bool lsq = true;
      // internal gradient and Jacobian at the first point and at the requested one
      V xu(n), gr(n, 0.), J;
      for( int i = 0; i < n; ++i ) xu[i] = fx(i) && param ? p.xl[i] : xi[i] / sc.x[i];
      p.f.grad(xu.data(), gr.data());
      p.jac(xu.data(), J);
      int nv = (int) var.size(), nd = (int) ineq.size(), ncc = (int) got.yc.size();
      auto jac = [&](const V& JJ, bool isEq, int r, int k) {
         if( isEq && r >= (int) eq.size() ) { int cnt = r - (int) eq.size(); for( int i = 0; i < n; ++i ) if( fx(i) && cnt-- == 0 ) return var[k] == i ? 1. : 0.; return 0.; }
         int j = isEq ? eq[r] : ineq[r];
         return JJ[j * n + var[k]] * sc.g[j] / sc.x[var[k]];
      };
      if( lsd )
      {
         lsq = false;
         // all multipliers from one system (matrix at the requested point, gradient at the first one)
         V J0, x0(n);
         for( int i = 0; i < n; ++i ) x0[i] = fx(i) && param ? p.xl[i] : p.x0[i];
         p.jac(x0.data(), J0);
         int q_ = nv + nd + ncc + nd;
         V A(q_ * q_, 0.), b(q_, 0.);
         bool definite = true;
         V D(nv + nd, 0.);
         for( int k : hasL ) D[k] -= 1;
         for( int k : hasU ) D[k] -= 1;
         for( int k : hasDL ) D[nv + k] -= 1;
         for( int k : hasDU ) D[nv + k] -= 1;
         for( int k = 0; k < nv + nd; ++k ) { A[k * q_ + k] = D[k]; if( D[k] == 0 ) definite = false; }
         for( int k = 0; k < nv; ++k ) b[k] = gr[var[k]] * sc.f / sc.x[var[k]];
         auto setA = [&](int r, int c, double v) { A[r * q_ + c] = v; A[c * q_ + r] = v; };
         for( int r = 0; r < ncc; ++r ) for( int k = 0; k < nv; ++k ) setA(nv + nd + r, k, jac(J0, true, r, k));
         for( int r = 0; r < nd; ++r ) { for( int k = 0; k < nv; ++k ) setA(nv + nd + ncc + r, k, jac(J0, false, r, k)); setA(nv + nd + ncc + r, nv + r, -1); }
         if( (us && ncc > (int) eq.size()) || sh.family != 0 ) definite = false;
         if( definite && gauss(A, b) )
         {
            for( size_t k = 0; k < zl.size(); ++k ) zl[k] = std::max(zl[k], -b[hasL[k]]);
            for( size_t k = 0; k < zu.size(); ++k ) zu[k] = std::max(zu[k], b[hasU[k]]);
            for( size_t k = 0; k < vl.size(); ++k ) vl[k] = std::max(vl[k], -b[nv + hasDL[k]]);
            for( size_t k = 0; k < vu.size(); ++k ) vu[k] = std::max(vu[k], b[nv + hasDU[k]]);
            V yc(b.begin() + nv + nd, b.begin() + nv + nd + ncc), yd(b.begin() + nv + nd + ncc, b.end());
            for( double& d : yc ) d = -d;
            for( double& d : yd ) d = -d;
            sameAll("equality constraint", got.yc, yc);
            sameAll("inequality constraint", got.fixy, yd);
         }
         else { ex.count("indefinite"); ex.outcome(h.h); return; }
      }
      sameAll("lower bound", got.zl, zl);
      sameAll("upper bound", got.zu, zu);
      sameAll("constraint lower side", got.vl, vl);
      sameAll("constraint upper side", got.vu, vu);
      if( lsq && !(us && ncc > (int) eq.size()) )
      {
         bool zero = ncc == nv || cmax <= 0;
         V y(got.yc);
         y.insert(y.end(), got.fixy.begin(), got.fixy.end());
         double amax = 0;
         for( double d : y ) amax = std::max(amax, std::fabs(d));
         if( zero ) { if( amax != 0 ) ex.fail("y-zero", fmt("constraint multipliers start at %g", amax)); }
         else if( ncc + nd > 0 )
         {
            // least-square multipliers by the normal equations
            int r_ = ncc + nd;
            V rx(nv), rs(nd, 0.);
            for( int k = 0; k < nv; ++k ) rx[k] = gr[var[k]] * sc.f / sc.x[var[k]];
            for( size_t k = 0; k < zl.size(); ++k ) rx[hasL[k]] -= zl[k];
            for( size_t k = 0; k < zu.size(); ++k ) rx[hasU[k]] += zu[k];
            for( size_t k = 0; k < vl.size(); ++k ) rs[hasDL[k]] -= vl[k];
            for( size_t k = 0; k < vu.size(); ++k ) rs[hasDU[k]] += vu[k];
            V B(r_ * (nv + nd), 0.), N(r_ * r_, 0.), b(r_, 0.);
            for( int r = 0; r < r_; ++r )
            {
               for( int k = 0; k < nv; ++k ) B[r * (nv + nd) + k] = jac(J, r < ncc, r < ncc ? r : r - ncc, k);
               if( r >= ncc ) B[r * (nv + nd) + nv + r - ncc] = -1;
            }
            for( int r = 0; r < r_; ++r )
            {
               for( int t = 0; t < r_; ++t ) for( int k = 0; k < nv + nd; ++k ) N[r * r_ + t] += B[r * (nv + nd) + k] * B[t * (nv + nd) + k];
               for( int k = 0; k < nv + nd; ++k ) b[r] -= B[r * (nv + nd) + k] * (k < nv ? rx[k] : rs[k - nv]);
            }
            if( gauss(N, b) )
            {
               double want = 0;
               for( double d : b ) want = std::max(want, std::fabs(d));
               if( std::fabs(want - cmax) < 1e-8 * cmax ) ;
               else if( want > cmax ) { if( amax != 0 ) ex.fail("y-max", fmt("least-square multipliers have norm %g > constr_mult_init_max, but start at %g", want, amax)); }
               else for( int r = 0; r < r_; ++r ) if( !(std::fabs(y[r] - b[r]) <= 1e-8 * std::max(1., want)) ) ex.fail("y-ls", fmt("constraint multiplier %d starts at %.15g, least-square estimate is %.15g", r, y[r], b[r]));
            }
            else ex.count("rank-deficient");
         }
      }
   }
   ex.nontrivial = true;
   ex.outcome(h.h);
}

/** warm start from a solution converges to it again */
static void again(mc::Explorer& ex)
{
   sp::Problem p;
   std::string what;
   if( ex.choose(2) == 0 )
   {
      fam::Shape s = fam::chooseShape(ex, 1, ex.thorough ? 3 : 2, 0, 2, {0, 1, 2});
      if( s.n == 3 && (s.m == 2 || s.family == 2) ) throw mc::Skip();
      if( !ex.thorough && s.n == 2 && s.m == 2 ) throw mc::Skip();
      p = fam::make(s);
      what = fam::shapeStr(s);
   }
   else
   {
      int k = ex.choose(fam::NSPECIAL);
      p = fam::special(k);
      what = fmt("special%d", k);
   }
   ex.shardPoint();
   static const std::vector<tn::Opts> T = {{}, {{"mu_strategy", "adaptive"}}, {{"nlp_scaling_method", "gradient-based"}, {"nlp_scaling_max_gradient", "0.1"}}, {{"obj_scaling_factor", "3"}}, {{"fixed_variable_treatment", "make_constraint"}}, {{"fixed_variable_treatment", "relax_bounds"}}, {{"honor_original_bounds", "yes"}}, {{"hessian_approximation", "limited-memory"}}, {{"bound_relax_factor", "0"}}};
   int t = ex.choose(ex.thorough ? (int) T.size() : 3);
   if( !ex.thorough && t ) t += ex.choose(4) * 2 + 0;
   if( t >= (int) T.size() ) throw mc::Skip();
   for( auto& kv : T[t] ) what += " " + kv.first + "=" + kv.second;
   ex.desc = what;
   static const double XR_[] = {0, 1, -2.5, 4};
   Solve A(p);
   A.opts = T[t];
   if( A.go() != Solve_Succeeded ) { ex.count("unsolved"); throw mc::Prune(); }
   // only solutions with independent gradients of the active constraints
   {
      V J;
      p.jac(A.r().x.data(), J);
      std::vector<V> rows;
      for( int i = 0; i < p.n; ++i ) { double x = A.r().x[i]; if( x - p.xl[i] < 1e-4 || p.xu[i] - x < 1e-4 ) { V r(p.n, 0.); r[i] = 1; rows.push_back(r); } }
      for( int j = 0; j < p.m; ++j ) { double g = A.r().g[j]; if( g - p.gl[j] < 1e-4 || p.gu[j] - g < 1e-4 ) rows.push_back(V(J.begin() + j * p.n, J.begin() + (j + 1) * p.n)); }
      V N(rows.size() * rows.size(), 0.), b(rows.size(), 0.);
      for( size_t a = 0; a < rows.size(); ++a ) for( size_t c = 0; c < rows.size(); ++c ) for( int i = 0; i < p.n; ++i ) N[a * rows.size() + c] += rows[a][i] * rows[c][i];
      if( !rows.empty() && !gauss(N, b) ) { ex.count("degenerate"); throw mc::Prune(); }
   }
   int how = ex.choose(2);      // a fresh application, or re-optimization with the same one
   double perturb = ex.of({0., 1e-6});
   if( t == 5 && perturb > 0 ) for( int i = 0; i < p.n; ++i ) if( p.xl[i] == p.xu[i] ) throw mc::Prune();      // no room for a perturbation
   sp::Problem w = p;
   w.x0 = A.r().x;
   for( int i = 0; i < p.n; ++i ) w.x0[i] += perturb * (1 + i);
   w.zl0 = A.r().zl;
   w.zu0 = A.r().zu;
   w.lam0 = A.r().lam;
   // bound multipliers are returned with the sign of the user's problem
   tn::Opts W = T[t];
   for( const char* o : {"warm_start_bound_push", "warm_start_bound_frac", "warm_start_slack_bound_push", "warm_start_slack_bound_frac", "warm_start_mult_bound_push"} ) W.push_back({o, "1e-9"});
   W.push_back({"warm_start_init_point", "yes"});
   W.push_back({"mu_init", "1e-9"});
   ex.desc = what + fmt(" how %d perturbation %g", how, perturb);
   Solve B(w);
   B.opts = W;
   B.go();
   if( how == 1 ) { B.t->reset(); B.again(); }
   int its = B.t->iters.empty() ? 0 : B.t->iters.back().iter;
   mc::Hash h;
   h.i(B.st);
   h.i(its);
   for( double v : B.r().x ) h.dr(v);
   ex.outcome(h.h);
   if( !B.ok() ) ex.fail("again-status", fmt("warm start from the solution ends with status %d; %s", (int) B.st, B.resStr().c_str()));
   if( !(maxAbsDiff(A.r().x, B.r().x) <= 2e-3) ) ex.fail("again-x", fmt("warm start from the solution moves it by %g: %s / %s", maxAbsDiff(A.r().x, B.r().x), A.resStr().c_str(), B.resStr().c_str()));
   int full = A.t->iters.back().iter;
   if( its > std::max(full, 6) + 10 ) ex.fail("again-iterations", fmt("warm start from the solution takes %d iterations, cold start %d", its, full));
   if( t != 6 ) requireKkt(ex, B, 10, "again", false, t == 8 ? 0 : 1e-8);
}

int main(int argc, char** argv)
{
   mc::Explorer ex;
   return ex.main(argc, argv, [](mc::Explorer& e) { if( e.mode == "again" ) again(e); else body(e); });
}
