// Shared by the solve-level harnesses: one problem, one application, one solve with the dense (or MUMPS) linear solver.
#pragma once
#include "families.hpp"
#include "dense.hpp"
#include <malloc.h>
using namespace Ipopt;
using mc::fmt;
using sp::V;

struct Solve
{
   sp::Problem p;
   tn::Opts opts;
   dn::Hook hook;
   dn::Run run;
   SmartPtr<tn::Spec> t;
   ApplicationReturnStatus st = Internal_Error;
   bool initOk = true;
   explicit Solve(const sp::Problem& p_) : p(p_) { t = new tn::Spec(p); }
   Solve(const Solve&) = delete;
   void opt(const std::string& n, const std::string& v) { opts.push_back({n, v}); }
   void prepare(bool console = false)
   {
      run.app = tn::makeApp(console);
      run.hook = &hook;
      apply();
      initOk = run.app->Initialize("") == Solve_Succeeded;
   }
   void apply() { for( auto& kv : opts ) if( !tn::setOpt(*run.app, kv.first, kv.second) ) initOk = false; }
   ApplicationReturnStatus go()
   {
      if( IsNull(run.app) ) prepare();
      return st = run.solve(GetRawPtr(t));
   }
   ApplicationReturnStatus again() { return st = run.resolve(GetRawPtr(t)); }
   const tn::Result& r() const { return t->res; }
   bool ok() const { return st == Solve_Succeeded || st == Solved_To_Acceptable_Level; }
   bool has(const char* n, const char* v = nullptr) const { for( auto& kv : opts ) if( kv.first == n && (!v || kv.second == v) ) return true; return false; }
   std::string resStr() const
   {
      std::string xs = fmt("status %d final %d f=%.12g", (int) st, r().status, r().f);
      for( size_t i = 0; i < r().x.size(); ++i ) xs += fmt(" x%zu=%.12g zl=%.4g zu=%.4g", i, r().x[i], r().zl[i], r().zu[i]);
      for( size_t j = 0; j < r().lam.size(); ++j ) xs += fmt(" g%zu=%.12g lam=%.4g", j, r().g[j], r().lam[j]);
      return xs;
   }
   uint64_t hash(double rx = 1e-5) const
   {
      mc::Hash h;
      h.i(st);
      for( double v : r().x ) h.dr(v, rx);
      for( double v : r().lam ) h.dr(v, rx * 10);
      for( double v : r().zl ) h.dr(v, rx * 10);
      return h.h;
   }
};

inline bool bitEq(const V& a, const V& b) { return a.size() == b.size() && (a.empty() || !memcmp(a.data(), b.data(), a.size() * sizeof(double))); }
inline bool sameResult(const tn::Result& a, const tn::Result& b) { return a.status == b.status && a.finals == b.finals && bitEq(a.x, b.x) && bitEq(a.zl, b.zl) && bitEq(a.zu, b.zu) && bitEq(a.g, b.g) && bitEq(a.lam, b.lam) && !memcmp(&a.f, &b.f, sizeof(double)); }
inline double maxAbsDiff(const V& a, const V& b) { double m = 0; for( size_t i = 0; i < a.size() && i < b.size(); ++i ) { double d = std::fabs(a[i] - b[i]); if( !(d <= m) ) m = d; } return a.size() == b.size() ? m : INFINITY; }

inline double violation(const sp::Problem& p, const V& x)
{
   double v = 0;
   for( int i = 0; i < p.n; ++i ) { v = std::max(v, p.xl[i] - x[i]); v = std::max(v, x[i] - p.xu[i]); }
   for( int j = 0; j < p.m; ++j ) { double g = p.g[j].val(x.data()); v = std::max(v, p.gl[j] - g); v = std::max(v, g - p.gu[j]); }
   return v;
}

/** KKT check of a reported success with default tolerances; fails the execution if violated */
inline void requireKkt(mc::Explorer& ex, const Solve& s, double factor = 1, const char* tag = "kkt", bool skipFixed = false, double brf = 1e-8, double bndtol = 1e-12)
{
   sp::KktOpt ko;
   double tol = 2e-6 * factor;
   if( s.st == Solved_To_Acceptable_Level ) tol = std::max(tol, 1e-2);
   ko.lamtol = tol;
   ko.bound_slack = brf;
   ko.skip_fixed_stat = skipFixed;
   const tn::Result& r = s.r();
   if( r.finals != 1 ) ex.fail(std::string(tag) + "-no-report", fmt("status %d with %d final reports", (int) s.st, r.finals));
   sp::Kkt k = sp::kkt(s.p, r.x.data(), r.zl.data(), r.zu.data(), r.lam.data(), r.g.data(), r.f, ko);
   double mult = 1;
   for( const V* v : {&r.zl, &r.zu, &r.lam} ) for( double d : *v ) mult = std::max(mult, std::fabs(d));
   auto chk = [&](const char* key, double v, double t_) { if( !(v <= t_) ) ex.fail(std::string(tag) + "-" + key, fmt("%s error %.3g > %.3g; %s; %s", key, v, t_, s.resStr().c_str(), s.p.str().c_str())); };
   chk("objective-value", k.fval, 1e-10);
   chk("constraint-value", k.gval, 1e-10);
   chk("bounds", k.bnd, bndtol);
   chk("feasibility", k.prim, std::max(tol, 1e-6));
   chk("stationarity", k.stat, tol * mult * 2);
   chk("complementarity", k.compl_, tol * mult * 2);
   chk("sign", k.sign, tol * 5);
   chk("absent-multiplier", k.absent, 0);
   chk("absent-constraint-multiplier", k.absentg, tol);
}

/** exact minimizer of a strictly convex quadratic with linear constraints (n <= 4), by enumeration of active sets */
inline bool qpMinimizer(const sp::Problem& p, V& xopt)
{
   int n = p.n, k = p.n + p.m;
   V zero(n, 0.), H(n * n, 0.), c(n, 0.), J;
   p.f.hess(zero.data(), H.data(), n);
   p.f.grad(zero.data(), c.data());
   p.jac(zero.data(), J);
   V g0(p.m);
   for( int j = 0; j < p.m; ++j ) g0[j] = p.g[j].val(zero.data());
   std::vector<int> st(k, 0);
   bool found = false;
   double best = INFINITY;
   long total = 1;
   for( int i = 0; i < k; ++i ) total *= 3;
   for( long code = 0; code < total; ++code )
   {
      long cc = code;
      bool valid = true;
      std::vector<int> act;
      for( int i = 0; i < k; ++i )
      {
         st[i] = cc % 3;
         cc /= 3;
         double lo = i < n ? p.xl[i] : p.gl[i - n], hi = i < n ? p.xu[i] : p.gu[i - n];
         if( st[i] == 1 && lo <= -1e19 ) valid = false;
         if( st[i] == 2 && (hi >= 1e19 || lo == hi) ) valid = false;
         if( st[i] ) act.push_back(i);
      }
      if( !valid || (int) act.size() > n ) continue;
      int q = n + (int) act.size();
      V A(q * q, 0.), b(q, 0.);
      for( int i = 0; i < n; ++i ) { for( int j = 0; j < n; ++j ) A[i * q + j] = H[i * n + j]; b[i] = -c[i]; }
      for( size_t a = 0; a < act.size(); ++a )
      {
         int i = act[a];
         for( int j = 0; j < n; ++j ) { double v = i < n ? (i == j) : J[(i - n) * n + j]; A[(n + a) * q + j] = v; A[j * q + n + a] = v; }
         double side = i < n ? (st[i] == 1 ? p.xl[i] : p.xu[i]) : (st[i] == 1 ? p.gl[i - n] : p.gu[i - n]) - g0[i - n];
         b[n + a] = side;
      }
      // Gaussian elimination
      bool sing = false;
      for( int col = 0; col < q && !sing; ++col )
      {
         int piv = col;
         for( int r = col; r < q; ++r ) if( std::fabs(A[r * q + col]) > std::fabs(A[piv * q + col]) ) piv = r;
         if( std::fabs(A[piv * q + col]) < 1e-10 ) { sing = true; break; }
         if( piv != col ) { for( int j = 0; j < q; ++j ) std::swap(A[piv * q + j], A[col * q + j]); std::swap(b[piv], b[col]); }
         for( int r = 0; r < q; ++r ) if( r != col ) { double f = A[r * q + col] / A[col * q + col]; if( f == 0 ) continue; for( int j = col; j < q; ++j ) A[r * q + j] -= f * A[col * q + j]; b[r] -= f * b[col]; }
      }
      if( sing ) continue;
      V x(n);
      for( int i = 0; i < n; ++i ) x[i] = b[i] / A[i * q + i];
      if( violation(p, x) > 1e-9 ) continue;
      bool sgn = true;
      for( size_t a = 0; a < act.size(); ++a )
      {
         int i = act[a];
         double lo = i < n ? p.xl[i] : p.gl[i - n], hi = i < n ? p.xu[i] : p.gu[i - n], l = b[n + a] / A[(n + a) * q + n + a];
         if( lo == hi ) continue;
         if( st[i] == 1 && l > 1e-9 ) sgn = false;     // grad f + A' l = 0: lower active needs l <= 0
         if( st[i] == 2 && l < -1e-9 ) sgn = false;
      }
      if( !sgn ) continue;
      double f = p.f.val(x.data());
      if( f < best ) { best = f; xopt = x; found = true; }
   }
   return found;
}

/** everything the mid-solve queries return */
struct Snap
{
   bool ok1 = false, ok2 = false;
   V x, zl, zu, g, lam, xlv, xuv, cl, cu, gl, cv, cg;
   Snap() {}
   Snap(const tn::Spec& t, const IpoptData* d, IpoptCalculatedQuantities* q, bool scaled = false)
   {
      int n = t.P->n, m = t.P->m;
      const double B = -1.2345e77;
      for( V* v : {&x, &zl, &zu, &xlv, &xuv, &cl, &cu, &gl} ) v->assign(n + 1, B);
      for( V* v : {&g, &lam, &cv, &cg} ) v->assign(m + 1, B);
      ok1 = t.get_curr_iterate(d, q, scaled, n, x.data(), zl.data(), zu.data(), m, g.data(), lam.data());
      ok2 = t.get_curr_violations(d, q, scaled, n, xlv.data(), xuv.data(), cl.data(), cu.data(), gl.data(), m, cv.data(), cg.data());
      for( V* v : {&x, &zl, &zu, &xlv, &xuv, &cl, &cu, &gl, &g, &lam, &cv, &cg} ) { if( v->back() != B ) ok1 = false; v->pop_back(); }
   }
   /** first difference to the definition of the quantities; empty if none. brf: bound_relax_factor, tolBnd: constr_viol_tol */
   std::string check(const sp::Problem& P, double brf, bool fixedParam, bool relaxFixed, double rt = 1e-9, double sgn = 1) const
   {
      if( !ok1 || !ok2 ) return "query refused or wrote out of bounds";
      int n = P.n, m = P.m;
      double lmax = 1;
      for( double v : x ) if( !(std::fabs(v) < 1e6) ) return "";      // astronomic values: rounding errors dominate
      for( int j = 0; j < m; ++j ) if( !(std::fabs(P.g[j].val(x.data())) < 1e8) ) return "";
      for( const V* v : {&zl, &zu, &lam} ) for( double d : *v ) lmax = std::max(lmax, std::fabs(d));
      auto ne = [&](double a, double b, double sc) { return !(std::fabs(a - b) <= rt * std::max(1., sc)); };
      V gr(n, 0.), J;
      P.f.grad(x.data(), gr.data());
      P.jac(x.data(), J);
      double gmax = 1;
      for( double v : gr ) gmax = std::max(gmax, std::fabs(v));
      for( double v : J ) gmax = std::max(gmax, std::fabs(v) * lmax);
      for( int j = 0; j < m; ++j )
      {
         double gv = P.g[j].val(x.data());
         bool hl = P.gl[j] > -1e19, hu = P.gu[j] < 1e19;
         if( ne(g[j], gv, std::fabs(gv)) ) return fmt("g[%d]=%.12g but the constraint has value %.12g there", j, g[j], gv);
         double viol = std::max(0., std::max(hl ? P.gl[j] - gv : 0., hu ? gv - P.gu[j] : 0.));
         if( ne(cv[j], viol, std::fabs(gv)) ) return fmt("violation of constraint %d is %.12g, reported %.12g", j, viol, cv[j]);
         double lp = std::max(0., lam[j]), ln = std::max(0., -lam[j]);
         double want;
         if( hl && hu && P.gl[j] == P.gu[j] ) want = -(gv - P.gl[j]) * lam[j];
         else want = (hl ? (gv - P.gl[j]) * ln : 0.) + (hu ? (P.gu[j] - gv) * lp : 0.);
         if( ne(cg[j], want, std::fabs(gv) * lmax) ) return fmt("complementarity of constraint %d is %.12g, reported %.12g (lambda %.12g)", j, want, cg[j], lam[j]);
         for( int i = 0; i < n; ++i ) gr[i] += J[j * n + i] * lam[j];
      }
      for( int i = 0; i < n; ++i )
      {
         bool hl = P.xl[i] > -1e19, hu = P.xu[i] < 1e19, fx = P.xl[i] == P.xu[i];
         double rl = P.xl[i] - std::min(1e-4, brf * std::max(1., std::fabs(P.xl[i]))), ru = P.xu[i] + std::min(1e-4, brf * std::max(1., std::fabs(P.xu[i])));
         if( fx && fixedParam && x[i] != P.xl[i] ) return fmt("fixed variable %d is reported as %.17g", i, x[i]);
         if( !fx || relaxFixed )
         {
            if( (hl && !(x[i] >= rl - 1e-15 * std::fabs(rl))) || (hu && !(x[i] <= ru + 1e-15 * std::fabs(ru))) ) return fmt("x[%d]=%.17g is outside the relaxed bounds", i, x[i]);
         }
         if( !(fx && sgn < 0) && (zl[i] * sgn < 0 || zu[i] * sgn < 0) ) return fmt("negative bound multiplier of variable %d: %g %g", i, zl[i], zu[i]);
         if( (!hl && zl[i] != 0) || (!hu && zu[i] != 0) ) return fmt("nonzero multiplier for absent bound of variable %d: %g %g", i, zl[i], zu[i]);
         double vl = hl ? std::max(0., P.xl[i] - x[i]) : 0, vu = hu ? std::max(0., x[i] - P.xu[i]) : 0;
         if( ne(xlv[i], vl, 1) ) return fmt("violation of lower bound %d is %.12g, reported %.12g", i, vl, xlv[i]);
         if( ne(xuv[i], vu, 1) ) return fmt("violation of upper bound %d is %.12g, reported %.12g", i, vu, xuv[i]);
         if( !fx )
         {
            double wl = hl ? (x[i] - rl) * zl[i] : 0, wu = hu ? (ru - x[i]) * zu[i] : 0;
            if( ne(cl[i], wl, std::fabs(x[i]) * lmax) ) return fmt("complementarity of lower bound %d is %.12g, reported %.12g", i, wl, cl[i]);
            if( ne(cu[i], wu, std::fabs(x[i]) * lmax) ) return fmt("complementarity of upper bound %d is %.12g, reported %.12g", i, wu, cu[i]);
         }
         double w = gr[i] - zl[i] + zu[i];
         if( ne(gl[i], fx && fixedParam ? 0. : w, gmax + lmax) ) return fmt("gradient of Lagrangian entry %d is %.12g, reported %.12g", i, w, gl[i]);
      }
      return "";
   }
   std::string str() const
   {
      std::string s;
      for( size_t i = 0; i < x.size(); ++i ) s += fmt(" x%zu=%.12g zl=%.6g zu=%.6g", i, x[i], zl[i], zu[i]);
      for( size_t i = 0; i < g.size(); ++i ) s += fmt(" g%zu=%.12g lam=%.6g", i, g[i], lam[i]);
      return s;
   }
};
