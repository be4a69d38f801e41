// Problems given by sums of simple terms, with exact derivatives, independent of Ipopt.
#pragma once
#include <cmath>
#include <cstdio>
#include <set>
#include <string>
#include <vector>

namespace sp {
typedef std::vector<double> V;
const double INF = 1e20;

enum Kind { CONST, LIN, PROD, CUBE, EXP, SIN, LOG, SQRT, INV, QUART };
struct Term { double c; Kind k; int i = 0, j = 0; };

struct Func
{
   std::vector<Term> t;
   Func& add(double c, Kind k, int i = 0, int j = 0) { t.push_back(Term{c, k, i, j}); return *this; }
   double val(const double* x) const
   {
      double s = 0;
      for( auto& e : t )
         switch( e.k )
         {
            case CONST: s += e.c; break;
            case LIN: s += e.c * x[e.i]; break;
            case PROD: s += e.c * x[e.i] * x[e.j]; break;
            case CUBE: s += e.c * x[e.i] * x[e.i] * x[e.i]; break;
            case EXP: s += e.c * std::exp(x[e.i]); break;
            case SIN: s += e.c * std::sin(x[e.i]); break;
            case LOG: s += e.c * std::log(x[e.i]); break;
            case SQRT: s += e.c * std::sqrt(x[e.i]); break;
            case INV: s += e.c / x[e.i]; break;
            case QUART: s += e.c * x[e.i] * x[e.i] * x[e.i] * x[e.i]; break;
         }
      return s;
   }
   void grad(const double* x, double* g, double w = 1) const   // g += w * gradient
   {
      for( auto& e : t )
      {
         double c = w * e.c;
         switch( e.k )
         {
            case CONST: break;
            case LIN: g[e.i] += c; break;
            case PROD: g[e.i] += c * x[e.j]; g[e.j] += c * x[e.i]; break;
            case CUBE: g[e.i] += 3 * c * x[e.i] * x[e.i]; break;
            case EXP: g[e.i] += c * std::exp(x[e.i]); break;
            case SIN: g[e.i] += c * std::cos(x[e.i]); break;
            case LOG: g[e.i] += c / x[e.i]; break;
            case SQRT: g[e.i] += 0.5 * c / std::sqrt(x[e.i]); break;
            case INV: g[e.i] += -c / (x[e.i] * x[e.i]); break;
            case QUART: g[e.i] += 4 * c * x[e.i] * x[e.i] * x[e.i]; break;
         }
      }
   }
   void hess(const double* x, double* H, int n, double w = 1) const   // full symmetric n x n, H += w * Hessian
   {
      for( auto& e : t )
      {
         double c = w * e.c;
         double* d = H + e.i * n + e.i;
         switch( e.k )
         {
            case CONST: case LIN: break;
            case PROD: H[e.i * n + e.j] += c; H[e.j * n + e.i] += c; break;
            case CUBE: *d += 6 * c * x[e.i]; break;
            case EXP: *d += c * std::exp(x[e.i]); break;
            case SIN: *d += -c * std::sin(x[e.i]); break;
            case LOG: *d += -c / (x[e.i] * x[e.i]); break;
            case SQRT: *d += -0.25 * c / (x[e.i] * std::sqrt(x[e.i])); break;
            case INV: *d += 2 * c / (x[e.i] * x[e.i] * x[e.i]); break;
            case QUART: *d += 12 * c * x[e.i] * x[e.i]; break;
         }
      }
   }
   std::set<int> vars() const
   {
      std::set<int> s;
      for( auto& e : t ) if( e.k != CONST ) { s.insert(e.i); if( e.k == PROD ) s.insert(e.j); }
      return s;
   }
   std::set<std::pair<int, int>> hvars() const   // (row >= col)
   {
      std::set<std::pair<int, int>> s;
      for( auto& e : t ) if( e.k > LIN ) { if( e.k == PROD ) s.insert({std::max(e.i, e.j), std::min(e.i, e.j)}); else s.insert({e.i, e.i}); }
      return s;
   }
   bool linear() const { for( auto& e : t ) if( e.k > LIN ) return false; return true; }
   bool quadratic() const { for( auto& e : t ) if( e.k > PROD ) return false; return true; }
   std::string str() const
   {
      static const char* nm[] = {"", "x%d", "x%d*x%d", "x%d^3", "exp(x%d)", "sin(x%d)", "log(x%d)", "sqrt(x%d)", "1/x%d", "x%d^4"};
      std::string s;
      for( auto& e : t )
      {
         char b[64], c[64];
         snprintf(c, sizeof c, "%+g", e.c);
         s += c;
         if( e.k != CONST ) { snprintf(b, sizeof b, nm[e.k], e.i, e.j); s += b; }
      }
      return s.empty() ? "0" : s;
   }
};

struct Problem
{
   int n = 0, m = 0;
   V xl, xu, gl, gu, x0;
   V zl0, zu0, lam0;   // optional starting multipliers
   Func f;
   std::vector<Func> g;
   std::string str() const
   {
      char b[128];
      std::string s = "min " + f.str();
      for( int i = 0; i < n; ++i ) { snprintf(b, sizeof b, "; %g<=x%d<=%g @%g", xl[i], i, xu[i], x0[i]); s += b; }
      for( int j = 0; j < m; ++j ) { snprintf(b, sizeof b, "; %g<=", gl[j]); s += b; s += g[j].str(); snprintf(b, sizeof b, "<=%g", gu[j]); s += b; }
      return s;
   }
   void resize(int n_, int m_)
   {
      n = n_; m = m_;
      xl.assign(n, -INF); xu.assign(n, INF); x0.assign(n, 0.);
      gl.assign(m, -INF); gu.assign(m, INF); g.assign(m, Func());
   }
   void jac(const double* x, V& J) const { J.assign(m * n, 0.); for( int j = 0; j < m; ++j ) g[j].grad(x, J.data() + j * n); }
};

/** errors of the first-order optimality conditions in user space */
struct Kkt { double stat = 0, prim = 0, bnd = 0, compl_ = 0, sign = 0, absent = 0, absentg = 0, fval = 0, gval = 0; std::string worst; };

struct KktOpt { double bound_slack = 0; bool skip_fixed_stat = false; double inf = 1e19; double objsign = 1; double lamtol = 0; };

inline Kkt kkt(const Problem& P, const double* x, const double* zl, const double* zu, const double* lam, const double* gv, double fv, const KktOpt& o = KktOpt())
{
   Kkt k;
   V gr(P.n, 0.), J;
   P.f.grad(x, gr.data(), o.objsign);
   P.jac(x, J);
   auto up = [](double& a, double b) { if( !(b <= a) ) a = b; };
   for( int j = 0; j < P.m; ++j )
   {
      double g = P.g[j].val(x);
      up(k.gval, std::fabs(g - gv[j]) / (1 + std::fabs(g)));
      bool hl = P.gl[j] > -o.inf, hu = P.gu[j] < o.inf;
      if( hl ) up(k.prim, P.gl[j] - g);
      if( hu ) up(k.prim, g - P.gu[j]);
      for( int i = 0; i < P.n; ++i ) gr[i] += lam[j] * J[j * P.n + i];
      if( !hl && !hu ) up(k.absentg, std::fabs(lam[j]));
      else if( hl && hu && P.gl[j] == P.gu[j] ) {}
      else
      {
         if( !hl ) up(k.sign, -lam[j]);
         if( !hu ) up(k.sign, lam[j]);
         if( hu ) up(k.compl_, std::max(lam[j] - o.lamtol, 0.) * std::fabs(P.gu[j] - g));
         if( hl ) up(k.compl_, std::max(-lam[j] - o.lamtol, 0.) * std::fabs(g - P.gl[j]));
      }
   }
   for( int i = 0; i < P.n; ++i )
   {
      bool hl = P.xl[i] > -o.inf, hu = P.xu[i] < o.inf;
      bool fixed = hl && hu && P.xl[i] == P.xu[i];
      up(k.sign, -zl[i]);
      up(k.sign, -zu[i]);
      if( !hl ) up(k.absent, std::fabs(zl[i]));
      if( !hu ) up(k.absent, std::fabs(zu[i]));
      if( hl ) { up(k.bnd, (P.xl[i] - x[i]) - o.bound_slack * std::max(1., std::fabs(P.xl[i]))); if( !fixed ) up(k.compl_, (zl[i] > 1e-12 ? zl[i] : 0.) * std::fabs(x[i] - P.xl[i])); }
      if( hu ) { up(k.bnd, (x[i] - P.xu[i]) - o.bound_slack * std::max(1., std::fabs(P.xu[i]))); if( !fixed ) up(k.compl_, (zu[i] > 1e-12 ? zu[i] : 0.) * std::fabs(P.xu[i] - x[i])); }
      if( !(fixed && o.skip_fixed_stat) ) up(k.stat, std::fabs(gr[i] - zl[i] + zu[i]));
   }
   double f = P.f.val(x);
   up(k.fval, std::fabs(f - fv) / (1 + std::fabs(f)));
   return k;
}

} // namespace sp
