// Enumerated problem families shared by the solve-level checks.
#pragma once
#include "tnlp.hpp"

namespace fam {
using namespace sp;

enum BK { B_FREE, B_L, B_U, B_LU, B_FIX, NBK };
enum CK { K_EQ, K_GE, K_LE, K_RNG, K_FREE, NCK };
inline const char* bkn(int k) { static const char* s[] = {"free", "L", "U", "LU", "fix"}; return s[k]; }
inline const char* ckn(int k) { static const char* s[] = {"eq", "ge", "le", "rng", "free"}; return s[k]; }

const double XR[] = {0.4, 0.7, 0.2, 0.55};
const double X0[] = {0.1, 0.9, 0.6, -0.2};

/** nonlinear/linear functions of a family for n variables, m <= 3 constraints */
inline Problem base(int family, int n, int m)
{
   Problem p;
   p.resize(n, m);
   auto c = [&](int j) -> Func& { return p.g[j]; };
   switch( family )
   {
      case 0: // convex quadratic, linear constraints
      {
         double t[] = {2, -1, 0.1, 1}, q[] = {1, 1.5, 0.7, 2};
         for( int i = 0; i < n; ++i ) p.f.add(q[i], PROD, i, i).add(-2 * q[i] * t[i], LIN, i).add(q[i] * t[i] * t[i], CONST);
         for( int i = 0; i + 1 < n; ++i ) p.f.add(0.5, PROD, i, i + 1);
         if( m > 0 ) for( int i = 0; i < n; ++i ) c(0).add(1, LIN, i);
         if( m > 1 ) { c(1).add(1, LIN, 0); if( n > 1 ) c(1).add(-2, LIN, n - 1); }
         if( m > 2 ) { c(2).add(3, LIN, n - 1); if( n > 2 ) c(2).add(1, LIN, 1); }
         break;
      }
      case 1: // convex nonlinear objective, nonlinear constraints
      {
         for( int i = 0; i < n; ++i ) { if( i % 2 == 0 ) p.f.add(1, EXP, i).add(-2 - i, LIN, i); else p.f.add(1, QUART, i).add(-1, LIN, i); }
         if( m > 0 ) for( int i = 0; i < n; ++i ) c(0).add(1, PROD, i, i);
         if( m > 1 ) { if( n > 1 ) c(1).add(1, PROD, n - 1, 0).add(1, LIN, n - 1); else c(1).add(1, EXP, 0); }
         if( m > 2 ) c(2).add(1, EXP, n - 1).add(0.5, LIN, 0);
         break;
      }
      case 2: // nonconvex, bounded below
      {
         for( int i = 0; i < n; ++i ) p.f.add(0.5, QUART, i).add(-1, PROD, i, i).add(i % 2 ? 0.2 : -0.3, LIN, i);
         if( n > 1 ) p.f.add(-0.5, PROD, 0, 1);
         if( n > 2 ) p.f.add(1, SIN, 2);
         if( m > 0 ) { c(0).add(1, SIN, 0); if( n > 1 ) c(0).add(1, PROD, 1, 1); }
         if( m > 1 ) { if( n > 1 ) c(1).add(1, PROD, 0, 1); else c(1).add(1, CUBE, 0); }
         if( m > 2 ) c(2).add(1, LIN, 0).add(1, CUBE, n - 1);
         break;
      }
      case 3: // linear objective, mixed constraints
      {
         double cc[] = {1, -2, 0.5, -1};
         for( int i = 0; i < n; ++i ) p.f.add(cc[i], LIN, i);
         if( m > 0 ) for( int i = 0; i < n; ++i ) c(0).add(1, PROD, i, i);
         if( m > 1 ) { c(1).add(1, LIN, 0); if( n > 1 ) c(1).add(1, LIN, 1); }
         if( m > 2 ) c(2).add(1, LIN, n - 1);
         break;
      }
   }
   for( int i = 0; i < n; ++i ) p.x0[i] = X0[i];
   return p;
}

inline void setBound(Problem& p, int i, int k)
{
   p.xl[i] = -INF; p.xu[i] = INF;
   if( k == B_L || k == B_LU ) p.xl[i] = -0.5;
   if( k == B_U || k == B_LU ) p.xu[i] = 1.2;
   if( k == B_FIX ) p.xl[i] = p.xu[i] = XR[i];
}
inline void setCon(Problem& p, int j, int k)
{
   double r = p.g[j].val(XR);
   p.gl[j] = -INF; p.gu[j] = INF;
   if( k == K_EQ ) p.gl[j] = p.gu[j] = r;
   if( k == K_GE || k == K_RNG ) p.gl[j] = r - 0.3;
   if( k == K_LE ) p.gu[j] = r + 0.3;
   if( k == K_RNG ) p.gu[j] = r + 0.2;
}

struct Shape { int family, n, m; int b[4], c[4]; };
inline std::string shapeStr(const Shape& s)
{
   std::string r = mc::fmt("family%d n=%d m=%d bounds=", s.family, s.n, s.m);
   for( int i = 0; i < s.n; ++i ) r += std::string(i ? "," : "") + bkn(s.b[i]);
   r += " cons=";
   for( int j = 0; j < s.m; ++j ) r += std::string(j ? "," : "") + ckn(s.c[j]);
   return r;
}
inline Problem make(const Shape& s)
{
   Problem p = base(s.family, s.n, s.m);
   for( int i = 0; i < s.n; ++i ) setBound(p, i, s.b[i]);
   for( int j = 0; j < s.m; ++j ) setCon(p, j, s.c[j]);
   return p;
}
/** all shapes: n in [nlo,nhi], m in [0,mhi] */
inline Shape chooseShape(mc::Explorer& ex, int nlo, int nhi, int mlo, int mhi, std::initializer_list<int> families)
{
   Shape s;
   s.family = ex.of(families);
   s.n = nlo + ex.choose(nhi - nlo + 1);
   s.m = mlo + ex.choose(mhi - mlo + 1);
   for( int i = 0; i < s.n; ++i ) s.b[i] = ex.choose(NBK);
   for( int j = 0; j < s.m; ++j ) s.c[j] = ex.choose(NCK);
   return s;
}

/** an infeasible and a restoration-provoking problem set */
inline Problem special(int k)
{
   Problem p;
   switch( k )
   {
      case 0: // x^2+y^2 = -1 : infeasible
         p.resize(2, 1);
         p.f.add(1, LIN, 0).add(1, PROD, 1, 1);
         p.g[0].add(1, PROD, 0, 0).add(1, PROD, 1, 1);
         p.gl[0] = p.gu[0] = -1;
         p.x0 = {1, 1};
         break;
      case 1: // Waechter-Biegler example: goes to restoration
         p.resize(3, 2);
         p.f.add(1, LIN, 0);
         p.g[0].add(1, PROD, 0, 0).add(-1, LIN, 1).add(-1, CONST);
         p.g[1].add(1, LIN, 0).add(-1, LIN, 2).add(-0.5, CONST);
         for( int j = 0; j < 2; ++j ) p.gl[j] = p.gu[j] = 0;
         p.xl = {-INF, 0, 0};
         p.x0 = {-2, 1, 1};
         break;
      case 2: // nonlinear equalities with bounds, bad start
         p.resize(2, 2);
         p.f.add(1, PROD, 0, 0);
         p.g[0].add(1, PROD, 0, 1);
         p.g[1].add(1, PROD, 0, 0).add(1, PROD, 1, 1);
         p.gl[0] = p.gu[0] = 1;
         p.gl[1] = 1.5; p.gu[1] = 2.5;
         p.xl = {-INF, 0.1};
         p.x0 = {-3, 5};
         break;
      case 3: // infeasible inequalities
         p.resize(1, 2);
         p.f.add(1, PROD, 0, 0);
         p.g[0].add(1, LIN, 0);
         p.g[1].add(1, LIN, 0);
         p.gl[0] = 1;
         p.gu[1] = -1;
         p.x0 = {0.3};
         break;
      case 4: // unbounded below
         p.resize(2, 1);
         p.f.add(-1, LIN, 0).add(1, PROD, 1, 1);
         p.g[0].add(1, LIN, 0).add(1, LIN, 1);
         p.gl[0] = 0;
         p.x0 = {1, 1};
         break;
      case 5: // Rosenbrock in a box
         p.resize(2, 0);
         p.f.add(1, CONST).add(-2, LIN, 0).add(1, PROD, 0, 0).add(10, PROD, 1, 1);
         p.f.add(10, QUART, 0).add(-8, PROD, 0, 1);
         p.xl = {-1.5, -1.5};
         p.xu = {2, 2};
         p.x0 = {-1.2, 1};
         break;
      case 6: // hs071
         p.resize(4, 2);
         p.f.add(1, PROD, 0, 3).add(1, LIN, 2).add(0.3, PROD, 0, 1).add(0.2, PROD, 3, 2);
         p.g[0].add(1, PROD, 0, 1).add(1, PROD, 2, 3);
         p.gl[0] = 10;
         for( int i = 0; i < 4; ++i ) p.g[1].add(1, PROD, i, i);
         p.gl[1] = p.gu[1] = 40;
         p.xl = {1, 1, 1, 1};
         p.xu = {5, 5, 5, 5};
         p.x0 = {1, 5, 5, 1};
         break;
      case 7: // square nonlinear system
         p.resize(2, 2);
         p.g[0].add(1, PROD, 0, 0).add(1, PROD, 1, 1);
         p.g[1].add(1, LIN, 0).add(-1, LIN, 1);
         p.gl[0] = p.gu[0] = 2;
         p.gl[1] = p.gu[1] = 0.5;
         p.x0 = {3, -1};
         break;
      case 8: // domain-limited functions
         p.resize(2, 1);
         p.f.add(-1, LOG, 0).add(1, LIN, 0).add(1, SQRT, 1);
         p.g[0].add(1, INV, 0).add(1, LIN, 1);
         p.gl[0] = 1.5;
         p.xl = {0.01, 0.01};
         p.x0 = {3, 3};
         break;
   }
   return p;
}
const int NSPECIAL = 9;
} // namespace fam
