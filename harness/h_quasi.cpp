// C17: limited-memory quasi-Newton approximation
#include "solvelib.hpp"
#include "alloc.hpp"
#include "IpDenseVector.hpp"
#include "IpCompoundVector.hpp"
#include "IpIpoptData.hpp"
#include "IpSymMatrix.hpp"
#include <deque>

static V dense(const Vector& v)
{
   const DenseVector* d = dynamic_cast<const DenseVector*>(&v);
   V r(v.Dim());
   for( int i = 0; i < v.Dim(); ++i ) r[i] = d->IsHomogeneous() ? d->Scalar() : d->Values()[i];
   return r;
}
static V row(const Matrix& M, const Vector& xlike, const Vector& ylike, int r)
{
   SmartPtr<Vector> e = ylike.MakeNew(), y = xlike.MakeNew();
   e->Set(0.);
   dynamic_cast<DenseVector*>(GetRawPtr(e))->Values()[r] = 1;
   M.TransMultVector(1., *e, 0., *y);
   return dense(*y);
}

typedef std::vector<V> Mat;
/** eigenvalues of a small symmetric matrix by Jacobi rotations */
static V eigen(Mat A)
{
   int n = (int) A.size();
   for( int sweep = 0; sweep < 60; ++sweep )
      for( int p = 0; p < n; ++p ) for( int q = p + 1; q < n; ++q )
      {
         if( std::fabs(A[p][q]) < 1e-300 ) continue;
         double th = (A[q][q] - A[p][p]) / (2 * A[p][q]), t = (th >= 0 ? 1 : -1) / (std::fabs(th) + std::sqrt(th * th + 1)), c = 1 / std::sqrt(t * t + 1), s = t * c;
         for( int k = 0; k < n; ++k ) { double a = A[k][p], b = A[k][q]; A[k][p] = c * a - s * b; A[k][q] = s * a + c * b; }
         for( int k = 0; k < n; ++k ) { double a = A[p][k], b = A[q][k]; A[p][k] = c * a - s * b; A[q][k] = s * a + c * b; }
      }
   V e(n);
   for( int i = 0; i < n; ++i ) e[i] = A[i][i];
   std::sort(e.begin(), e.end());
   return e;
}
static bool solveLin(Mat A, Mat B, Mat& X)     // A X = B
{
   int n = (int) A.size(), m = (int) B[0].size();
   for( int c = 0; c < n; ++c )
   {
      int p = c;
      for( int r = c; r < n; ++r ) if( std::fabs(A[r][c]) > std::fabs(A[p][c]) ) p = r;
      if( A[p][c] == 0 ) return false;
      std::swap(A[p], A[c]);
      std::swap(B[p], B[c]);
      for( int r = 0; r < n; ++r ) if( r != c )
      {
         double f = A[r][c] / A[c][c];
         for( int k = 0; k < n; ++k ) A[r][k] -= f * A[c][k];
         for( int k = 0; k < m; ++k ) B[r][k] -= f * B[c][k];
      }
   }
   X = B;
   for( int r = 0; r < n; ++r ) for( int k = 0; k < m; ++k ) X[r][k] /= A[r][r];
   return true;
}
static double dot(const V& a, const V& b) { double s = 0; for( size_t i = 0; i < a.size(); ++i ) s += a[i] * b[i]; return s; }

struct Cfg { int hist = 6, skipmax = 2, init = 1; bool sr1 = false; double val = 1, vmin = 1e-8, vmax = 1e8; };

/** the documented update, straight from the secant pairs */
struct Ref
{
   Cfg c;
   int n = 0;
   std::deque<std::pair<V, V>> pairs, bpairs;
   double sigma = 0, bsigma = 0;
   Mat W, BW;
   int skipped = 0;
   bool have = false;
   V lx, lg;
   Mat lJ;
   double sigmaErr = 0;
   double noise = 0;          // rounding errors in the differences of gradients
   double slack = 0;          // how uncertain W is (relative)
   bool unsure = false;       // a decision was at its threshold
   long updates = 0, skips = 0, resets = 0, retro = 0;
   Mat diag(double s) { Mat m(n, V(n, 0.)); for( int i = 0; i < n; ++i ) m[i][i] = s; return m; }
   void reset() { pairs.clear(); sigma = c.val; W = diag(sigma); skipped = 0; bpairs = pairs; bsigma = sigma; slack = 1e-12; }
   double sig(const V& s, const V& y, double sty)
   {
      double a = sty / dot(s, s), b = dot(y, y) / sty;
      switch( c.init ) { case 1: return a; case 2: return b; case 3: return (a + b) / 2; case 4: return std::sqrt(a * b); }
      return c.val;
   }
   /** compact SR1 formula */
   bool sr1(const std::deque<std::pair<V, V>>& P, Mat& Wn, V& e)
   {
      int k = (int) P.size();
      Mat Z(k, V(k)), Vt(n, V(k));
      for( int a = 0; a < k; ++a ) for( int b = 0; b < k; ++b ) Z[a][b] = (a >= b ? dot(P[a].first, P[b].second) : dot(P[b].first, P[a].second)) - sigma * dot(P[a].first, P[b].first);
      e = eigen(Z);
      for( int i = 0; i < n; ++i ) for( int a = 0; a < k; ++a ) Vt[i][a] = P[a].second[i] - sigma * P[a].first[i];
      Mat Bt(k, V(n)), X;
      for( int a = 0; a < k; ++a ) for( int i = 0; i < n; ++i ) Bt[a][i] = Vt[i][a];
      Wn = diag(sigma);
      if( !solveLin(Z, Bt, X) ) return false;
      for( int i = 0; i < n; ++i ) for( int j = 0; j < n; ++j ) for( int a = 0; a < k; ++a ) Wn[i][j] += Vt[i][a] * X[a][j];
      return true;
   }
   void bfgs(const std::deque<std::pair<V, V>>& P, Mat& m)
   {
      m = diag(sigma);
      for( auto& p : P )
      {
         V Bs(n, 0.);
         for( int i = 0; i < n; ++i ) Bs[i] = dot(m[i], p.first);
         double sBs = dot(p.first, Bs), sy = dot(p.first, p.second);
         for( int i = 0; i < n; ++i ) for( int j = 0; j < n; ++j ) m[i][j] += p.second[i] * p.second[j] / sy - Bs[i] * Bs[j] / sBs;
      }
   }
   /** how much do rounding errors in the pairs matter: compare W with the matrices for slightly different pairs */
   template <class F> void sensitivity(const std::deque<std::pair<V, V>>& P, double big, F make)
   {
      double dev = 0;
      for( int t = 0; t < 6; ++t )
      {
         auto q = P;
         int h = t;
         double sg = sigma;
         sigma *= 1 + (t % 3 - 1) * (1e-15 + sigmaErr);
         for( auto& pr : q ) for( int i = 0; i < n; ++i ) { pr.second[i] += ((h * 7 + i * 3 + t) % 3 - 1) * noise; pr.first[i] *= 1 + ((h + i + t) % 3 - 1) * 4e-16; ++h; }
         Mat Wp;
         if( !make(q, Wp) ) unsure = true;
         sigma = sg;
         if( unsure ) return;
         for( int i = 0; i < n; ++i ) for( int j = 0; j < n; ++j ) dev = std::max(dev, std::fabs(Wp[i][j] - W[i][j]));
      }
      slack += 300 * dev / big;
      if( !(dev < 1e20) ) unsure = true;
   }
   void step(const V& s, const V& y, double regu, double mag, double xmag)
   {
      double smax = 0;
      for( double v : s ) smax = std::max(smax, std::fabs(v));
      double st = 100 * 2.220446049250313e-16;
      if( smax > 0.5 * st && smax < 2 * st ) unsure = true;
      if( smax < st ) { ++skipped; ++skips; return; }
      double sty = dot(s, y), sn = std::sqrt(dot(s, s)), yn = std::sqrt(dot(y, y)), tol = std::sqrt(2.220446049250313e-16);
      if( !(yn < 1e20 && sn < 1e20) ) { unsure = true; return; }
      if( !c.sr1 )
      {
         if( std::fabs(sty - tol * sn * yn) < 1e-13 * sn * yn + 1e-300 ) unsure = true;
         if( sty <= tol * sn * yn ) { ++skipped; ++skips; return; }
         sigma = sig(s, y, sty);
         sigma = std::max(std::min(sigma, c.vmax), c.vmin);
         if( c.hist > 0 ) { pairs.push_back({s, y}); if( (int) pairs.size() > c.hist ) pairs.pop_front(); }
         bfgs(pairs, W);
         noise = std::max(noise, 4e-16 * (mag + sigma * xmag));
         double big = sigma;
         for( auto& r : W ) for( double v : r ) big = std::max(big, std::fabs(v));
         slack = 1e-10;
         sigmaErr = noise * (sn / std::fabs(sty) + 1 / yn);
         sensitivity(pairs, big, [&](std::deque<std::pair<V, V>>& q, Mat& m) { bfgs(q, m); return true; });
         if( !(big < 1e20) ) unsure = true;
         skipped = 0;
         ++updates;
         return;
      }
      bool rt = regu > 0;
      if( rt ) { pairs = bpairs; sigma = bsigma; ++retro; }
      bpairs = pairs;
      bsigma = sigma;
      int mem = (int) pairs.size();
      if( c.hist > 0 ) { pairs.push_back({s, y}); if( (int) pairs.size() > c.hist ) pairs.pop_front(); mem = (int) pairs.size(); }
      if( mem == 1 ) sigma = c.val;
      else sigma = sig(s, y, std::max(1e-8, std::fabs(sty)));
      Mat Wn = diag(sigma);
      noise = std::max(noise, 4e-16 * (std::max(mag, 1.) + sigma * xmag));
      sigmaErr = mem == 1 ? 0 : noise * (sn / std::max(1e-8, std::fabs(sty)) + 1 / yn);
      double slack0 = slack;
      slack = 1e-12 + 300 * sigmaErr;
      if( c.hist > 0 )
      {
         V ev;
         if( !sr1(pairs, Wn, ev) ) { if( ev.empty() ) { unsure = true; return; } }
         double emax = 0, emin = INFINITY;
         for( double v : ev ) { emax = std::max(emax, std::fabs(v)); emin = std::min(emin, std::fabs(v)); }
         double smx = 0, sn1 = 0;
         for( auto& q : pairs ) { smx = std::max(smx, dot(q.first, q.first)); sn1 = std::max(sn1, std::sqrt(dot(q.first, q.first))); }
         double zn = 2e-15 * sigma * smx + noise * sn1;
         bool singular = emin + zn < 1e-13 * emax;
         if( !singular && (zn > 1e-3 * emin || emin < 1e-10 * emax) ) unsure = true;
         if( singular ) { slack = slack0; pairs = bpairs; sigma = bsigma; ++skipped; ++skips; return; }
         double big = sigma;
         for( auto& r : Wn ) for( double v : r ) big = std::max(big, std::fabs(v));
         W = Wn;
         double vm = 0;
         for( auto& q : pairs ) for( int i = 0; i < n; ++i ) vm = std::max(vm, std::fabs(q.second[i] - sigma * q.first[i]));
         slack = 1e-11 / (emin / emax) * 3 + 100 * zn / emin + 100 * (2e-16 * emax + zn) / emin * vm * vm / emin / big;
         sensitivity(pairs, big, [&](std::deque<std::pair<V, V>>& q, Mat& m) { V ep; return sr1(q, m, ep); });
         for( int i = 0; i < n; ++i ) for( int j = 0; j < n; ++j ) slack = std::max(slack, 300 * std::fabs(Wn[j][i] - Wn[i][j]) / big);
         if( !(big < 1e20) ) unsure = true;
      }
      W = Wn;
      if( rt ) ++skipped; else skipped = 0;
      ++updates;
   }
};

static void body(mc::Explorer& ex)
{
   sp::Problem p;
   std::string what;
   std::vector<int> nonlin;
   bool special = ex.mode == "special", lin = ex.mode == "linear", convex = false;
   fam::Shape s;
   bool simple = true;
   if( special )
   {
      int k = ex.choose(fam::NSPECIAL);
      p = fam::special(k);
      what = fmt("special%d", k);
   }
   else
   {
      s = fam::chooseShape(ex, 1, ex.thorough && !lin ? 3 : 2, 0, 2, {0, 1, 2, 3});
      simple = true;
      for( int i = 0; i < s.n; ++i ) simple = simple && (s.b[i] == fam::B_FREE || s.b[i] == fam::B_LU || s.b[i] == fam::B_FIX);
      for( int j = 0; j < s.m; ++j ) simple = simple && (s.c[j] == fam::K_EQ || s.c[j] == fam::K_RNG);
      if( ex.thorough && s.n == 3 && !simple ) throw mc::Prune();
      if( lin && !simple && !ex.thorough ) throw mc::Prune();
      p = fam::make(s);
      what = fam::shapeStr(s);
      convex = s.family == 0;
      if( lin )
      {
         // one or two more variables that occur only linearly, in front, in the middle or behind
         int nl = 1 + ex.choose(2), at = ex.choose(3);
         std::vector<int> pos(p.n);
         int a = at == 0 ? 0 : at == 1 ? 1 : p.n;
         for( int i = 0; i < p.n; ++i ) pos[i] = i < a ? i : i + nl;
         sp::Problem q;
         q.resize(p.n + nl, p.m);
         auto mf = [&](sp::Func& f) { for( auto& t : f.t ) { t.i = pos[t.i]; if( t.k == sp::PROD ) t.j = pos[t.j]; } };
         q.f = p.f;
         mf(q.f);
         for( int i = 0; i < p.n; ++i ) { q.xl[pos[i]] = p.xl[i]; q.xu[pos[i]] = p.xu[i]; q.x0[pos[i]] = p.x0[i]; nonlin.push_back(pos[i]); }
         for( int j = 0; j < p.m; ++j ) { q.g[j] = p.g[j]; mf(q.g[j]); q.gl[j] = p.gl[j]; q.gu[j] = p.gu[j]; }
         for( int k = 0; k < nl; ++k )
         {
            int v = a + k;
            q.f.add(k ? -1 : 1, sp::LIN, v);
            if( p.m ) q.g[0].add(0.5, sp::LIN, v);
            q.xl[v] = -1 - k;
            q.xu[v] = 2;
            q.x0[v] = 0.3;
         }
         std::sort(nonlin.begin(), nonlin.end());
         p = q;
         what += fmt(" +%d linear at %d", nl, a);
      }
   }
   ex.shardPoint();
   Cfg c;
   c.sr1 = ex.choose(2);
   static const int HS[] = {6, 0, 1, 2, 3};
   c.hist = HS[ex.choose(5)];
   if( !ex.thorough && !lin && !special && (c.hist == 3 || c.hist == 0) && !simple ) throw mc::Prune();
   c.init = 1 + ex.deviate(5);
   int vk = ex.deviate(4), rk = ex.deviate(3), sk = ex.deviate(3), fixt = ex.deviate(4), space = ex.deviate(lin ? 4 : 2), aug = ex.deviate(2), alg = ex.deviate(7), start = ex.deviate(3), again = ex.deviate(2);
   if( !ex.thorough && ex.devs && !simple ) throw mc::Prune();
   if( vk ) c.val = vk == 1 ? 10 : vk == 2 ? 0.01 : 3;
   if( rk == 1 ) c.vmax = 1.5;
   if( rk == 2 ) c.vmin = 2.5;
   if( sk ) c.skipmax = sk == 1 ? 1 : 5;
   if( start ) for( int i = 0; i < p.n; ++i ) p.x0[i] += start == 1 ? 1.7 : -0.9;
   Solve S(p);
   S.opt("hessian_approximation", "limited-memory");
   S.opt("max_iter", "120");
   S.opt("nlp_scaling_method", "none");
   static const char* IN[] = {"", "scalar1", "scalar2", "scalar3", "scalar4", "constant"};
   static const char* FT[] = {"make_parameter", "make_constraint", "relax_bounds", "make_parameter_nodual"};
   if( c.sr1 ) S.opt("limited_memory_update_type", "sr1");
   if( c.hist != 6 ) S.opt("limited_memory_max_history", fmt("%d", c.hist));
   if( c.init != 1 ) S.opt("limited_memory_initialization", IN[c.init]);
   if( vk ) S.opt("limited_memory_init_val", fmt("%g", c.val));
   if( rk == 1 ) S.opt("limited_memory_init_val_max", "1.5");
   if( rk == 2 ) S.opt("limited_memory_init_val_min", "2.5");
   if( sk ) S.opt("limited_memory_max_skipping", fmt("%d", c.skipmax));
   if( fixt ) S.opt("fixed_variable_treatment", FT[fixt]);
   if( aug ) S.opt("limited_memory_aug_solver", "extended");
   switch( alg )
   {
      case 1: S.opt("mu_strategy", "adaptive"); break;
      case 2: S.opt("start_with_resto", "yes"); break;
      case 3: S.opt("limited_memory_special_for_resto", "yes"); S.opt("start_with_resto", "yes"); break;
      case 4: S.opt("recalc_y", "yes"); break;
      case 5: S.opt("accept_every_trial_step", "yes"); break;
      case 6: S.opt("mehrotra_algorithm", "yes"); break;
   }
   S.t = new tn::Spec(S.p);
   tn::Spec& t = *S.t;
   bool reduced = false;
   if( lin )
   {
      t.wantNonlin = true;
      t.nonlinVars = nonlin;
      reduced = true;
      if( space == 1 ) { S.opt("hessian_approximation_space", "all-variables"); reduced = false; }
      if( space == 2 ) t.pr.fortran = true;
      if( space == 3 ) { std::reverse(t.nonlinVars.begin(), t.nonlinVars.end()); }
      // instead by option, if the linear variables come first
      if( space == 0 && again && nonlin[0] > 0 ) { t.wantNonlin = false; S.opt("num_linear_variables", fmt("%d", nonlin[0])); }
   }
   else if( space ) S.opt("hessian_approximation_space", "all-variables");
   // presented structure of the Hessian must not be looked at
   for( auto& kv : S.opts ) what += " " + kv.first + "=" + kv.second;
   what += fmt(" start=%d again=%d space=%d", start, again, space);
   ex.desc = what;

   std::vector<int> col;
   bool param = fixt == 0 || fixt == 3;
   int neq = 0, nfix = 0;
   for( int j = 0; j < p.m; ++j ) neq += p.gl[j] == p.gu[j];
   for( int i = 0; i < p.n; ++i ) nfix += p.xl[i] == p.xu[i];
   if( param && neq > p.n - nfix ) { param = false; }
   for( int i = 0; i < p.n; ++i ) if( !(param && p.xl[i] == p.xu[i]) ) col.push_back(i);

   std::string bad;
   Ref R;
   long checked = 0;
   int lastIter = -1;
   V px, pg, px2;
   Mat pJ;
   double pregu = 0;
   bool pend = false;
   V nx, ny;
   auto clear = [&]() { R = Ref(); R.c = c; lastIter = -1; };
   clear();
   // state at the last regular callback; the algorithm updates the matrix right after it
   auto look = [&](tn::Spec&, const tn::Iter& it, const IpoptData* d, IpoptCalculatedQuantities* q) {
      if( it.mode != 0 || bad.size() || R.unsure ) return true;
      if( it.iter == lastIter ) return true;
      lastIter = it.iter;
      V x = dense(*d->curr()->x());
      int n = (int) x.size();
      if( n != (int) col.size() ) { R.unsure = true; return true; }
      // reduced space
      std::vector<int> rs;
      for( int k = 0; k < n; ++k ) if( !reduced || std::find(nonlin.begin(), nonlin.end(), col[k]) != nonlin.end() ) rs.push_back(k);
      if( R.have )
      {
         // the matrix was made at the previous iterate
         SmartPtr<const SymMatrix> W = const_cast<IpoptData*>(d)->W();
         if( IsNull(W) ) { bad = "no matrix"; return true; }
         Mat M(n, V(n));
         SmartPtr<Vector> e = d->curr()->x()->MakeNew(), y = d->curr()->x()->MakeNew();
         for( int k = 0; k < n; ++k )
         {
            e->Set(0.);
            dynamic_cast<DenseVector*>(GetRawPtr(e))->Values()[k] = 1;
            W->MultVector(1., *e, 0., *y);
            V r = dense(*y);
            for( int i = 0; i < n; ++i ) M[i][k] = r[i];
         }
         double big = R.sigma;
         for( auto& r : R.W ) for( double v : r ) big = std::max(big, std::fabs(v));
         std::string ms, rf;
         for( auto& r : M ) { for( double v : r ) ms += fmt(" %.12g", v); ms += ";"; }
         for( auto& r : R.W ) { for( double v : r ) rf += fmt(" %.12g", v); rf += ";"; }
         double tol = std::max(1e-9, R.slack) * std::max(big, 1e-8);
         if( R.slack < 1e-3 )
         {
            ++checked;
            for( int i = 0; i < n && bad.empty(); ++i ) for( int k = 0; k < n; ++k )
            {
               if( !(std::fabs(M[i][k] - M[k][i]) <= tol) ) { bad = "matrix not symmetric: " + ms; break; }
               int ri = (int)(std::find(rs.begin(), rs.end(), i) - rs.begin()), rk2 = (int)(std::find(rs.begin(), rs.end(), k) - rs.begin());
               double want = ri < (int) rs.size() && rk2 < (int) rs.size() ? R.W[ri][rk2] : 0.;
               if( !(std::fabs(M[i][k] - want) <= tol) ) { bad = fmt("iteration %d: matrix %s differs from that of the documented update %s (%zu pairs, sigma %g)", it.iter, ms.c_str(), rf.c_str(), R.pairs.size(), R.sigma); break; }
            }
            if( bad.empty() && !c.sr1 && !rs.empty() && R.slack < 1e-9 )
            {
               Mat Q(rs.size(), V(rs.size()));
               for( size_t a = 0; a < rs.size(); ++a ) for( size_t b = 0; b < rs.size(); ++b ) Q[a][b] = 0.5 * (M[rs[a]][rs[b]] + M[rs[b]][rs[a]]);
               V ev = eigen(Q);
               if( !(ev[0] > -tol) ) bad = fmt("BFGS matrix has eigenvalue %g: ", ev[0]) + ms;
            }
         }
      }
      // what the algorithm does next
      V g = dense(*q->curr_grad_f());
      Mat J;
      V y;
      V yc = dense(*d->curr()->y_c()), yd = dense(*d->curr()->y_d());
      for( int r = 0; r < (int) yc.size(); ++r ) J.push_back(row(*q->curr_jac_c(), *d->curr()->x(), *d->curr()->y_c(), r));
      for( int r = 0; r < (int) yd.size(); ++r ) J.push_back(row(*q->curr_jac_d(), *d->curr()->x(), *d->curr()->y_d(), r));
      y = yc;
      y.insert(y.end(), yd.begin(), yd.end());
      R.n = (int) rs.size();
      if( !R.have || R.skipped >= c.skipmax )
      {
         if( R.have ) ++R.resets;
         R.have = true;
         R.reset();
      }
      else
      {
         V sv(R.n), yv(R.n);
         double mag = 0, xmag = 0;
         for( int a = 0; a < R.n; ++a )
         {
            int k = rs[a];
            sv[a] = x[k] - R.lx[k];
            xmag = std::max({xmag, std::fabs(x[k]), std::fabs(R.lx[k])});
            double v = g[k] - R.lg[k];
            mag = std::max({mag, std::fabs(g[k]), std::fabs(R.lg[k])});
            for( size_t r = 0; r < J.size(); ++r ) { v += (J[r][k] - R.lJ[r][k]) * y[r]; mag = std::max(mag, std::fabs(J[r][k] * y[r])); }
            yv[a] = v;
         }
         double ymax = 0;
         for( double v : yv ) ymax = std::max(ymax, std::fabs(v));
         if( !(ymax > 1e-7 * mag) && ymax != 0 ) R.unsure = true;        // cancellation: secant pair too uncertain to predict
         if( ymax == 0 && mag > 0 ) R.unsure = true;
         R.step(sv, yv, d->info_regu_x(), mag, xmag);
      }
      R.lx = x;
      R.lg = g;
      R.lJ = J;
      return true;
   };
   t.onIter = look;
   (void) pend;
   al::fill() = 0xff;
   S.go();
   ++ex.evals;
   std::string r1 = S.resStr();
   if( bad.size() ) { al::fill() = -1; ex.fail("matrix", bad + "; " + r1); }
   ex.count("matrices compared", checked);
   ex.count("updates", R.updates);
   ex.count("skips", R.skips);
   ex.count("resets", R.resets);
   ex.count("undone", R.retro);
   if( R.unsure ) ex.count("undecidable");
   auto noHess = [&](tn::Spec& q) { if( q.cnt[tn::C_HESS] || q.cnt[tn::C_HSTRUCT] ) ex.fail("hessian-requested", "second derivatives requested"); if( q.err.size() ) ex.fail("protocol", q.err); };
   noHess(t);
   ex.outcome(S.hash(1e-4));
   ex.nontrivial = checked > 1;
   bool hard = c.sr1 || alg == 5 || alg == 6 || (alg == 2 && !convex) || c.hist == 0 || rk || vk == 2 || fixt == 2;
   if( p.n - nfix <= neq ) hard = true;      // no degrees of freedom
   if( again && !lin )
   {
      // a second solve starts afresh
      tn::Result r0 = S.r();
      auto n0 = t.iters.size();
      t.reset();
      clear();
      S.again();
      al::fill() = -1;
      if( bad.size() ) ex.fail("matrix", "second solve: " + bad);
      noHess(t);
      if( !sameResult(r0, S.r()) || n0 != t.iters.size() ) ex.fail("second-solve", "first " + r1 + " second " + S.resStr());
   }
   al::fill() = -1;
   for( double v : S.r().x ) if( std::fabs(v) > 1e3 ) { ex.count("astronomic solution"); return; }
   if( !S.initOk ) ex.fail("setup", "options refused");
   if( S.ok() ) requireKkt(ex, S, 20, "kkt", nfix > 0, 1e-8, 1e-4);
   if( convex )
   {
      sp::V xo;
      Solve E(p);
      for( auto& kv : S.opts ) if( kv.first.compare(0, 7, "hessian") && kv.first.compare(0, 7, "limited") && kv.first != "num_linear_variables" ) E.opts.push_back(kv);
      E.go();
      if( E.st == Solve_Succeeded && S.ok() )
      {
         double fd = std::fabs(E.r().f - S.r().f);
         if( !(fd <= 1e-4 * std::max(1., std::fabs(E.r().f)) ) ) ex.fail("solution", "exact " + E.resStr() + " quasi-Newton " + S.resStr());
         if( !lin && maxAbsDiff(E.r().x, S.r().x) > 5e-3 ) ex.fail("solution", "exact " + E.resStr() + " quasi-Newton " + S.resStr());
      }
      if( E.st == Solve_Succeeded && !S.ok() )
      {
         if( hard ) ex.count("not converged (hard option)");
         else if( S.st == Error_In_Step_Computation && violation(p, S.r().x) < 1e-6 && std::fabs(E.r().f - S.r().f) <= 1e-6 * std::max(1., std::fabs(E.r().f)) ) ex.count("gave up at the solution");
         else ex.fail("no-solution", "exact " + E.resStr() + " quasi-Newton " + S.resStr());
      }
   }
   else if( !S.ok() ) ex.count("not converged (nonconvex)");
}

int main(int argc, char** argv)
{
   mc::Explorer ex;
   return ex.main(argc, argv, body);
}
