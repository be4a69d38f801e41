// C26: triplet conversion, the symmetric linear solver layer, and MUMPS behind it
#include "solvelib.hpp"
#include "IpTripletToCSRConverter.hpp"
#include "IpMumpsSolverInterface.hpp"
#include "IpSymTMatrix.hpp"
#include "IpDenseVector.hpp"
#include "IpIpoptNLP.hpp"
extern "C" {
#include "dmumps_c.h"
}

typedef std::vector<int> I;

// ------------------------------------------------------------------ exact facts about small integer matrices
struct Facts { int neg = 0, zero = 0; std::vector<long long> num; long long det = 0; };
static long long detOf(int n, std::vector<long long> a)
{
   if( n == 0 ) return 1;
   if( n == 1 ) return a[0];
   long long s = 0;
   for( int c = 0; c < n; ++c )
   {
      if( !a[c] ) continue;
      std::vector<long long> m;
      for( int r = 1; r < n; ++r ) for( int q = 0; q < n; ++q ) if( q != c ) m.push_back(a[r * n + q]);
      s += (c % 2 ? -1 : 1) * a[c] * detOf(n - 1, m);
   }
   return s;
}
static Facts facts(int n, const std::vector<long long>& A)
{
   // coefficients of det(t I - A): (-1)^k times the sum of the principal minors of order k; all roots are real
   Facts f;
   std::vector<long long> e(n + 1, 0);
   for( int S = 0; S < (1 << n); ++S )
   {
      I idx;
      for( int i = 0; i < n; ++i ) if( S >> i & 1 ) idx.push_back(i);
      std::vector<long long> m;
      for( int r : idx ) for( int c : idx ) m.push_back(A[r * n + c]);
      e[idx.size()] += detOf((int) idx.size(), m);
   }
   f.det = e[n];
   while( f.zero < n && e[n - f.zero] == 0 ) ++f.zero;
   // negative roots: sign changes of p(-t) ~ e_0, e_1, ..., e_{n-zero}
   long long last = 0;
   for( int k = 0; k <= n - f.zero; ++k ) if( e[k] ) { if( last && (e[k] > 0) != (last > 0) ) ++f.neg; last = e[k]; }
   // that counts positive roots of q(t) = sum e_k t^(n-k), the characteristic polynomial of -A
   return f;
}
static V exact(int n, const std::vector<long long>& A, const V& b, long long det)
{
   V x(n);
   for( int i = 0; i < n; ++i )
   {
      std::vector<long long> m = A;
      for( int r = 0; r < n; ++r ) m[r * n + i] = (long long) b[r];
      x[i] = (double) detOf(n, m) / (double) det;
   }
   return x;
}

// ------------------------------------------------------------------ conversion
static void conversion(mc::Explorer& ex)
{
   int d = 1 + ex.choose(4);
   int K = d == 4 ? 3 : ex.thorough ? 5 : 4;
   int k = ex.choose(K + 1);
   std::vector<Index> r(k + 1), c(k + 1);
   ex.desc = mc::fmt("dim %d:", d);
   for( int i = 0; i < k; ++i ) { int p = ex.choose(d * d); r[i] = p / d + 1; c[i] = p % d + 1; ex.desc += mc::fmt(" (%d,%d)", r[i], c[i]); if( i == 1 ) ex.shardPoint(); }
   if( k < 2 ) ex.shardPoint();
   for( int fmt = 0; fmt < 4; ++fmt )
   {
      int off = fmt & 1;
      bool full = fmt & 2;
      SmartPtr<TripletToCSRConverter> T = new TripletToCSRConverter(off, full ? TripletToCSRConverter::Full_Format : TripletToCSRConverter::Triangular_Format);
      Index nnz = T->InitializeConverter(d, k, r.data(), c.data());
      const Index *ia = T->IA(), *ja = T->JA();
      std::vector<double> want(d * d, 0), got(d * d, 0), v(k + 1);
      std::vector<char> has(d * d, 0);
      for( int i = 0; i < k; ++i )
      {
         v[i] = 1 << (2 * i);
         int a = std::min(r[i], c[i]) - 1, b = std::max(r[i], c[i]) - 1;
         want[a * d + b] += v[i]; has[a * d + b] = 1;
         if( full && a != b ) { want[b * d + a] += v[i]; has[b * d + a] = 1; }
      }
      int cnt = 0;
      for( char h : has ) cnt += h;
      if( nnz != cnt ) ex.fail("nonzeros", mc::fmt("format %d: %d nonzeros, expected %d", fmt, nnz, cnt));
      if( k == 0 ) { continue; }
      if( ia[0] != off || ia[d] != nnz + off ) ex.fail("starts", mc::fmt("format %d: starts %d..%d", fmt, ia[0], ia[d]));
      std::vector<double> out(nnz + 1, -7);
      T->ConvertValues(k, v.data(), nnz, out.data());
      if( out[nnz] != -7 ) ex.fail("overflow", "written beyond the array");
      for( int i = 0; i < d; ++i )
      {
         if( ia[i] > ia[i + 1] ) ex.fail("starts", "row starts decrease");
         for( int q = ia[i] - off; q < ia[i + 1] - off; ++q )
         {
            int j = ja[q] - off;
            if( j < 0 || j >= d ) ex.fail("column", "column out of range");
            if( q > ia[i] - off && ja[q] <= ja[q - 1] ) ex.fail("order", mc::fmt("format %d: columns of row %d not increasing", fmt, i));
            if( !has[i * d + j] ) ex.fail("entry", mc::fmt("format %d: entry %d,%d is not in the triplets", fmt, i, j));
            got[i * d + j] += out[q];
         }
      }
      if( got != want ) ex.fail("values", mc::fmt("format %d: values differ", fmt));
      mc::Hash h;
      h.i(d); h.i(fmt);
      for( double x : got ) h.d(x);
      ex.outcome(h.h);
      // a second conversion with other values
      for( int i = 0; i < k; ++i ) v[i] = -v[i] * 2;
      T->ConvertValues(k, v.data(), nnz, out.data());
      std::vector<double> g2(d * d, 0);
      for( int i = 0; i < d; ++i ) for( int q = ia[i] - off; q < ia[i + 1] - off; ++q ) g2[i * d + ja[q] - off] += out[q];
      for( int i = 0; i < d * d; ++i ) if( g2[i] != -2 * want[i] ) ex.fail("values-again", "second conversion differs");
   }
}

// ------------------------------------------------------------------ the layer
static Solve* fixture()
{
   static Solve* S = nullptr;
   if( !S )
   {
      fam::Shape s;
      s.family = 1; s.n = 2; s.m = 1; s.b[0] = fam::B_LU; s.b[1] = fam::B_FREE; s.c[0] = fam::K_EQ;
      S = new Solve(fam::make(s));
      S->opt("max_iter", "1");
      S->go();
   }
   return S;
}
static int scaleCalls = 0;
static V lastScale;
class TestScaling : public TSymScalingMethod
{
public:
   bool InitializeImpl(const OptionsList&, const std::string&) override { return true; }
   bool ComputeSymTScalingFactors(Index n, Index, const Index*, const Index*, const Number*, Number* f) override
   {
      static const double F[] = {0.5, 4, 1, 0.25, 2};
      lastScale.resize(n);
      for( int i = 0; i < n; ++i ) lastScale[i] = f[i] = F[(scaleCalls * 2 + i) % 5];
      ++scaleCalls;
      return true;
   }
};

struct Layer
{
   SmartPtr<SymTMatrixSpace> space;
   SmartPtr<SymTMatrix> M[2];
   SmartPtr<DenseVectorSpace> vs;
   int n, k;
   std::vector<Index> r, c;
   Layer(int n_, const std::vector<Index>& R, const std::vector<Index>& C) : n(n_), k((int) R.size()), r(R), c(C)
   {
      space = new SymTMatrixSpace(n, k, r.data(), c.data());
      M[0] = space->MakeNewSymTMatrix();
      M[1] = space->MakeNewSymTMatrix();
      vs = new DenseVectorSpace(n);
   }
   std::vector<long long> dense(const V& v) const
   {
      std::vector<long long> A(n * n, 0);
      for( int i = 0; i < k; ++i ) { A[(r[i] - 1) * n + c[i] - 1] += (long long) v[i]; if( r[i] != c[i] ) A[(c[i] - 1) * n + r[i] - 1] += (long long) v[i]; }
      return A;
   }
};
static std::string str(const Layer& L, const V& v)
{
   std::string s = mc::fmt("%dx%d:", L.n, L.n);
   for( int i = 0; i < L.k; ++i ) s += mc::fmt(" (%d,%d)=%g", L.r[i], L.c[i], v[i]);
   return s;
}

// solves with one solver and judges the answer by exact arithmetic. want < 0: do not check the inertia
static bool exactSingular = true;
static ESymSolverStatus judge(mc::Explorer& ex, SymLinearSolver& S, Layer& L, SymTMatrix& M, const V& v, int nrhs, int want, double tol, const char* how)
{
   std::vector<long long> A = L.dense(v);
   Facts f = facts(L.n, A);
   static const double B[2][4] = {{1, -2, 3, 1}, {0, 5, -1, 2}};
   std::vector<SmartPtr<const Vector> > rhs;
   std::vector<SmartPtr<Vector> > sol;
   std::vector<V> b;
   for( int q = 0; q < nrhs; ++q )
   {
      SmartPtr<DenseVector> w = L.vs->MakeNewDenseVector();
      V bb(B[q], B[q] + L.n);
      w->SetValues(bb.data());
      b.push_back(bb);
      rhs.push_back(GetRawPtr(w));
      SmartPtr<DenseVector> z = L.vs->MakeNewDenseVector();
      z->Set(777);
      sol.push_back(GetRawPtr(z));
   }
   ESymSolverStatus st = S.MultiSolve(M, rhs, sol, want >= 0, std::max(0, want));
   std::string ctx = std::string(how) + " " + str(L, v) + mc::fmt(" nrhs %d, inertia asked %d", nrhs, want);
   if( f.zero )
   {
      ex.count(mc::fmt("singular answered %d", (int) st));
      // the solver's own scaling turns an exactly singular matrix into one that is singular up to rounding only
      bool zeroRow = false;
      for( int i = 0; i < L.n; ++i ) { bool z = true; for( int j = 0; j < L.n; ++j ) z &= A[i * L.n + j] == 0; zeroRow |= z; }
      if( st == SYMSOLVER_SUCCESS && !exactSingular && !zeroRow ) { ex.count("singular up to rounding"); return st; }
      if( st == SYMSOLVER_SUCCESS ) ex.fail("singular", ctx + ": singular matrix answered with success");
      if( st != SYMSOLVER_SINGULAR && !(st == SYMSOLVER_WRONG_INERTIA && want >= 0) ) ex.fail("singular", ctx + mc::fmt(": singular matrix answered %d", (int) st));
      return st;
   }
   if( want >= 0 && want != f.neg )
   {
      if( st != SYMSOLVER_WRONG_INERTIA ) ex.fail("inertia-check", ctx + mc::fmt(": true number %d, answered %d", f.neg, (int) st));
      if( S.NumberOfNegEVals() != f.neg ) ex.fail("inertia", ctx + mc::fmt(": %d negative eigenvalues reported, true %d", S.NumberOfNegEVals(), f.neg));
      return st;
   }
   if( st != SYMSOLVER_SUCCESS ) ex.fail("status", ctx + mc::fmt(": answered %d", (int) st));
   if( S.NumberOfNegEVals() != f.neg ) ex.fail("inertia", ctx + mc::fmt(": %d negative eigenvalues reported, true %d", S.NumberOfNegEVals(), f.neg));
   for( int q = 0; q < nrhs; ++q )
   {
      V x = exact(L.n, A, b[q], f.det), y(L.n);
      const DenseVector* z = static_cast<const DenseVector*>(GetRawPtr(sol[q]));
      for( int i = 0; i < L.n; ++i ) y[i] = z->IsHomogeneous() ? z->Scalar() : z->Values()[i];
      const DenseVector* w = static_cast<const DenseVector*>(GetRawPtr(rhs[q]));
      for( int i = 0; i < L.n; ++i ) if( w->Values()[i] != b[q][i] ) ex.fail("rhs-changed", ctx);
      double mx = 1;
      for( double t : x ) mx = std::max(mx, std::fabs(t));
      for( int i = 0; i < L.n; ++i ) if( !(std::fabs(x[i] - y[i]) <= tol * mx) ) ex.fail("solution", ctx + mc::fmt(": right-hand side %d, x%d = %.12g, exact %.12g", q, i, y[i], x[i]));
   }
   mc::Hash h;
   h.i(L.n); h.i(f.neg); h.i(f.det); h.i(nrhs); h.i(want);
   for( long long a : A ) h.i((int) a);
   ex.outcome(h.h);
   return st;
}

static void patterns(mc::Explorer& ex, int& n, std::vector<Index>& r, std::vector<Index>& c, int K3)
{
   n = 1 + ex.choose(3);
   int k = 1 + ex.choose(n == 1 ? 2 : n == 2 ? 4 : K3);
   for( int i = 0; i < k; ++i ) { int p = ex.choose(n * n); r.push_back(p / n + 1); c.push_back(p % n + 1); }
}

// histories over the layer with every matrix format, scaling by a test double
static void layer(mc::Explorer& ex)
{
   int format = ex.choose(5), scal = ex.choose(3);       // no scaling, on demand, always
   int n;
   std::vector<Index> r, c;
   patterns(ex, n, r, c, 3);
   ex.shardPoint();
   Layer L(n, r, c);
   Solve* F = fixture();
   SmartPtr<OptionsList> ol = new OptionsList(*F->run.app->Options());
   ol->SetStringValue("linear_scaling_on_demand", scal == 1 ? "yes" : "no");
   dn::Hook hook;
   hook.format = format;
   SmartPtr<TSymLinearSolver> S = new TSymLinearSolver(new dn::Solver(&hook), scal ? new TestScaling() : nullptr);
   if( !S->Initialize(*F->run.app->Jnlst(), *F->run.app->IpoptNLPObject(), *F->run.app->IpoptDataObject(), *F->run.app->IpoptCQObject(), *ol, "") ) ex.fail("init", "initialization failed");
   scaleCalls = 0;
   bool scaled = scal == 2, again = false;
   V last;
   std::vector<long long> lastA;
   hook.onCall = [&](const dn::Call& k) { last = k.A; };
   hook.record = true;
   hook.fault = [&](int, bool, bool) { if( again ) { again = false; return (int) SYMSOLVER_CALL_AGAIN; } return -1; };
   V val[2];
   for( int m = 0; m < 2; ++m ) { val[m].resize(L.k); for( int i = 0; i < L.k; ++i ) val[m][i] = (double) ((i * 3 + m * 2) % 5 + 1) * ((i + m) % 2 ? -1 : 1); L.M[m]->SetValues(val[m].data()); }
   std::string tr;
   int cur = 0;
   for( int step = 0; step < (ex.thorough ? 4 : 3); ++step )
   {
      int op = ex.choose(7);
      int m = cur, want = -1, nrhs = 1;
      if( op == 0 ) nrhs = 2;
      if( op == 1 ) { m = cur = 1 - cur; }
      if( op == 2 ) { for( double& x : val[m] ) x = -x + (x > 2 ? 1 : 0); L.M[m]->SetValues(val[m].data()); }
      if( op == 3 ) want = facts(n, L.dense(val[m])).neg;
      if( op == 4 ) { if( step && !last.size() ) throw mc::Skip(); for( double& x : val[m] ) x *= 2; L.M[m]->SetValues(val[m].data()); want = facts(n, L.dense(val[m])).neg + 1; }
      if( op == 5 ) again = true;
      if( op == 6 ) { if( !step || scal != 1 ) throw mc::Skip(); bool first = !scaled; bool q = S->IncreaseQuality(); if( first && !q ) ex.fail("quality", "scaling on demand was not switched on"); scaled = true; }
      // after a failed factorization only a new matrix is solved
      tr += mc::fmt(" %d", op);
      ex.desc = mc::fmt("format %d scaling %d operations%s", format, scal, tr.c_str());
      ESymSolverStatus st = judge(ex, *S, L, *L.M[m], val[m], nrhs, want, 1e-9, "layer");
      if( !hook.err.empty() ) ex.fail("solver-protocol", hook.err + " " + str(L, val[m]));
      std::vector<long long> A = L.dense(val[m]);
      if( (int) last.size() == n * n )
         for( int i = 0; i < n; ++i ) for( int j = 0; j < n; ++j )
         {
            double w = (double) A[i * n + j] * (scaled ? lastScale[i] * lastScale[j] : 1);
            if( last[i * n + j] != w ) ex.fail("matrix", mc::fmt("entry %d,%d delivered as %g, expected %g; %s", i, j, last[i * n + j], w, str(L, val[m]).c_str()));
         }
      if( st != SYMSOLVER_SUCCESS ) return;
   }
}

// ------------------------------------------------------------------ MUMPS
struct MFault { int job = 0, from = 0, count = 0, code = 0, seen = 0, injected = 0; std::vector<int> mem; };
static MFault mf;
extern "C" void __real_dmumps_c(DMUMPS_STRUC_C*);
extern "C" void __wrap_dmumps_c(DMUMPS_STRUC_C* d)
{
   if( mf.job == d->job )
   {
      int k = mf.seen++;
      mf.mem.push_back(d->icntl[13]);
      if( k >= mf.from && k < mf.from + mf.count )
      {
         ++mf.injected;
         if( mf.code == -8 || mf.code == -9 ) { d->info[0] = d->infog[0] = mf.code; d->info[1] = 100; d->infog[11] = 77; return; }
         if( mf.code > 0 ) __real_dmumps_c(d);
         d->info[0] = d->infog[0] = mf.code;
         if( mf.code > 0 ) return;
         d->info[1] = -5;
         d->infog[11] = 55;
         return;
      }
   }
   __real_dmumps_c(d);
}

static const std::vector<tn::Opts>& mumpsOpts()
{
   static std::vector<tn::Opts> T = {
      {}, {{"mumps_scaling", "0"}}, {{"mumps_permuting_scaling", "0"}, {"mumps_pivot_order", "0"}}, {{"mumps_pivtol", "0"}, {"mumps_pivtolmax", "0"}}, {{"mumps_pivtol", "0.5"}, {"mumps_pivtolmax", "0.5"}}, {{"mumps_mem_percent", "0"}}, {{"mumps_scaling", "7"}, {"mumps_pivot_order", "2"}},
      {{"mumps_pivot_order", "5"}}, {{"mumps_permuting_scaling", "1"}}, {{"mumps_permuting_scaling", "5"}}, {{"mumps_scaling", "4"}}, {{"mumps_scaling", "8"}}, {{"mumps_pivot_order", "6"}}};
   return T;
}
static SmartPtr<TSymLinearSolver> mumps(mc::Explorer& ex, const tn::Opts& T, SmartPtr<IpoptApplication>& app)
{
   app = new IpoptApplication(false);
   for( auto& kv : T )
   {
      double d;
      if( !app->Options()->SetStringValue(kv.first, kv.second, true, true) && !app->Options()->SetIntegerValue(kv.first, atoi(kv.second.c_str()), true, true) )
         if( sscanf(kv.second.c_str(), "%lf", &d) != 1 || !app->Options()->SetNumericValue(kv.first, d, true, true) ) ex.fail("option", "option " + kv.first + " refused");
   }
   SmartPtr<TSymLinearSolver> S = new TSymLinearSolver(new MumpsSolverInterface(), nullptr);
   if( !S->ReducedInitialize(*app->Jnlst(), *app->Options(), "") ) ex.fail("init", "initialization failed");
   return S;
}

static void mumpsAll(mc::Explorer& ex)
{
   mf = MFault();
   int opt = ex.choose(ex.thorough ? (int) mumpsOpts().size() : 3);
   if( opt == 3 ) throw mc::Skip();           // no pivoting: no promise
   int pat = ex.choose(6);
   int n = pat == 0 ? 1 : pat == 1 || pat == 4 ? 2 : 3;
   std::vector<Index> r, c;
   // all entries of a triangle; reversed and mixed triangles; duplicates
   for( int i = 1; i <= n; ++i ) for( int j = 1; j <= i; ++j ) { r.push_back(i); c.push_back(j); }
   if( pat == 3 ) { std::reverse(r.begin(), r.end()); std::reverse(c.begin(), c.end()); for( size_t i = 0; i < r.size(); i += 2 ) std::swap(r[i], c[i]); }
   if( pat == 4 ) { r = {2, 1, 1, 2, 2, 1}; c = {1, 1, 2, 2, 2, 1}; }
   if( pat == 5 ) { r = {1, 3, 2, 1, 3}; c = {2, 1, 3, 1, 3}; }
   Layer L(n, r, c);
   static const double AL[] = {0, 1, -2, 3, -1};
   int na = n == 3 ? (ex.thorough ? 4 : 3) : pat == 4 ? 3 : 5;
   long total = 1;
   for( int i = 0; i < L.k; ++i ) total *= na;
   // blocks of matrices treated with one symbolic factorization
   const int block = 9;
   int blocks = (int) ((total + block - 1) / block);
   int bi = ex.choose(blocks);
   ex.shardPoint();
   std::string what;
   for( auto& kv : mumpsOpts()[opt] ) what += kv.first + "=" + kv.second + " ";
   ex.desc = mc::fmt("options %spattern %d block %d", what.c_str(), pat, bi);
   SmartPtr<IpoptApplication> app;
   exactSingular = what.find("mumps_scaling=0") != std::string::npos;
   SmartPtr<TSymLinearSolver> S = mumps(ex, mumpsOpts()[opt], app);
   for( long q = (long) bi * block; q < std::min(total, (long) (bi + 1) * block); ++q )
   {
      V v(L.k);
      long t = q;
      for( int i = 0; i < L.k; ++i ) { v[i] = AL[t % na]; t /= na; }
      Facts f = facts(n, L.dense(v));
      bool any = false;
      for( double x : v ) any |= x != 0;
      if( !any ) continue;
      SymTMatrix& M = *L.M[q % 2];
      M.SetValues(v.data());
      ex.count("matrices");
      if( f.zero ) { judge(ex, *S, L, M, v, 1, -1, 1e-8, what.c_str()); continue; }
      judge(ex, *S, L, M, v, 1 + (int) (q % 2), f.neg, 1e-8, what.c_str());
      judge(ex, *S, L, M, v, 2, -1, 1e-8, what.c_str());             // same matrix again
      if( S->IncreaseQuality() ) judge(ex, *S, L, M, v, 1, -1, 1e-8, "after increase of quality");
      M.SetValues(v.data());
      judge(ex, *S, L, M, v, 1, f.neg + 1, 1e-8, what.c_str());
      M.SetValues(v.data());
      judge(ex, *S, L, M, v, 2, f.neg, 1e-8, what.c_str());
   }
}

// systems of the form and size the algorithm has: [H A'; A -D]
static void mumpsKkt(mc::Explorer& ex)
{
   mf = MFault();
   int opt = ex.choose((int) mumpsOpts().size());
   static const int NN[][2] = {{4, 2}, {6, 3}, {12, 5}, {30, 12}, {60, 59}};
   int sz = ex.choose(5), kind = ex.choose(4), rep = ex.choose(ex.thorough ? 8 : 2);
   if( opt == 3 ) throw mc::Skip();           // no pivoting: no promise
   int n = NN[sz][0], m = NN[sz][1], d = n + m;
   ex.shardPoint();
   std::vector<Index> r, c;
   V v;
   unsigned x = 12345 + rep * 7919;
   auto next = [&]() { x = x * 1103515245u + 12345u; return (int) (x >> 16 & 7) - 3; };
   auto add = [&](int i, int j, double a) { r.push_back(i); c.push_back(j); v.push_back(a); };
   // H: diagonal, or with one negative curvature direction orthogonal to the constraints' range (kind 1)
   for( int i = 1; i <= n; ++i ) add(i, i, kind == 2 && i > m ? 1 + 5 * (i % 3) : 3 + i % 4);
   if( kind == 3 ) for( int i = 1; i < n; ++i ) add(i + 1, i, 1);
   for( int j = 1; j <= m; ++j ) { add(n + j, j, 1); if( j < n ) add(j + 1, n + j, next()); add(n + j, n, next()); }
   for( int j = 1; j <= m; ++j ) if( kind == 1 ) { add(n + j, n + j, -0.5); add(n + j, n + j, -0.5); }
   Layer L(d, r, c);
   ex.desc = mc::fmt("size %d+%d kind %d rep %d options %d", n, m, kind, rep, opt);
   SmartPtr<IpoptApplication> app;
   SmartPtr<TSymLinearSolver> S = mumps(ex, mumpsOpts()[opt], app);
   V A(d * d, 0.);
   auto dense = [&]() { std::fill(A.begin(), A.end(), 0.); for( size_t i = 0; i < v.size(); ++i ) { A[(r[i] - 1) * d + c[i] - 1] += v[i]; if( r[i] != c[i] ) A[(c[i] - 1) * d + r[i] - 1] += v[i]; } };
   for( int round = 0; round < 3; ++round )
   {
      if( round ) for( int i = 0; i < n; ++i ) v[i] += round;
      dense();
      dn::Ldl ldl;
      ldl.factor(d, A);
      if( ldl.singular || ldl.neg != m ) ex.fail("internal", "reference factorization");
      L.M[0]->SetValues(v.data());
      for( int nrhs = 1; nrhs <= 2; ++nrhs )
      {
         std::vector<SmartPtr<const Vector> > rhs;
         std::vector<SmartPtr<Vector> > sol;
         std::vector<V> b;
         for( int q = 0; q < nrhs; ++q )
         {
            V bb(d);
            for( double& t : bb ) t = next();
            SmartPtr<DenseVector> w = L.vs->MakeNewDenseVector();
            w->SetValues(bb.data());
            rhs.push_back(GetRawPtr(w));
            { SmartPtr<Vector> nv = L.vs->MakeNew(); sol.push_back(nv); }
            b.push_back(bb);
         }
         if( S->MultiSolve(*L.M[0], rhs, sol, true, m) != SYMSOLVER_SUCCESS ) ex.fail("status", "KKT system not solved");
         if( S->NumberOfNegEVals() != m ) ex.fail("inertia", mc::fmt("%d negative eigenvalues reported, true %d", S->NumberOfNegEVals(), m));
         for( int q = 0; q < nrhs; ++q )
         {
            const double* z = static_cast<const DenseVector*>(GetRawPtr(sol[q]))->Values();
            double res = 0, mx = 1;
            for( int i = 0; i < d; ++i ) { double s = -b[q][i]; for( int j = 0; j < d; ++j ) s += A[i * d + j] * z[j]; res = std::max(res, std::fabs(s)); mx = std::max(mx, std::fabs(z[i])); }
            if( !(res <= 1e-5 * mx) ) ex.fail("solution", mc::fmt("residual %g", res));   // pivot tolerance 1e-6
         }
      }
      mc::Hash h; h.i(opt); h.i(sz); h.i(kind); h.i(rep); h.i(round);
      ex.outcome(h.h);
   }
}

// MUMPS answers with errors
static void mumpsFault(mc::Explorer& ex)
{
   static const int CODE[] = {-8, -9, -10, -13, -6, -1, 1};
   int job = 1 + ex.choose(3);
   int code = CODE[ex.choose(7)];
   int from = ex.choose(4);
   int count = ex.of({1, 2, 3, 20, 21, 25});
   int pm = ex.choose(3);                     // initial mem percent
   ex.shardPoint();
   if( job == 1 && (from > 0 || count > 1) ) throw mc::Skip();
   if( code == 1 && count > 1 ) throw mc::Skip();
   mf = MFault();
   Layer L(2, {1, 2, 2}, {1, 1, 2});
   SmartPtr<IpoptApplication> app;
   tn::Opts T = {{"mumps_mem_percent", pm == 0 ? "1000" : pm == 1 ? "1" : "10"}};
   SmartPtr<TSymLinearSolver> S = mumps(ex, T, app);
   mf.job = job; mf.code = code; mf.from = from; mf.count = count;
   static const char* JN[] = {"", "analysis", "factorization", "solve"};
   ex.desc = mc::fmt("MUMPS %s answers %d from call %d on, %d times, memory percent %s", JN[job], code, from, count, T[0].second.c_str());
   V v = {2, 1, -3};
   bool hungry = job == 2 && pm == 0 && count >= 20;   // 1000 percent doubled 20 times is refused by MUMPS itself
   for( int round = 0; round < 6; ++round )
   {
      v[0] = 2 + round;
      L.M[0]->SetValues(v.data());
      int before = mf.injected;
      size_t memBefore = mf.mem.size();
      SmartPtr<DenseVector> b = L.vs->MakeNewDenseVector(), x = L.vs->MakeNewDenseVector();
      double bb[] = {1, 2};
      b->SetValues(bb);
      ESymSolverStatus st;
      try { st = S->Solve(*L.M[0], *b, *x, true, 1); }
      catch( const std::overflow_error& ) { if( mf.mem.back() < 500000000 ) ex.fail("overflow", mc::fmt("memory percent %d cannot be doubled", mf.mem.back())); return; }
      int inj = mf.injected - before;
      mc::Hash h; h.i(job); h.i(code); h.i(from); h.i(count); h.i(round); h.i(st); h.i(inj);
      ex.outcome(h.h);
      bool memory = job == 2 && (code == -8 || code == -9);
      if( memory )
      {
         // a retry asks for more memory
         for( size_t i = memBefore + 1; i < mf.mem.size(); ++i ) if( mf.mem[i] <= mf.mem[i - 1] ) ex.fail("memory", mc::fmt("retry with memory percent %d after %d", mf.mem[i], mf.mem[i - 1]));
         if( hungry && inj >= 3 ) return;
         if( inj <= 20 && inj && st != SYMSOLVER_SUCCESS ) ex.fail("memory-retry", mc::fmt("status %d after %d requests for memory", (int) st, inj));
      }
      if( !inj || code > 0 || (memory && inj <= 20) )
      {
         if( st != SYMSOLVER_SUCCESS ) ex.fail("recover", mc::fmt("round %d: status %d without error of MUMPS", round, (int) st));
         if( S->NumberOfNegEVals() != 1 ) ex.fail("inertia", mc::fmt("%d negative eigenvalues", S->NumberOfNegEVals()));
         double det = -v[0] * 3 - 1, x0 = (-3 * 1 - 1 * 2) / det, x1 = (v[0] * 2 - 1) / det;
         if( std::fabs(x->Values()[0] - x0) + std::fabs(x->Values()[1] - x1) > 1e-10 ) ex.fail("solution", "wrong solution");
      }
      else
      {
         ESymSolverStatus e = code == -10 && job == 2 ? SYMSOLVER_SINGULAR : code == -6 && job == 1 ? SYMSOLVER_SINGULAR : SYMSOLVER_FATAL_ERROR;
         if( st != e ) ex.fail("error-status", mc::fmt("round %d: status %d, expected %d", round, (int) st, (int) e));
      }
   }
}

int main(int argc, char** argv)
{
   setvbuf(stdout, nullptr, _IOLBF, 4096);
   mc::Explorer ex;
   return ex.main(argc, argv, [](mc::Explorer& e) {
      if( e.mode == "conversion" ) return conversion(e);
      if( e.mode == "layer" ) return layer(e);
      if( e.mode == "mumps" ) return mumpsAll(e);
      if( e.mode == "kkt" ) return mumpsKkt(e);
      mumpsFault(e);
   });
}
