// A small dense symmetric indefinite solver (Bunch-Parlett) behind Ipopt's linear solver interface.
// Used as the linear solver of tiny problems, as monitor of every system handed to the solver and as fault injector.
#pragma once
#include "tnlp.hpp"
#include "IpAlgBuilder.hpp"
#include "IpSparseSymLinearSolverInterface.hpp"
#include "IpTSymLinearSolver.hpp"
#include "IpSlackBasedTSymScalingMethod.hpp"
#include "IpTNLPAdapter.hpp"

namespace dn {
using namespace Ipopt;
using sp::V;

struct Ldl
{
   int n = 0, neg = 0;
   bool singular = false;
   V a;                      // factored
   std::vector<int> perm, blk;
   void factor(int n_, const V& A)
   {
      n = n_;
      a = A;
      perm.resize(n);
      blk.assign(n, 0);
      neg = 0;
      singular = false;
      double mx = 0;
      for( double v : a ) mx = std::max(mx, std::fabs(v));
      for( int i = 0; i < n; ++i ) perm[i] = i;
      const double alpha = (1 + std::sqrt(17.)) / 8;
      auto at = [&](int i, int j) -> double& { return a[i * n + j]; };
      auto swap = [&](int p, int q) {
         if( p == q ) return;
         for( int j = 0; j < n; ++j ) std::swap(at(p, j), at(q, j));
         for( int i = 0; i < n; ++i ) std::swap(at(i, p), at(i, q));
         std::swap(perm[p], perm[q]);
      };
      for( int k = 0; k < n; )
      {
         double d = -1, o = -1;
         int di = k, oi = k, oj = k;
         for( int i = k; i < n; ++i )
         {
            if( std::fabs(at(i, i)) > d ) { d = std::fabs(at(i, i)); di = i; }
            for( int j = k; j < i; ++j ) if( std::fabs(at(i, j)) > o ) { o = std::fabs(at(i, j)); oi = i; oj = j; }
         }
         if( !(std::max(d, o) > 1e-17 * mx) || mx == 0 ) { singular = true; return; }
         if( d >= alpha * o )
         {
            swap(k, di);
            double p = at(k, k);
            if( p < 0 ) ++neg;
            for( int i = k + 1; i < n; ++i )
            {
               double l = at(i, k) / p;
               for( int j = k + 1; j <= i; ++j ) { at(i, j) -= l * at(j, k); at(j, i) = at(i, j); }
            }
            for( int i = k + 1; i < n; ++i ) { at(i, k) /= p; at(k, i) = 0; }
            blk[k] = 1;
            ++k;
         }
         else
         {
            swap(k, oj);
            swap(k + 1, oi == k ? oj : oi);
            double a11 = at(k, k), a21 = at(k + 1, k), a22 = at(k + 1, k + 1), det = a11 * a22 - a21 * a21;
            ++neg;   // det < 0 for this pivot
            V l1(n), l2(n);
            for( int i = k + 2; i < n; ++i )
            {
               l1[i] = (at(i, k) * a22 - at(i, k + 1) * a21) / det;
               l2[i] = (at(i, k + 1) * a11 - at(i, k) * a21) / det;
            }
            for( int i = k + 2; i < n; ++i ) for( int j = k + 2; j <= i; ++j ) { at(i, j) -= l1[i] * at(j, k) + l2[i] * at(j, k + 1); at(j, i) = at(i, j); }
            for( int i = k + 2; i < n; ++i ) { at(i, k) = l1[i]; at(i, k + 1) = l2[i]; at(k, i) = at(k + 1, i) = 0; }
            blk[k] = 2;
            k += 2;
         }
      }
   }
   void solve(double* b) const
   {
      V y(n);
      for( int i = 0; i < n; ++i ) y[i] = b[perm[i]];
      for( int k = 0; k < n; k += blk[k] ) for( int i = k + blk[k]; i < n; ++i ) { y[i] -= a[i * n + k] * y[k]; if( blk[k] == 2 ) y[i] -= a[i * n + k + 1] * y[k + 1]; }
      for( int k = 0; k < n; k += blk[k] )
         if( blk[k] == 1 ) y[k] /= a[k * n + k];
         else
         {
            double a11 = a[k * n + k], a21 = a[(k + 1) * n + k], a22 = a[(k + 1) * n + k + 1], det = a11 * a22 - a21 * a21, u = y[k], v = y[k + 1];
            y[k] = (u * a22 - v * a21) / det;
            y[k + 1] = (v * a11 - u * a21) / det;
         }
      for( int i = n - 1; i >= 0; --i )
      {
         for( int j = i + 1; j < n; ++j )
         {
            if( blk[i] == 2 && j == i + 1 ) continue;       // inside the 2x2 block
            y[i] -= a[j * n + i] * y[j];
         }
      }
      for( int i = 0; i < n; ++i ) b[perm[i]] = y[i];
   }
};

struct Call { int n, nrhs; bool newm, check; int want; int neg; int status; V A, rhs, sol; };

/** what a plugged-in solver is asked and what it answers */
struct Hook
{
   int format = 0;                                  // SparseSymLinearSolverInterface::EMatrixFormat, 0 = Triplet
   bool inertia = true;
   bool record = false;
   std::vector<Call> calls;
   int ncalls = 0, ninit = 0;
   int quality = 2;                                 // number of times IncreaseQuality succeeds
   int nquality = 0;
   std::function<int(int nth, bool newm, bool check)> fault;   // -1 none; else ESymSolverStatus to return; 10: corrupt the solution with NaN; 11: zero; 12: tiny error; 13: large error; 14: throw IpoptException
   std::function<bool(int)> initFault;
   std::string err;
   std::function<void(const Call&)> onCall;
};

class Solver : public SparseSymLinearSolverInterface
{
public:
   Hook* h;
   Hook own;
   int dim = 0, nz = 0;
   const Index* ia0 = nullptr;
   const Index* ja0 = nullptr;
   V vals;
   V A;
   Ldl f;
   bool factored = false;
   bool init = false;
   bool pending = false;     // quality was increased: refactorize
   explicit Solver(Hook* hook) : h(hook ? hook : &own) {}
   bool InitializeImpl(const OptionsList& options, const std::string& prefix) override
   {
      bool ws;
      options.GetBoolValue("warm_start_same_structure", ws, prefix);
      if( !ws ) { dim = nz = 0; vals.clear(); }
      h->nquality = 0;
      factored = false;
      init = false;
      return true;
   }
   ESymSolverStatus InitializeStructure(Index d, Index n, const Index* ia, const Index* ja) override
   {
      ++h->ninit;
      if( h->initFault && h->initFault(h->ninit) ) return SYMSOLVER_FATAL_ERROR;
      dim = d;
      nz = n;
      ia0 = ia;
      ja0 = ja;
      vals.assign(std::max(1, n), std::nan(""));
      init = true;
      factored = false;
      int fm = h->format, o = (fm == CSR_Format_1_Offset || fm == CSR_Full_Format_1_Offset) ? 1 : 0;
      if( fm == Triplet_Format ) { for( int k = 0; k < nz; ++k ) if( ia[k] < 1 || ia[k] > d || ja[k] < 1 || ja[k] > d ) h->err = "matrix index out of range"; }
      else
      {
         if( nz && (ia[0] != o || ia[d] != nz + o) ) h->err = "row starts of compressed format wrong";
         for( int i = 0; nz && i < d; ++i ) for( int k = ia[i] - o; k < ia[i + 1] - o; ++k )
         {
            if( ja[k] < o || ja[k] >= d + o ) { h->err = "column index out of range"; continue; }
            if( k > ia[i] - o && ja[k] <= ja[k - 1] ) h->err = "column indices not increasing in compressed format";
            if( (fm == CSR_Format_0_Offset || fm == CSR_Format_1_Offset) && ja[k] - o < i ) h->err = "entry of lower triangle in upper triangular format";
         }
      }
      return SYMSOLVER_SUCCESS;
   }
   Number* GetValuesArrayPtr() override
   {
      if( !init ) h->err = "GetValuesArrayPtr before InitializeStructure";
      return vals.data();
   }
   void expand(const Index* ia, const Index* ja)
   {
      A.assign(dim * dim, 0.);
      int fm = h->format;
      if( fm == Triplet_Format )
         for( int k = 0; k < nz; ++k )
         {
            int r = ia[k] - 1, c = ja[k] - 1;
            A[r * dim + c] += vals[k];
            if( r != c ) A[c * dim + r] += vals[k];
         }
      else
      {
         int o = (fm == CSR_Format_1_Offset || fm == CSR_Full_Format_1_Offset) ? 1 : 0;
         bool full = fm == CSR_Full_Format_0_Offset || fm == CSR_Full_Format_1_Offset;
         for( int i = 0; nz && i < dim; ++i )
            for( int k = ia[i] - o; k < ia[i + 1] - o; ++k )
            {
               A[i * dim + ja[k] - o] += vals[k];
               if( !full && ja[k] - o != i ) A[(ja[k] - o) * dim + i] += vals[k];
            }
         if( full ) for( int i = 0; i < dim; ++i ) for( int j = 0; j < i; ++j ) if( A[i * dim + j] != A[j * dim + i] && !std::isnan(A[i * dim + j]) ) h->err = "full format is not symmetric";
      }
   }
   ESymSolverStatus MultiSolve(bool newm, const Index* ia, const Index* ja, Index nrhs, Number* rhs, bool check, Index want) override
   {
      int nth = h->ncalls++;
      if( !init ) h->err = "MultiSolve before InitializeStructure";
      if( ia != ia0 || ja != ja0 ) h->err = "index arrays changed";
      if( check && !h->inertia ) h->err = "inertia check requested from a solver that does not provide inertia";
      int fk = h->fault ? h->fault(nth, newm, check) : -1;
      if( fk == 14 ) throw IpoptException("linear solver gave up", "user.cpp", 1, "LINSOLVER");
      if( fk == 15 ) throw std::bad_alloc();
      Call c;
      c.n = dim; c.nrhs = nrhs; c.newm = newm; c.check = check; c.want = want;
      if( newm || pending || !factored )
      {
         if( pending && !newm ) { pending = false; return SYMSOLVER_CALL_AGAIN; }
         pending = false;
         if( !newm && !factored && nth == 0 ) h->err = "first solve without new matrix";
         expand(ia, ja);
         std::fill(vals.begin(), vals.end(), std::nan(""));   // a solver may overwrite the values
         for( double v : A ) if( !std::isfinite(v) ) { return done(c, rhs, SYMSOLVER_SINGULAR); }
         f.factor(dim, A);
         factored = !f.singular;
      }
      if( h->record ) { c.A = A; c.rhs.assign(rhs, rhs + dim * nrhs); }
      if( fk >= 0 && fk < 10 ) { factored = false; return done(c, rhs, (ESymSolverStatus) fk); }
      if( f.singular ) return done(c, rhs, SYMSOLVER_SINGULAR);
      if( check && f.neg != want ) { factored = false; return done(c, rhs, SYMSOLVER_WRONG_INERTIA); }
      for( int r = 0; r < nrhs; ++r ) f.solve(rhs + r * dim);
      for( int i = 0; i < dim * nrhs; ++i )
      {
         if( fk == 10 && i == 0 ) rhs[i] = std::nan("");
         if( fk == 11 ) rhs[i] = 0;
         if( fk == 12 ) rhs[i] *= 1 + 1e-6;
         if( fk == 13 ) rhs[i] = rhs[i] * 2 + 1;
         if( fk == 16 && i == 0 ) rhs[i] = INFINITY;
      }
      return done(c, rhs, SYMSOLVER_SUCCESS);
   }
   ESymSolverStatus done(Call& c, double* rhs, ESymSolverStatus s)
   {
      c.status = s;
      c.neg = f.neg;
      if( h->record ) { c.sol.assign(rhs, rhs + dim * c.nrhs); h->calls.push_back(c); }
      if( h->onCall ) h->onCall(c);
      return s;
   }
   Index NumberOfNegEVals() const override { return f.neg; }
   bool IncreaseQuality() override
   {
      if( h->nquality >= h->quality ) return false;
      ++h->nquality;
      pending = true;
      return true;
   }
   bool ProvidesInertia() const override { return h->inertia; }
   EMatrixFormat MatrixFormat() const override { return (EMatrixFormat) h->format; }
};

class Builder : public AlgorithmBuilder
{
public:
   Hook* h;
   bool scale;
   explicit Builder(Hook* hook, bool scaling) : h(hook), scale(scaling) {}
   SmartPtr<SymLinearSolver> SymLinearSolverFactory(const Journalist&, const OptionsList& options, const std::string& prefix) override
   {
      SmartPtr<TSymScalingMethod> sc;
      std::string m;
      options.GetStringValue("linear_system_scaling", m, prefix);
      if( m == "slack-based" || scale ) sc = new SlackBasedTSymScalingMethod();
      return new TSymLinearSolver(new Solver(h), sc);
   }
};

/** one application together with its problem: solve with the dense solver (or the real one) */
struct Run
{
   SmartPtr<IpoptApplication> app;
   SmartPtr<NLP> nlp;
   Hook* hook = nullptr;
   bool mumps = false;
   std::function<AlgorithmBuilder*(Hook*)> makeBuilder;
   ApplicationReturnStatus solve(SmartPtr<TNLP> t)
   {
      if( mumps ) return app->OptimizeTNLP(t);
      nlp = new TNLPAdapter(GetRawPtr(t), ConstPtr(app->Jnlst()));
      SmartPtr<AlgorithmBuilder> b = makeBuilder ? makeBuilder(hook) : new Builder(hook, false);
      return app->OptimizeNLP(nlp, b);
   }
   ApplicationReturnStatus resolve(SmartPtr<TNLP> t) { return mumps ? app->ReOptimizeTNLP(t) : app->ReOptimizeNLP(nlp); }
};
} // namespace dn
