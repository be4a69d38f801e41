// A TNLP over an sp::Problem that records and checks every callback, can present the problem in equivalent ways
// and can misbehave on demand.
#pragma once
#include "spec.hpp"
#include "mc.hpp"
#include "IpIpoptApplication.hpp"
#include "IpTNLP.hpp"
#include "IpSolveStatistics.hpp"
#include "IpIpoptData.hpp"
#include "IpIpoptCalculatedQuantities.hpp"
#include <functional>
#include <stdexcept>

namespace tn {
using namespace Ipopt;
using sp::V;

enum CB { C_INFO, C_BOUNDS, C_START, C_SCALING, C_VLIN, C_CLIN, C_F, C_GRAD, C_G, C_JAC, C_HESS, C_ITER, C_FINAL, C_JSTRUCT, C_HSTRUCT, C_NNONLIN, C_LNONLIN, C_META, C_FINALMETA, C_WARM, NCB };
inline const char* cbname(int c)
{
   static const char* n[] = {"get_nlp_info", "get_bounds_info", "get_starting_point", "get_scaling_parameters", "get_variables_linearity", "get_constraints_linearity",
                             "eval_f", "eval_grad_f", "eval_g", "eval_jac_g", "eval_h", "intermediate_callback", "finalize_solution", "eval_jac_g(structure)", "eval_h(structure)",
                             "get_number_of_nonlinear_variables", "get_list_of_nonlinear_variables", "get_var_con_metadata", "finalize_metadata", "get_warm_start_iterate"
                            };
   return n[c];
}

struct Ent { int r, c; double w; };   // presented entry: value = w * true entry

/** how a problem is stated */
struct Presentation
{
   bool fortran = false;
   std::vector<Ent> jac, hess;      // empty: canonical
   double huge = 2e19;              // value used for absent bounds
   bool explicitPres = false;
};

struct Iter { int mode, iter; double obj, inf_pr, inf_du, mu, dnorm, reg, adu, apr; int ls; };

struct Result
{
   int status = -100;              // SolverReturn in finalize_solution
   V x, zl, zu, g, lam;
   double f = 0;
   int finals = 0;
};

class Spec : public TNLP
{
public:
   const sp::Problem* P;
   Presentation pr;
   Result res;
   std::vector<Iter> iters;
   std::vector<int> trace;          // callback kinds
   bool keepTrace = false;
   std::string err;                 // first protocol error
   // hooks
   std::function<int(int cb, int nth, const double* x)> fault;   // 0 ok 1 return false 2 NaN 3 +Inf 4 throw std 5 throw IpoptException 6 -Inf
   std::function<bool(Spec&, const Iter&, const IpoptData*, IpoptCalculatedQuantities*)> onIter;
   std::function<void(int cb, const double* x, bool new_x)> onEval;
   std::function<bool(Number&, bool&, Index, Number*, bool&, Index, Number*)> scaling;
   std::function<void(Spec&)> onFinal;
   int cnt[NCB] = {0};
   bool wantNonlin = false;
   std::vector<int> nonlinVars;
   bool initX = true;
   bool checkNewX = true;
   bool started = false, finished = false;
   V lastX;
   bool haveLast = false;
   V lastLam;
   bool haveLam = false;
   std::function<void(Index&, Index&, Index&, Index&)> tamperInfo;
   std::function<void(double*, double*, double*, double*)> tamperBounds;
   bool init_z_seen = false, init_lam_seen = false;
   const IpoptData* ipd = nullptr;
   IpoptCalculatedQuantities* ipq = nullptr;

   explicit Spec(const sp::Problem& p) : P(&p) { canonical(); }

   void canonical()
   {
      pr.jac.clear();
      pr.hess.clear();
      for( int j = 0; j < P->m; ++j ) for( int i : P->g[j].vars() ) pr.jac.push_back({j, i, 1});
      std::set<std::pair<int, int>> h = P->f.hvars();
      for( auto& g : P->g ) { auto s = g.hvars(); h.insert(s.begin(), s.end()); }
      for( auto& e : h ) pr.hess.push_back({e.first, e.second, 1});
   }
   void reset()
   {
      res = Result();
      iters.clear();
      trace.clear();
      err.clear();
      for( int& c : cnt ) c = 0;
      started = finished = haveLast = haveLam = false;
   }
   void bad(const std::string& s) { if( err.empty() ) err = s; }
   void note(int cb)
   {
      ++cnt[cb];
      if( keepTrace ) trace.push_back(cb);
      if( finished && cb != C_FINALMETA ) bad(mc::fmt("%s called after finalize_solution", cbname(cb)));
      if( cb >= C_F && cb <= C_HESS )
      {
         if( !cnt[C_INFO] ) bad("evaluation before get_nlp_info");
         if( !cnt[C_BOUNDS] ) bad("evaluation before get_bounds_info");
      }
      if( cb == C_JAC && !cnt[C_JSTRUCT] ) bad("Jacobian values before structure");
      if( cb == C_HESS && !cnt[C_HSTRUCT] ) bad("Hessian values before structure");
      if( cb == C_ITER && !cnt[C_START] ) bad("iteration before starting point was requested");
   }
   int flt(int cb, const double* x) { return fault ? fault(cb, cnt[cb] - 1, x) : 0; }
   static bool act(int k, double* v, int n)
   {
      if( k == 1 ) return false;
      if( k == 2 && n > 0 ) v[0] = std::nan("");
      if( k == 3 && n > 0 ) v[n - 1] = INFINITY;
      if( k == 6 && n > 0 ) v[n - 1] = -INFINITY;
      if( k == 4 ) throw std::runtime_error("user exception");
      if( k == 5 ) throw IpoptException("user ipopt exception", "user.cpp", 1, "USER");
      if( k == 7 ) throw 42;
      return true;
   }

   bool get_nlp_info(Index& n, Index& m, Index& nnz_jac_g, Index& nnz_h_lag, IndexStyleEnum& index_style) override
   {
      note(C_INFO);
      n = P->n;
      m = P->m;
      nnz_jac_g = (Index) pr.jac.size();
      nnz_h_lag = (Index) pr.hess.size();
      index_style = pr.fortran ? FORTRAN_STYLE : C_STYLE;
      if( tamperInfo ) tamperInfo(n, m, nnz_jac_g, nnz_h_lag);
      return act(flt(C_INFO, nullptr), nullptr, 0);
   }
   std::function<bool(IteratesVector&)> warmIterate;
   bool get_warm_start_iterate(IteratesVector& it) override
   {
      note(C_WARM);
      return warmIterate ? warmIterate(it) : false;
   }
   bool get_bounds_info(Index n, Number* xl, Number* xu, Index m, Number* gl, Number* gu) override
   {
      note(C_BOUNDS);
      if( n != P->n || m != P->m ) bad("wrong dimension in get_bounds_info");
      if( (n && (!xl || !xu)) || (m && (!gl || !gu)) ) bad("null array in get_bounds_info");
      auto lo = [&](double v) { return v <= -1e19 ? -pr.huge : v; };
      auto hi = [&](double v) { return v >= 1e19 ? pr.huge : v; };
      for( int i = 0; i < n; ++i ) { xl[i] = lo(P->xl[i]); xu[i] = hi(P->xu[i]); }
      for( int i = 0; i < m; ++i ) { gl[i] = lo(P->gl[i]); gu[i] = hi(P->gu[i]); }
      if( tamperBounds ) tamperBounds(xl, xu, gl, gu);
      return act(flt(C_BOUNDS, nullptr), xl, n);
   }
   bool get_scaling_parameters(Number& obj, bool& usex, Index n, Number* x, bool& useg, Index m, Number* g) override
   {
      note(C_SCALING);
      if( n != P->n || m != P->m ) bad("wrong dimension in get_scaling_parameters");
      if( scaling ) return scaling(obj, usex, n, x, useg, m, g);
      return false;
   }
   bool get_starting_point(Index n, bool init_x, Number* x, bool init_z, Number* zl, Number* zu, Index m, bool init_lambda, Number* lam) override
   {
      note(C_START);
      if( n != P->n || m != P->m ) bad("wrong dimension in get_starting_point");
      if( init_x && n && !x ) bad("null x in get_starting_point");
      if( init_z && n && (!zl || !zu) ) bad("null z in get_starting_point");
      if( init_lambda && m && !lam ) bad("null lambda in get_starting_point");
      if( init_x ) for( int i = 0; i < n; ++i ) x[i] = P->x0[i];
      if( init_z ) { init_z_seen = true; for( int i = 0; i < n; ++i ) { zl[i] = i < (int) P->zl0.size() ? P->zl0[i] : 1.; zu[i] = i < (int) P->zu0.size() ? P->zu0[i] : 1.; } }
      if( init_lambda ) { init_lam_seen = true; for( int j = 0; j < m; ++j ) lam[j] = j < (int) P->lam0.size() ? P->lam0[j] : 0.; }
      return act(flt(C_START, nullptr), x, init_x ? n : 0);
   }
   void newx(int cb, Index n, const Number* x, bool new_x)
   {
      if( n != P->n ) bad(mc::fmt("wrong n in %s", cbname(cb)));
      if( n && !x ) { bad(mc::fmt("null x in %s", cbname(cb))); return; }
      V c(x, x + n);
      for( double v : c ) if( !std::isfinite(v) ) bad(mc::fmt("non-finite x handed to %s", cbname(cb)));
      if( !new_x && checkNewX )
      {
         if( !haveLast ) bad(mc::fmt("%s: new_x=false although nothing was evaluated before", cbname(cb)));
         else if( memcmp(c.data(), lastX.data(), n * sizeof(double)) ) bad(mc::fmt("%s: new_x=false although x differs from the previous evaluation's (x0: %.17g vs %.17g)", cbname(cb), c[0], lastX[0]));
      }
      lastX = c;
      haveLast = true;
      if( onEval ) onEval(cb, x, new_x);
   }
   bool eval_f(Index n, const Number* x, bool new_x, Number& v) override
   {
      note(C_F);
      newx(C_F, n, x, new_x);
      v = P->f.val(x);
      return act(flt(C_F, x), &v, 1);
   }
   bool eval_grad_f(Index n, const Number* x, bool new_x, Number* g) override
   {
      note(C_GRAD);
      newx(C_GRAD, n, x, new_x);
      for( int i = 0; i < n; ++i ) g[i] = 0;
      P->f.grad(x, g);
      return act(flt(C_GRAD, x), g, n);
   }
   bool eval_g(Index n, const Number* x, bool new_x, Index m, Number* g) override
   {
      note(C_G);
      newx(C_G, n, x, new_x);
      if( m != P->m ) bad("wrong m in eval_g");
      int k = flt(C_G, x);
      if( k == 1 ) return false;    // leaves g untouched
      for( int j = 0; j < m; ++j ) g[j] = P->g[j].val(x);
      return act(k, g, m);
   }
   bool eval_jac_g(Index n, const Number* x, bool new_x, Index m, Index nele, Index* iRow, Index* jCol, Number* values) override
   {
      if( nele != (Index) pr.jac.size() ) bad("wrong nele_jac");
      if( m != P->m || n != P->n ) bad("wrong dimension in eval_jac_g");
      int o = pr.fortran ? 1 : 0;
      if( !values )
      {
         note(C_JSTRUCT);
         if( nele && (!iRow || !jCol) ) { bad("null index array in eval_jac_g structure call"); return false; }
         for( int k = 0; k < nele; ++k ) { iRow[k] = pr.jac[k].r + o; jCol[k] = pr.jac[k].c + o; }
         return act(flt(C_JSTRUCT, nullptr), nullptr, 0);
      }
      note(C_JAC);
      if( iRow || jCol ) bad("index arrays given in eval_jac_g value call");
      newx(C_JAC, n, x, new_x);
      V J;
      P->jac(x, J);
      int k = flt(C_JAC, x);
      if( k == 1 ) return false;
      for( int e = 0; e < nele; ++e ) values[e] = pr.jac[e].w * J[pr.jac[e].r * n + pr.jac[e].c];
      return act(k, values, nele);
   }
   bool eval_h(Index n, const Number* x, bool new_x, Number of, Index m, const Number* lam, bool new_lam, Index nele, Index* iRow, Index* jCol, Number* values) override
   {
      if( nele != (Index) pr.hess.size() ) bad("wrong nele_hess");
      if( m != P->m || n != P->n ) bad("wrong dimension in eval_h");
      int o = pr.fortran ? 1 : 0;
      if( !values )
      {
         note(C_HSTRUCT);
         for( int k = 0; k < nele; ++k ) { iRow[k] = pr.hess[k].r + o; jCol[k] = pr.hess[k].c + o; }
         return act(flt(C_HSTRUCT, nullptr), nullptr, 0);
      }
      note(C_HESS);
      newx(C_HESS, n, x, new_x);
      if( m && !lam ) { bad("null lambda in eval_h"); return false; }
      V l(lam, lam + m);
      for( double v : l ) if( !std::isfinite(v) ) bad("non-finite lambda handed to eval_h");
      if( !new_lam && checkNewX )
      {
         if( !haveLam ) bad("eval_h: new_lambda=false at first evaluation");
         else if( m && memcmp(l.data(), lastLam.data(), m * sizeof(double)) ) bad("eval_h: new_lambda=false although lambda differs from the previous evaluation's");
      }
      lastLam = l;
      haveLam = true;
      V H(n * n, 0.);
      P->f.hess(x, H.data(), n, of);
      for( int j = 0; j < m; ++j ) P->g[j].hess(x, H.data(), n, lam[j]);
      int k = flt(C_HESS, x);
      if( k == 1 ) return false;
      for( int e = 0; e < nele; ++e ) values[e] = pr.hess[e].w * H[pr.hess[e].r * n + pr.hess[e].c];
      return act(k, values, nele);
   }
   Index get_number_of_nonlinear_variables() override { ++cnt[C_NNONLIN]; return wantNonlin ? (Index) nonlinVars.size() : -1; }
   bool get_list_of_nonlinear_variables(Index k, Index* pos) override
   {
      ++cnt[C_LNONLIN];
      if( k != (Index) nonlinVars.size() ) bad("wrong number of nonlinear variables");
      for( int i = 0; i < k; ++i ) pos[i] = nonlinVars[i] + (pr.fortran ? 1 : 0);
      return true;
   }
   bool intermediate_callback(AlgorithmMode mode, Index iter, Number obj, Number inf_pr, Number inf_du, Number mu, Number dn, Number reg, Number adu, Number apr, Index ls, const IpoptData* ip_data, IpoptCalculatedQuantities* ip_cq) override
   {
      note(C_ITER);
      Iter it{(int) mode, iter, obj, inf_pr, inf_du, mu, dn, reg, adu, apr, ls};
      if( iter != (iters.empty() ? 0 : iters.back().iter + 1) && !(iters.size() && iter == iters.back().iter) )
         bad(mc::fmt("iteration callback number %d after %d", (int) iter, iters.empty() ? -1 : iters.back().iter));
      iters.push_back(it);
      ipd = ip_data;
      ipq = ip_cq;
      int k = flt(C_ITER, nullptr);
      if( k == 4 || k == 5 ) act(k, nullptr, 0);
      if( k == 1 ) return false;
      if( onIter ) return onIter(*this, it, ip_data, ip_cq);
      return true;
   }
   void finalize_solution(SolverReturn status, Index n, const Number* x, const Number* zl, const Number* zu, Index m, const Number* g, const Number* lam, Number f, const IpoptData* ip_data, IpoptCalculatedQuantities* ip_cq) override
   {
      note(C_FINAL);
      if( n != P->n || m != P->m ) bad("wrong dimension in finalize_solution");
      if( res.finals++ ) bad("finalize_solution called twice");
      res.status = status;
      if( n && (!x || !zl || !zu) ) { bad("null array in finalize_solution"); return; }
      res.x.assign(x, x + n);
      res.zl.assign(zl, zl + n);
      res.zu.assign(zu, zu + n);
      if( m && (!g || !lam) ) { bad("null constraint array in finalize_solution"); return; }
      res.g.assign(g, g + m);
      res.lam.assign(lam, lam + m);
      res.f = f;
      ipd = ip_data;
      ipq = ip_cq;
      if( onFinal ) onFinal(*this);
      ipd = nullptr;
      ipq = nullptr;
      finished = true;
   }
};

typedef std::vector<std::pair<std::string, std::string>> Opts;

inline SmartPtr<IpoptApplication> makeApp(bool console = false)
{
   static SmartPtr<RegisteredOptions> regs;
   SmartPtr<IpoptApplication> app;
   if( console || IsNull(regs) )
   {
      app = new IpoptApplication(console);
      if( IsNull(regs) ) regs = app->RegOptions();
   }
   else
   {
      // registering the options is the dominating cost of a tiny solve; share them
      SmartPtr<Journalist> jn = new Journalist();
      SmartPtr<OptionsList> ol = new OptionsList();
      ol->SetJournalist(jn);
      ol->SetRegisteredOptions(regs);
      app = new IpoptApplication(regs, ol, jn);
   }
   app->Options()->SetStringValue("linear_solver", "mumps");
   app->Options()->SetStringValue("sb", "yes");
   app->Options()->SetIntegerValue("print_level", 0);
   return app;
}

inline bool setOpt(IpoptApplication& app, const std::string& name, const std::string& val)
{
   SmartPtr<const RegisteredOption> o = app.RegOptions()->GetOption(name);
   if( IsNull(o) ) { fprintf(stderr, "unknown option %s\n", name.c_str()); _exit(97); }
   if( o->Type() == OT_String ) return app.Options()->SetStringValue(name, val);
   if( o->Type() == OT_Integer ) return app.Options()->SetIntegerValue(name, atoi(val.c_str()));
   return app.Options()->SetNumericValue(name, atof(val.c_str()));
}

/** SolverReturn the final report must carry for a return status (-1: none required) */
inline int expectedFinal(int st)
{
   switch( st )
   {
      case Solve_Succeeded: return SUCCESS;
      case Solved_To_Acceptable_Level: return STOP_AT_ACCEPTABLE_POINT;
      case Infeasible_Problem_Detected: return LOCAL_INFEASIBILITY;
      case Search_Direction_Becomes_Too_Small: return STOP_AT_TINY_STEP;
      case Diverging_Iterates: return DIVERGING_ITERATES;
      case User_Requested_Stop: return USER_REQUESTED_STOP;
      case Feasible_Point_Found: return FEASIBLE_POINT_FOUND;
      case Maximum_Iterations_Exceeded: return MAXITER_EXCEEDED;
      case Restoration_Failed: return RESTORATION_FAILURE;
      case Error_In_Step_Computation: return ERROR_IN_STEP_COMPUTATION;
      case Maximum_CpuTime_Exceeded: return CPUTIME_EXCEEDED;
      case Maximum_WallTime_Exceeded: return WALLTIME_EXCEEDED;
      case Not_Enough_Degrees_Of_Freedom: return TOO_FEW_DEGREES_OF_FREEDOM;
      case Invalid_Option: return INVALID_OPTION;
      case Insufficient_Memory: return OUT_OF_MEMORY;
      case Internal_Error: return INTERNAL_ERROR;
      case Invalid_Number_Detected: return INVALID_NUMBER_DETECTED;
      case Unrecoverable_Exception: return INTERNAL_ERROR;
      default: return -1;
   }
}
inline bool documentedStatus(int s)
{
   switch( s )
   {
      case 0: case 1: case 2: case 3: case 4: case 5: case 6: case -1: case -2: case -3: case -4: case -5: case -10: case -11: case -12: case -13: case -100: case -101: case -102: case -199: return true;
   }
   return false;
}
} // namespace tn
