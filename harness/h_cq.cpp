// C23: the quantities of the algorithm (about 100 caches), queried in every history, equal those computed from scratch for the same inputs
#include "solvelib.hpp"
#include "IpIpoptNLP.hpp"
#include "IpDenseVector.hpp"
#include "IpCompoundVector.hpp"
typedef IpoptCalculatedQuantities CQ;

static void app(V& r, const Vector& v)
{
   if( const DenseVector* d = dynamic_cast<const DenseVector*>(&v) ) for( int i = 0; i < d->Dim(); ++i ) r.push_back(d->IsHomogeneous() ? d->Scalar() : d->Values()[i]);
   else if( const CompoundVector* c = dynamic_cast<const CompoundVector*>(&v) ) for( Index i = 0; i < c->NComps(); ++i ) app(r, *c->GetComp(i));
}
static void appm(V& r, const Matrix& m, const Vector& rowLike, const Vector& colLike)
{
   SmartPtr<Vector> x = colLike.MakeNew(), y = rowLike.MakeNew();
   x->Set(1.);
   m.MultVector(1., *x, 0., *y);
   app(r, *y);
   SmartPtr<Vector> a = rowLike.MakeNew(), b = colLike.MakeNew();
   a->Set(1.);
   m.TransMultVector(1., *a, 0., *b);
   app(r, *b);
}
static bool g_noHess;
struct Q { const char* name; int group; std::function<V(CQ&, IpoptData&)> f; };
#define VEC(g, q) {#q, g, [](CQ& c, IpoptData&) { V r; app(r, *c.q()); return r; }}
#define NUM(g, q) {#q, g, [](CQ& c, IpoptData&) { return V(1, c.q()); }}
#define NRM(g, q) {#q, g, [](CQ& c, IpoptData&) { return V{c.q(NORM_MAX), c.q(NORM_1), c.q(NORM_2)}; }}
#define MU(g, q) {#q, g, [](CQ& c, IpoptData& d) { return V{c.q(0., NORM_MAX), c.q(d.curr_mu(), NORM_1), c.q(0.3, NORM_2), c.q(0., NORM_1)}; }}
// groups: 0 functions, 1 slacks/complementarity, 2 Lagrangian, 3 aggregated errors, 4 steps, 5 trial
static const std::vector<Q>& quantities()
{
   static const std::vector<Q> q = {
      NUM(0, curr_f), NUM(0, unscaled_curr_f), VEC(0, curr_grad_f), NUM(0, curr_barrier_obj), VEC(0, curr_grad_barrier_obj_x), VEC(0, curr_grad_barrier_obj_s), VEC(0, grad_kappa_times_damping_x), VEC(0, grad_kappa_times_damping_s),
      VEC(0, curr_c), VEC(0, unscaled_curr_c), VEC(0, curr_d), VEC(0, unscaled_curr_d), VEC(0, curr_d_minus_s),
      {"curr_jac_c", 0, [](CQ& c, IpoptData& d) { V r; appm(r, *c.curr_jac_c(), *d.curr()->y_c(), *d.curr()->x()); return r; }},
      {"curr_jac_d", 0, [](CQ& c, IpoptData& d) { V r; appm(r, *c.curr_jac_d(), *d.curr()->y_d(), *d.curr()->x()); return r; }},
      {"curr_exact_hessian", 0, [](CQ& c, IpoptData& d) { V r; appm(r, *c.curr_exact_hessian(), *d.curr()->x(), *d.curr()->x()); return r; }},
      {"curr_jac_cT_times_vec", 2, [](CQ& c, IpoptData& d) { V r; app(r, *c.curr_jac_cT_times_vec(*d.curr()->y_c())); return r; }},
      {"curr_jac_dT_times_vec", 2, [](CQ& c, IpoptData& d) { V r; app(r, *c.curr_jac_dT_times_vec(*d.curr()->y_d())); return r; }},
      {"curr_jac_c_times_vec", 2, [](CQ& c, IpoptData& d) { V r; app(r, *c.curr_jac_c_times_vec(*d.curr()->x())); return r; }},
      {"curr_jac_d_times_vec", 2, [](CQ& c, IpoptData& d) { V r; app(r, *c.curr_jac_d_times_vec(*d.curr()->x())); return r; }},
      VEC(2, curr_jac_cT_times_curr_y_c), VEC(2, curr_jac_dT_times_curr_y_d),
      VEC(1, curr_slack_x_L), VEC(1, curr_slack_x_U), VEC(1, curr_slack_s_L), VEC(1, curr_slack_s_U),
      NUM(3, curr_constraint_violation), NRM(3, curr_nlp_constraint_violation), NRM(3, unscaled_curr_nlp_constraint_violation),
      VEC(1, unscaled_curr_orig_x_L_violation), VEC(1, unscaled_curr_orig_x_U_violation), VEC(1, curr_orig_x_L_violation), VEC(1, curr_orig_x_U_violation), NRM(3, curr_orig_bounds_violation), NRM(3, unscaled_curr_orig_bounds_violation),
      VEC(2, curr_grad_lag_x), VEC(2, curr_grad_lag_s), VEC(2, curr_grad_lag_with_damping_x), VEC(2, curr_grad_lag_with_damping_s),
      VEC(1, curr_compl_x_L), VEC(1, curr_compl_x_U), VEC(1, curr_compl_s_L), VEC(1, curr_compl_s_U),
      VEC(1, curr_relaxed_compl_x_L), VEC(1, curr_relaxed_compl_x_U), VEC(1, curr_relaxed_compl_s_L), VEC(1, curr_relaxed_compl_s_U),
      NRM(3, curr_primal_infeasibility), NRM(3, curr_dual_infeasibility), NRM(3, unscaled_curr_dual_infeasibility), MU(3, curr_complementarity), MU(3, unscaled_curr_complementarity),
      NUM(3, curr_centrality_measure), NUM(3, curr_nlp_error), NUM(3, unscaled_curr_nlp_error), NUM(3, curr_barrier_error),
      {"curr_primal_dual_system_error", 3, [](CQ& c, IpoptData& d) { return V{c.curr_primal_dual_system_error(0.), c.curr_primal_dual_system_error(d.curr_mu()), c.curr_primal_dual_system_error(0.)}; }},
      VEC(1, curr_sigma_x), VEC(1, curr_sigma_s), NUM(3, curr_avrg_compl)};
   return q;
}
static const std::vector<Q>& stepQuantities()
{
   static const std::vector<Q> q = {
      {"curr_primal_frac_to_the_bound", 4, [](CQ& c, IpoptData&) { return V{c.curr_primal_frac_to_the_bound(0.99), c.curr_primal_frac_to_the_bound(0.5), c.curr_primal_frac_to_the_bound(0.99)}; }},
      {"curr_dual_frac_to_the_bound", 4, [](CQ& c, IpoptData&) { return V{c.curr_dual_frac_to_the_bound(0.99), c.curr_dual_frac_to_the_bound(0.5)}; }},
      {"slack_frac", 4, [](CQ& c, IpoptData& d) { return V{c.uncached_slack_frac_to_the_bound(0.9, *d.delta()->z_L(), *d.delta()->z_U(), *d.delta()->v_L(), *d.delta()->v_U())}; }},
      {"curr_gradBarrTDelta", 4, [](CQ& c, IpoptData&) { return V(1, c.curr_gradBarrTDelta()); }}};
   return q;
}
static const std::vector<Q>& trialQuantities()
{
   static const std::vector<Q> q = {
      NUM(5, trial_f), NUM(5, unscaled_trial_f), VEC(5, trial_grad_f), NUM(5, trial_barrier_obj), VEC(5, trial_c), VEC(5, unscaled_trial_c), VEC(5, trial_d), VEC(5, trial_d_minus_s),
      {"trial_jac_c", 5, [](CQ& c, IpoptData& d) { V r; appm(r, *c.trial_jac_c(), *d.trial()->y_c(), *d.trial()->x()); return r; }},
      {"trial_jac_d", 5, [](CQ& c, IpoptData& d) { V r; appm(r, *c.trial_jac_d(), *d.trial()->y_d(), *d.trial()->x()); return r; }},
      {"trial_jac_cT_times_vec", 5, [](CQ& c, IpoptData& d) { V r; app(r, *c.trial_jac_cT_times_vec(*d.trial()->y_c())); return r; }},
      {"trial_jac_dT_times_vec", 5, [](CQ& c, IpoptData& d) { V r; app(r, *c.trial_jac_dT_times_vec(*d.trial()->y_d())); return r; }},
      VEC(5, trial_jac_cT_times_trial_y_c), VEC(5, trial_jac_dT_times_trial_y_d), VEC(5, trial_slack_x_L), VEC(5, trial_slack_x_U), VEC(5, trial_slack_s_L), VEC(5, trial_slack_s_U),
      NUM(5, trial_constraint_violation), NRM(5, unscaled_trial_nlp_constraint_violation), VEC(5, trial_grad_lag_x), VEC(5, trial_grad_lag_s),
      VEC(5, trial_compl_x_L), VEC(5, trial_compl_x_U), VEC(5, trial_compl_s_L), VEC(5, trial_compl_s_U), NRM(5, trial_primal_infeasibility), NRM(5, trial_dual_infeasibility), MU(5, trial_complementarity),
      {"trial_primal_dual_system_error", 5, [](CQ& c, IpoptData& d) { return V{c.trial_primal_dual_system_error(0.), c.trial_primal_dual_system_error(d.curr_mu())}; }},
      NUM(5, trial_avrg_compl)};
   return q;
}
static bool eq(const V& a, const V& b)
{
   if( a.size() != b.size() ) return false;
   for( size_t i = 0; i < a.size(); ++i )
      if( !(a[i] == b[i] || (std::isnan(a[i]) && std::isnan(b[i])) || std::fabs(a[i] - b[i]) <= 1e-11 * std::max(1., std::fabs(b[i]))) ) return false;
   return true;
}
static std::string vs(const V& v) { std::string s = "("; for( double d : v ) s += fmt(" %.15g", d); return s + " )"; }

/** data and quantities that never saw anything before */
struct Fresh
{
   SmartPtr<IpoptData> d;
   SmartPtr<CQ> c;
   Fresh(const SmartPtr<IpoptNLP>& nlp, const Journalist& j, const OptionsList& o, const std::string& pre, const IpoptData& from)
   {
      d = new IpoptData();
      d->Initialize(j, o, pre);
      d->Set_mu(from.curr_mu());
      if( from.TauInitialized() ) d->Set_tau(from.curr_tau());
      // the slack computation looks at the current multipliers, so these have to be in place as well
      SmartPtr<IteratesVector> v = from.curr()->MakeNewIteratesVectorCopy();
      d->set_trial(v);
      d->CopyTrialToCurrent();
      if( IsValid(from.trial()) ) { v = from.trial()->MakeNewIteratesVectorCopy(); d->set_trial(v); }
      if( IsValid(from.delta()) ) { v = from.delta()->MakeNewIteratesVectorCopy(); d->set_delta(v); }
      c = new CQ(nlp, d);
      c->Initialize(j, o, pre);
   }
};
static std::string compare(const std::vector<Q>& qs, unsigned mask, CQ& c, IpoptData& d, Fresh& f)
{
   for( auto& q : qs )
      if( (mask >> q.group & 1) && !(g_noHess && !strcmp(q.name, "curr_exact_hessian")) )
      {
         V a = q.f(c, d), b = q.f(*f.c, *f.d);
         if( !eq(a, b) ) return std::string(q.name) + " is " + vs(a) + ", computed anew " + vs(b);
      }
   return "";
}

// ---- during real solves
static const char* OPTS[][4] = {
   {0}, {"mu_strategy", "adaptive"}, {"mu_strategy", "adaptive", "mu_oracle", "probing"}, {"mu_strategy", "adaptive", "adaptive_mu_globalization", "never-monotone-mode"}, {"fast_step_computation", "yes"}, {"mehrotra_algorithm", "yes"},
   {"hessian_approximation", "limited-memory"}, {"start_with_resto", "yes"}, {"watchdog_shortened_iter_trigger", "1"}, {"max_soc", "0"}, {"nlp_scaling_method", "none"}, {"corrector_type", "affine"},
   {"fixed_variable_treatment", "relax_bounds"}, {"line_search_method", "penalty"}, {"recalc_y", "yes", "recalc_y_feas_tol", "1e3"}, {"accept_every_trial_step", "yes"}, {"bound_push", "1e-12", "bound_frac", "1e-12"}, {"slack_move", "0"}, {"alpha_for_y", "full"}, {"kappa_d", "0"}
};
static const int NO = (int) (sizeof(OPTS) / sizeof(OPTS[0]));

static void solveMode(mc::Explorer& ex)
{
   sp::Problem p;
   std::string what;
   int nonly = ex.choose(2);
   if( nonly == 0 )
   {
      fam::Shape s = fam::chooseShape(ex, 2, 2, 1, 2, {2, 1, 0, 3});
      if( !ex.thorough && s.m == 2 && s.c[1] != fam::K_EQ && s.c[1] != fam::K_RNG ) throw mc::Skip();
      p = fam::make(s);
      what = fam::shapeStr(s);
   }
   else
   {
      int k = ex.choose(8);
      p = fam::special(k);
      what = fmt("special %d", k);
   }
   int o = nonly == 0 && !ex.thorough ? ex.deviate(NO) : ex.choose(NO);
   ex.shardPoint();
   Solve S(p);
   for( int i = 0; i < 4 && OPTS[o][i]; i += 2 ) { S.opt(OPTS[o][i], OPTS[o][i + 1]); what += std::string(" ") + OPTS[o][i] + "=" + OPTS[o][i + 1]; }
   S.opt("max_iter", "25");
   ex.desc = what;
   g_noHess = S.has("hessian_approximation");
   std::string bad;
   mc::Hash h;
   S.t->checkNewX = false;
   S.t->onIter = [&](tn::Spec&, const tn::Iter& it, const IpoptData* dc, CQ* c) {
      IpoptData* d = const_cast<IpoptData*>(dc);
      if( !bad.empty() ) return true;
      Fresh f(c->GetIpoptNLP(), *S.run.app->Jnlst(), *S.run.app->Options(), it.mode ? "resto." : "", *d);
      unsigned mask = 15;
      std::string e = compare(quantities(), mask, *c, *d, f);
      if( e.empty() && d->HaveDeltas() && IsValid(d->delta()) ) e = compare(stepQuantities(), 16, *c, *d, f);
      if( !e.empty() ) bad = fmt("iteration %d mode %d: ", it.iter, it.mode) + e;
      h.i(it.mode); h.dr(it.obj, 1e-6);
      ex.count("transitions");
      return true;
   };
   S.go();
   if( !bad.empty() ) ex.fail("stale-quantity", what + ": " + bad + "; " + p.str());
   h.i(S.st);
   ex.outcome(h.h);
}

// ---- every history of changes and queries
static void histMode(mc::Explorer& ex)
{
   g_noHess = false;
   int pk = ex.choose(ex.thorough ? 4 : 2), scal = ex.thorough ? ex.choose(2) : 0;
   fam::Shape s = pk == 0 ? fam::Shape{1, 2, 2, {fam::B_LU, fam::B_L}, {fam::K_EQ, fam::K_RNG}} : pk == 1 ? fam::Shape{2, 2, 2, {fam::B_U, fam::B_FREE}, {fam::K_GE, fam::K_EQ}} : pk == 2 ? fam::Shape{2, 3, 1, {fam::B_LU, fam::B_FIX, fam::B_L}, {fam::K_LE}} : fam::Shape{0, 2, 0, {fam::B_LU, fam::B_U}, {}};
   sp::Problem p = fam::make(s);
   int mode = pk < 1 || ex.thorough ? ex.choose(2) : 0;
   (void) mode;
   std::string hist = fam::shapeStr(s);
   Solve S(p);
   S.opt("max_iter", "2");
   if( scal ) S.opt("nlp_scaling_max_gradient", "0.1");
   SmartPtr<IpoptNLP> nlp;
   std::vector<SmartPtr<IteratesVector>> its;
   double mu = 0;
   S.t->checkNewX = false;
   S.t->onIter = [&](tn::Spec&, const tn::Iter&, const IpoptData* d, CQ* c) { nlp = c->GetIpoptNLP(); its.push_back(d->curr()->MakeNewIteratesVectorCopy()); mu = d->curr_mu(); return true; };
   S.go();
   if( its.size() < 3 ) throw mc::Prune();
   const Journalist& j = *S.run.app->Jnlst();
   const OptionsList& o = *S.run.app->Options();
   SmartPtr<IpoptData> d = new IpoptData();
   d->Initialize(j, o, "");
   d->Set_mu(mu);
   d->Set_tau(0.99);
   SmartPtr<IteratesVector> v = its[1]->MakeNewIteratesVectorCopy();
   SmartPtr<const IteratesVector> kept = ConstPtr(v);
   d->set_trial(v);
   d->CopyTrialToCurrent();
   v = its[2]->MakeNewIteratesVectorCopy();
   v->AddOneVector(-1., *its[0], 1.);
   d->set_delta(v);
   v = its[2]->MakeNewIteratesVectorCopy();
   d->set_trial(v);
   SmartPtr<CQ> c = new CQ(nlp, d);
   c->Initialize(j, o, "");
   static const char* ON[] = {"trial x changes", "trial s changes", "trial y changes", "trial bound multipliers change", "accept trial point", "mu changes", "mu back", "step changes", "return to the first iterate", "trial is the current iterate", "trial z_L, v_U change"};
   const unsigned MASKS[] = {63, 0, 1 | 4, 2 | 8, 32, 16 | 8};
   int nm = mode ? 6 : 2;
   int depth = mode ? (ex.thorough ? 3 : 2) : (ex.thorough ? 4 : 3);
   for( int step = 0; step < depth; ++step )
   {
      unsigned mask = MASKS[ex.choose(nm)];
      if( step == depth ) mask = 63;
      if( mask )
      {
         hist += fmt("; query %x", mask);
         for( auto* qs : {&quantities(), &stepQuantities(), &trialQuantities()} ) for( auto& q : *qs ) if( mask >> q.group & 1 ) q.f(*c, *d);
      }
      int op = ex.choose(12);
      if( op == 11 ) break;
      hist += std::string("; ") + ON[op];
      SmartPtr<IteratesVector> t = d->trial()->MakeNewContainer();
      auto mod = [](const Vector& x, double f) { SmartPtr<Vector> y = x.MakeNewCopy(); y->Scal(f); return y; };
      switch( op )
      {
         case 0: t->Set_x_NonConst(*mod(*d->trial()->x(), 0.97)); d->set_trial(t); break;
         case 1: t->Set_s_NonConst(*mod(*d->trial()->s(), 0.99)); d->set_trial(t); break;
         case 2: t->Set_y_c_NonConst(*mod(*d->trial()->y_c(), 1.5)); t->Set_y_d_NonConst(*mod(*d->trial()->y_d(), 0.5)); d->set_trial(t); break;
         case 3: t->Set_bound_mult_NonConst(*mod(*d->trial()->z_L(), 1.5), *mod(*d->trial()->z_U(), 2.), *mod(*d->trial()->v_L(), 0.7), *mod(*d->trial()->v_U(), 3.)); d->set_trial(t); break;
         case 10: t->Set_z_L_NonConst(*mod(*d->trial()->z_L(), 1.2)); t->Set_v_U_NonConst(*mod(*d->trial()->v_U(), 0.3)); d->set_trial(t); break;
         case 4: { SmartPtr<const IteratesVector> keep = d->trial(); d->AcceptTrialPoint(); t = keep->MakeNewContainer(); d->set_trial(t); break; }
         case 5: d->Set_mu(0.25 * mu); break;
         case 6: d->Set_mu(mu); break;
         case 7: { SmartPtr<IteratesVector> w = d->delta()->MakeNewIteratesVectorCopy(); w->Scal(-0.5); d->set_delta(w); break; }
         case 8: t = kept->MakeNewContainer(); d->set_trial(t); d->AcceptTrialPoint(); t = kept->MakeNewContainer(); d->set_trial(t); break;
         case 9: t = d->curr()->MakeNewContainer(); d->set_trial(t); break;
      }
      if( step == 0 ) ex.shardPoint();
      ex.count("transitions");
   }
   Fresh f(nlp, j, o, "", *d);
   int order = ex.choose(2);
   std::string e;
   if( order ) for( auto* qs : {&trialQuantities(), &stepQuantities(), &quantities()} ) { if( e.empty() ) e = compare(*qs, 63, *c, *d, f); }
   else for( auto* qs : {&quantities(), &stepQuantities(), &trialQuantities()} ) { if( e.empty() ) e = compare(*qs, 63, *c, *d, f); }
   if( !e.empty() ) ex.fail("stale-quantity", hist + ": " + e);
   mc::Hash h;
   h.i(pk * 10 + scal);
   h.dr(c->curr_nlp_error(), 1e-9); h.dr(c->trial_barrier_obj(), 1e-9); h.dr(c->curr_gradBarrTDelta(), 1e-9); h.dr(c->trial_primal_dual_system_error(d->curr_mu()), 1e-9); h.dr(c->curr_barrier_error(), 1e-9); h.dr(d->curr_mu(), 1e-9);
   ex.outcome(h.h);
}
int main(int argc, char** argv)
{
   mc::Explorer ex;
   return ex.main(argc, argv, [](mc::Explorer& e) { if( e.mode == "solve" ) solveMode(e); else histMode(e); });
}
