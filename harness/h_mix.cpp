// C27: any mix of options finishes with a documented status, without depending on uninitialized memory, and with genuine success;
// options about output only and options of components that are not used change nothing
#include "alloc.hpp"
#include "solvelib.hpp"
#include "IpRegOptions.hpp"
#include <map>
#include <memory>

struct Val { std::string name, value, cat; bool output = false, unused = false, str = false, extreme = false; };

static bool in(const std::string& s, std::initializer_list<const char*> l) { for( auto c : l ) if( s == c ) return true; return false; }

static std::vector<Val> makeVals()
{
   std::vector<Val> o;
   SmartPtr<IpoptApplication> app = new IpoptApplication(false);
   for( auto& kv : app->RegOptions()->RegisteredOptionsList() )
   {
      const RegisteredOption& r = *kv.second;
      std::string n = r.Name(), cat = r.RegisteringCategory().Name();
      Val v;
      v.name = n;
      v.cat = cat;
      v.output = (cat == "Output" && !in(n, {"inf_pr_output"})) || in(n, {"timing_statistics", "sb", "suppress_all_output", "print_timing_statistics"});
      v.unused = n.compare(0, 4, "ma27") == 0 || n.compare(0, 4, "ma57") == 0 || n.compare(0, 4, "ma77") == 0 || n.compare(0, 4, "ma86") == 0 || n.compare(0, 4, "ma97") == 0 || n.compare(0, 7, "pardiso") == 0 || n.compare(0, 4, "wsmp") == 0 || n == "hsllib";
      // the problems' derivatives are not constant; no files
      if( in(n, {"hessian_constant", "grad_f_constant", "jac_c_constant", "jac_d_constant", "linear_solver", "option_file_name", "output_file", "skip_finalize_solution_call", "file_append"}) ) continue;
      auto add = [&](const std::string& s, bool extreme) { for( auto& w : o ) if( w.name == n && w.value == s ) return; Val w = v; w.value = s; w.extreme = extreme; o.push_back(w); };
      if( r.Type() == OT_String )
      {
         v.str = true;
         for( auto& s : r.GetValidStrings() ) if( s.value_ != r.DefaultString() ) add(s.value_ == "*" ? "nosuchlibrary" : s.value_, false);
      }
      else if( r.Type() == OT_Integer )
      {
         int d = r.DefaultInteger();
         auto ok = [&](long long x) { return (!r.HasLower() || x >= r.LowerInteger()) && (!r.HasUpper() || x <= r.UpperInteger()) && x != d && x <= (n == "max_soc" ? 100 : 1000000); };
         for( long long x : {(long long) d - 1, (long long) d + 1, (long long) (d ? d * 5 : 5)} ) if( ok(x) ) add(fmt("%lld", x), false);
         for( long long x : {(long long) (r.HasLower() ? r.LowerInteger() : -5), (long long) (r.HasUpper() ? r.UpperInteger() : 1000000)} ) if( ok(x) ) add(fmt("%lld", x), true);
      }
      else
      {
         double d = r.DefaultNumber();
         auto ok = [&](double x) { return (!r.HasLower() || (r.LowerStrict() ? x > r.LowerNumber() : x >= r.LowerNumber())) && (!r.HasUpper() || (r.UpperStrict() ? x < r.UpperNumber() : x <= r.UpperNumber())) && x != d; };
         if( n == "nlp_lower_bound_inf" || n == "nlp_upper_bound_inf" ) { add(n == "nlp_lower_bound_inf" ? "-1e15" : "1e15", false); continue; }
         for( double x : {d * 0.1, d * 10, d == 0 ? 1e-4 : d * 0.5, d == 0 ? 1. : d} ) if( ok(x) ) add(fmt("%.15g", x), false);
         double lo = r.HasLower() ? (r.LowerStrict() ? r.LowerNumber() + 1e-20 : r.LowerNumber()) : -1e3, hi = r.HasUpper() ? (r.UpperStrict() ? r.UpperNumber() - 1e-3 : r.UpperNumber()) : 1e10;
         for( double x : {lo, hi} ) if( ok(x) ) add(fmt("%.17g", x), true);
      }
   }
   // printing of everything
   Val v;
   v.name = "output_file";
   v.value = "/dev/null";
   v.output = v.str = true;
   o.push_back(v);
   return o;
}

static const int NPROB = 5;
static sp::Problem prob(int k)
{
   if( k == 0 ) { fam::Shape s; s.family = 1; s.n = 2; s.m = 2; int bb[] = {fam::B_LU, fam::B_L}; int cc[] = {fam::K_GE, fam::K_EQ}; std::copy(bb, bb + s.n, s.b); std::copy(cc, cc + s.m, s.c); return fam::make(s); }
   if( k == 1 ) return fam::special(2);
   if( k == 2 ) { fam::Shape s; s.family = 2; s.n = 3; s.m = 2; int bb[] = {fam::B_FREE, fam::B_FIX, fam::B_U}; int cc[] = {fam::K_RNG, fam::K_LE}; std::copy(bb, bb + s.n, s.b); std::copy(cc, cc + s.m, s.c); return fam::make(s); }
   if( k == 3 ) return fam::special(5);
   return fam::special(0);
}

struct Rec { int st = -1000; V data; std::string err; long evals = 0; bool initOk = true; };

static Rec record(mc::Explorer& ex, int k, const std::vector<Val>& use, bool mumps, int fill, Solve** keep = nullptr)
{
   Rec o;
   al::fill() = fill;
   std::unique_ptr<Solve> S(new Solve(prob(k)));
   S->run.mumps = mumps;
   S->opt("max_iter", "150");
   bool full = false;
   for( auto& v : use ) { S->opt(v.name, v.value); full |= v.name == "output_file"; }
   if( full ) S->opt("file_print_level", "12");
   V evals;
   S->t->onEval = [&](int cb, const double* x, bool nx)
   {
      ++o.evals;
      evals.push_back(cb * 2 + nx);
      if( evals.size() < 20000 ) evals.insert(evals.end(), x, x + S->p.n);
      if( o.evals > 300000 ) ex.fail("endless", "more than 300000 evaluations");
   };
   o.st = S->go();
   o.initOk = S->initOk;
   const tn::Result& r = S->t->res;
   o.data.push_back(r.finals);
   o.data.push_back(r.status);
   for( const V* w : {&r.x, &r.zl, &r.zu, &r.g, &r.lam} ) { o.data.push_back((double) w->size()); o.data.insert(o.data.end(), w->begin(), w->end()); }
   o.data.push_back(r.f);
   for( auto& it : S->t->iters ) for( double d : {(double) it.mode, (double) it.iter, it.obj, it.inf_pr, it.inf_du, it.mu, it.dnorm, it.reg, it.adu, it.apr, (double) it.ls} ) o.data.push_back(d);
   o.data.push_back(-4711);
   o.data.insert(o.data.end(), evals.begin(), evals.end());
   for( double& d : o.data ) if( std::isnan(d) ) d = -7.77e77;
   o.err = S->t->err;
   S->t->onEval = nullptr;
   if( keep ) *keep = S.release();
   else S.reset();
   al::fill() = -1;
   return o;
}
static std::string diff(const Rec& a, const Rec& b)
{
   if( a.st != b.st ) return fmt("status %d / %d", a.st, b.st);
   if( a.data.size() != b.data.size() ) return fmt("%zu / %zu numbers", a.data.size(), b.data.size());
   for( size_t i = 0; i < a.data.size(); ++i ) if( memcmp(&a.data[i], &b.data[i], sizeof(double)) ) return fmt("number %zu: %.17g / %.17g", i, a.data[i], b.data[i]);
   return "";
}

static bool documented(int st)
{
   switch( st )
   {
      case Solve_Succeeded: case Solved_To_Acceptable_Level: case Infeasible_Problem_Detected: case Search_Direction_Becomes_Too_Small: case Diverging_Iterates: case Feasible_Point_Found:
      case Maximum_Iterations_Exceeded: case Restoration_Failed: case Error_In_Step_Computation: case Maximum_CpuTime_Exceeded: case Maximum_WallTime_Exceeded: case Not_Enough_Degrees_Of_Freedom: return true;
   }
   return false;
}

static void body(mc::Explorer& ex)
{
   static const std::vector<Val> all = makeVals();
   static std::vector<Val> moderate, strings;
   if( moderate.empty() ) for( auto& v : all ) { if( !v.extreme && !v.unused ) moderate.push_back(v); if( v.str && !v.unused && !v.output ) strings.push_back(v); }
   bool mumps = ex.mode == "mumps";
   std::vector<Val> use;
   int k = 0;
   if( ex.mode == "list" ) { printf("%zu values, %zu moderate, %zu strings\n", all.size(), moderate.size(), strings.size()); throw mc::Skip(); }
   if( ex.mode == "triples" )
   {
      k = ex.choose(ex.thorough ? 2 : 1);
      size_t a = ex.choose((int) strings.size());
      ex.shardPoint();
      size_t b = a + 1 + ex.choose((int) (strings.size() - a));
      if( b >= strings.size() ) throw mc::Skip();
      size_t c = b + 1 + ex.choose((int) (strings.size() - b));
      if( c >= strings.size() ) throw mc::Skip();
      use = {strings[a], strings[b], strings[c]};
   }
   else if( ex.mode == "pairs" )
   {
      k = ex.choose(ex.thorough ? NPROB : 1);
      size_t a = ex.choose((int) moderate.size());
      ex.shardPoint();
      size_t b = a + 1 + ex.choose((int) (moderate.size() - a));
      if( b >= moderate.size() ) throw mc::Skip();
      use = {moderate[a], moderate[b]};
      // without time for all pairs: those with a choice of an algorithm
      if( !ex.thorough && !(use[0].str && !use[0].output) && !(use[1].str && !use[1].output) ) throw mc::Skip();
   }
   else
   {
      k = ex.mode == "asan" && !ex.thorough ? 0 : ex.choose(NPROB);
      size_t a = ex.choose((int) all.size());
      ex.shardPoint();
      use = {all[a]};
   }
   for( size_t i = 0; i < use.size(); ++i ) for( size_t j = i + 1; j < use.size(); ++j ) if( use[i].name == use[j].name ) throw mc::Skip();
   std::string what;
   for( auto& v : use ) what += " " + v.name + "=" + v.value;
   auto set = [&](const char* n) -> const Val* { for( auto& v : use ) if( v.name == n ) return &v; return nullptr; };
   ex.desc = fmt("problem %d:", k) + what;
   if( getenv("SHOW") ) { if( getenv("RUN") ) printf("RUN %s\n", ex.desc.c_str()); fflush(stdout); }
   Solve* S = nullptr;
   Rec r = record(ex, k, use, mumps, 0x00, &S);
   std::unique_ptr<Solve> hold(S);
   if( !r.initOk ) ex.fail("refused", "option refused:" + what);
   if( !r.err.empty() ) ex.fail("protocol", r.err + what);
   mc::Hash h;
   h.i(k);
   h.i(r.st);
   for( double d : r.data ) h.d(d);
   ex.outcome(h.h);
   ex.count(fmt("status %d", r.st));
   if( getenv("SHOW") && !documented(r.st) ) printf("ST %d%s\n", r.st, what.c_str());
   // combinations the options themselves exclude
   auto num = [&](const char* n, double d) { const Val* v = set(n); return v ? atof(v->value.c_str()) : d; };
   auto is = [&](const char* n, const char* val) { const Val* v = set(n); return v && v->value == val; };
   bool cg = is("line_search_method", "cg-penalty");
   bool refused = is("alpha_for_y", "acceptor") || is("nlp_scaling_method", "equilibration-based") || is("nlp_scaling_method", "user-scaling") || is("linear_system_scaling", "mc19")
      || num("max_refinement_steps", 10) < num("min_refinement_steps", 1) || num("residual_ratio_singular", 1e-5) < num("residual_ratio_max", 1e-10) || num("theta_max_fact", 1e4) <= num("theta_min_fact", 1e-4);
   refused |= num("mumps_pivtolmax", 0.1) < num("mumps_pivtol", 1e-6);
   refused |= num("num_linear_variables", 0) > S->p.n && is("hessian_approximation", "limited-memory");
   if( is("line_search_method", "penalty") && num("watchdog_shortened_iter_trigger", 10) > 0 ) refused = true;      // only noticed when a watchdog is started
   if( is("mehrotra_algorithm", "yes") )
      for( const char* n : {"adaptive_mu_globalization", "corrector_type", "mu_oracle", "alpha_for_y", "accept_every_trial_step", "bound_push", "bound_frac", "slack_bound_push", "slack_bound_frac", "bound_mult_init_val", "constr_mult_init_max", "least_square_init_primal", "line_search_method", "mu_strategy"} ) if( set(n) ) refused = true;
   bool ranges = false;
   for( int j = 0; j < S->p.m; ++j ) ranges |= S->p.gl[j] > -1e19 && S->p.gu[j] < 1e19 && S->p.gl[j] < S->p.gu[j];
   bool unsolvable = (is("replace_bounds", "yes") && ranges) || is("warm_start_same_structure", "yes") || (is("start_with_resto", "yes") && cg);
   if( r.st == Invalid_Option && refused ) { ex.count("refused combination"); return; }
   if( r.st == Unrecoverable_Exception && unsolvable ) { ex.count("refused combination"); return; }
   if( !documented(r.st) ) ex.fail("status", fmt("status %d with", r.st) + what);
   // memory contents
   Rec q = record(ex, k, use, mumps, 0xFF);
   std::string d = diff(r, q);
   if( !d.empty() ) ex.fail("uninitialized", "result depends on the contents of fresh memory: " + d + "; " + what);
   // options without influence
   static std::map<std::string, Rec> base;
   std::vector<Val> rest;
   std::string key = fmt("%d", k);
   bool drop = false;
   for( auto& v : use ) { if( v.output || v.unused ) drop = true; else { rest.push_back(v); key += " " + v.name + "=" + v.value; } }
   if( drop )
   {
      if( !base.count(key) ) { if( base.size() > 2000 ) base.clear(); base[key] = record(ex, k, rest, mumps, 0x00); }
      Rec a = r, b = base[key];
      if( set("output_file") )
         for( Rec* w : {&a, &b} ) { size_t i = w->data.size(); while( i && w->data[i - 1] != -4711 ) --i; w->data.resize(i); }     // printed quantities may be evaluated earlier
      d = diff(a, b);
      if( !d.empty() ) ex.fail("output-only", "an option about output (or of an unused component) changes the solve: " + d + "; " + what);
   }
   // success
   bool tolset = false;
   for( const char* n : {"tol", "constr_viol_tol", "dual_inf_tol", "compl_inf_tol", "acceptable_tol", "acceptable_constr_viol_tol", "acceptable_dual_inf_tol", "acceptable_compl_inf_tol", "acceptable_iter", "mu_target", "s_max", "obj_scaling_factor", "nlp_scaling_obj_target_gradient",
                         "nlp_scaling_constr_target_gradient", "nlp_scaling_max_gradient", "nlp_scaling_min_value", "bound_relax_factor", "findiff_perturbation", "gradient_approximation", "jacobian_approximation", "replace_bounds", "kappa_sigma", "mumps_dep_tol", "nlp_scaling_method", "fixed_variable_treatment"} ) tolset |= set(n) != nullptr;
   if( S->ok() && !tolset ) { requireKkt(ex, *S, 1, "kkt"); ex.count("genuine successes"); }
   else if( S->ok() && !set("constr_viol_tol") && !set("acceptable_constr_viol_tol") && !set("replace_bounds") && !set("mumps_dep_tol") )
   {
      double v = violation(S->p, S->r().x);
      double brf = 1e-8;
      if( set("bound_relax_factor") ) brf = atof(set("bound_relax_factor")->value.c_str());
      if( !(v <= std::max(1e-4, brf * 3) * 3 + 1e-2 * (S->st == Solved_To_Acceptable_Level)) ) ex.fail("infeasible-success", fmt("violation %g with", v) + what);
   }
}

int main(int argc, char** argv)
{
   setvbuf(stdout, nullptr, _IOLBF, 4096);
   mc::Explorer ex;
   return ex.main(argc, argv, body);
}
