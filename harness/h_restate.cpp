// C07: restating a problem without changing its meaning changes nothing
#include "solvelib.hpp"
#include <cfloat>
#include <memory>

struct R { std::string what; bool exact = false; bool fixedTreat = false; std::function<void(Solve&)> apply; std::vector<int> pv, pc; };

static sp::Problem permute(const sp::Problem& p, const std::vector<int>& pv, const std::vector<int>& pc)
{
   sp::Problem q = p;
   auto mf = [&](sp::Func& f) { for( auto& t : f.t ) { t.i = pv[t.i]; if( t.k == sp::PROD ) t.j = pv[t.j]; } };
   mf(q.f);
   for( int i = 0; i < p.n; ++i ) { q.xl[pv[i]] = p.xl[i]; q.xu[pv[i]] = p.xu[i]; q.x0[pv[i]] = p.x0[i]; }
   for( int j = 0; j < p.m; ++j ) { q.g[pc[j]] = p.g[j]; mf(q.g[pc[j]]); q.gl[pc[j]] = p.gl[j]; q.gu[pc[j]] = p.gu[j]; }
   return q;
}
static std::vector<std::vector<int>> perms(int n)
{
   std::vector<int> a(n);
   for( int i = 0; i < n; ++i ) a[i] = i;
   std::vector<std::vector<int>> r;
   do r.push_back(a); while( std::next_permutation(a.begin(), a.end()) );
   return r;
}
static void splitEntries(std::vector<tn::Ent>& v, const std::vector<double>& parts, bool apart)
{
   std::vector<tn::Ent> o;
   if( apart ) for( double w : parts ) for( auto& e : v ) o.push_back({e.r, e.c, e.w * w});
   else for( auto& e : v ) for( double w : parts ) o.push_back({e.r, e.c, e.w * w});
   v = o;
}
static void addZeros(std::vector<tn::Ent>& v, int rows, int cols, bool lower, bool front)
{
   std::set<std::pair<int, int>> have;
   for( auto& e : v ) have.insert({e.r, e.c});
   std::vector<tn::Ent> z;
   for( int r = 0; r < rows; ++r ) for( int c = 0; c < cols; ++c ) if( (!lower || c <= r) && !have.count({r, c}) ) z.push_back({r, c, 0.});
   if( front ) v.insert(v.begin(), z.begin(), z.end());
   else v.insert(v.end(), z.begin(), z.end());
}

static std::vector<R> restatements(const sp::Problem& p, bool thorough)
{
   std::vector<R> o;
   auto add = [&](const std::string& w, bool exact, std::function<void(Solve&)> f) -> R& { R r; r.what = w; r.exact = exact; r.apply = f; o.push_back(r); return o.back(); };
   add("fortran", true, [](Solve& s) { s.t->pr.fortran = true; });
   for( double h : {1e19, 1e20, 1e25, 1e300, DBL_MAX, (double) INFINITY} ) add(fmt("inf=%g", h), true, [h](Solve& s) { s.t->pr.huge = h; });
   for( int f : {1, 2, 3, 4} ) add(fmt("format%d", f), false, [f](Solve& s) { s.hook.format = f; });
   add("jac-rev", false, [](Solve& s) { std::reverse(s.t->pr.jac.begin(), s.t->pr.jac.end()); });
   add("hess-rev", false, [](Solve& s) { std::reverse(s.t->pr.hess.begin(), s.t->pr.hess.end()); });
   add("hess-upper", false, [](Solve& s) { for( auto& e : s.t->pr.hess ) std::swap(e.r, e.c); });
   add("jac-bycol", false, [](Solve& s) { std::stable_sort(s.t->pr.jac.begin(), s.t->pr.jac.end(), [](const tn::Ent& a, const tn::Ent& b) { return a.c < b.c; }); });
   add("jac-rot", false, [](Solve& s) { auto& v = s.t->pr.jac; if( v.size() > 1 ) std::rotate(v.begin(), v.begin() + 1, v.end()); });
   add("jac-zeros", false, [](Solve& s) { addZeros(s.t->pr.jac, s.p.m, s.p.n, false, false); });
   add("jac-zeros-front", false, [](Solve& s) { addZeros(s.t->pr.jac, s.p.m, s.p.n, false, true); });
   add("hess-zeros", false, [](Solve& s) { addZeros(s.t->pr.hess, s.p.n, s.p.n, true, false); });
   add("hess-zeros-front", false, [](Solve& s) { addZeros(s.t->pr.hess, s.p.n, s.p.n, true, true); });
   add("jac-split", false, [](Solve& s) { splitEntries(s.t->pr.jac, {0.25, 0.75}, false); });
   add("jac-split-apart", false, [](Solve& s) { splitEntries(s.t->pr.jac, {-1, 2}, true); });
   add("jac-split3", false, [](Solve& s) { splitEntries(s.t->pr.jac, {0.5, 0, 0.5}, true); });
   add("hess-split", false, [](Solve& s) { splitEntries(s.t->pr.hess, {0.25, 0.75}, false); });
   add("hess-split-apart", false, [](Solve& s) { splitEntries(s.t->pr.hess, {3, -2}, true); });
   add("hess-split-mixed", false, [](Solve& s) { auto& v = s.t->pr.hess; splitEntries(v, {0.5, 0.5}, true); for( size_t k = v.size() / 2; k < v.size(); ++k ) std::swap(v[k].r, v[k].c); });
   // one entry only: duplicated, moved to the end, flipped
   tn::Spec probe(p);
   int nj = (int) probe.pr.jac.size(), nh = (int) probe.pr.hess.size();
   for( int k = 0; k < nj; ++k ) add(fmt("jac-dup%d", k), false, [k](Solve& s) { auto& v = s.t->pr.jac; v[k].w = 0.5; tn::Ent e = v[k]; v.push_back(e); });
   for( int k = 0; k < nh; ++k )
   {
      add(fmt("hess-dup%d", k), false, [k](Solve& s) { auto& v = s.t->pr.hess; v[k].w = 0.5; tn::Ent e = v[k]; std::swap(e.r, e.c); v.insert(v.begin(), e); });
      add(fmt("hess-flip%d", k), false, [k](Solve& s) { auto& v = s.t->pr.hess; std::swap(v[k].r, v[k].c); });
   }
   if( thorough && nj >= 2 && nj <= 4 ) for( auto& q : perms(nj) ) add("jac-perm", false, [q](Solve& s) { auto v = s.t->pr.jac; for( size_t i = 0; i < q.size(); ++i ) s.t->pr.jac[i] = v[q[i]]; });
   if( thorough && nh >= 2 && nh <= 4 ) for( auto& q : perms(nh) ) add("hess-perm", false, [q](Solve& s) { auto v = s.t->pr.hess; for( size_t i = 0; i < q.size(); ++i ) s.t->pr.hess[i] = v[q[i]]; });
   std::vector<int> id, idc;
   for( int i = 0; i < p.n; ++i ) id.push_back(i);
   for( int j = 0; j < p.m; ++j ) idc.push_back(j);
   auto pvs = perms(p.n), pcs = perms(p.m);
   for( size_t k = 1; k < pvs.size(); ++k ) { R& r = add(fmt("varperm%zu", k), false, [](Solve&) {}); r.pv = pvs[k]; r.pc = idc; }
   for( size_t k = 1; k < pcs.size(); ++k ) { R& r = add(fmt("conperm%zu", k), false, [](Solve&) {}); r.pv = id; r.pc = pcs[k]; }
   bool fx = false;
   for( int i = 0; i < p.n; ++i ) fx |= p.xl[i] == p.xu[i];
   if( fx ) for( const char* t : {"make_parameter_nodual", "make_constraint", "relax_bounds"} ) { std::string tt = t; R& r = add(tt, false, [tt](Solve& s) { s.opt("fixed_variable_treatment", tt); }); r.fixedTreat = true; }
   return o;
}

static void body(mc::Explorer& ex)
{
   sp::Problem p;
   std::string what;
   bool special = ex.mode == "special";
   if( special )
   {
      int k = ex.choose(fam::NSPECIAL);
      p = fam::special(k);
      int fx = ex.choose(p.n + 1);
      if( fx ) { int i = fx - 1; p.xl[i] = p.xu[i] = std::fabs(p.x0[i]) < 1e-9 ? 0.5 : std::max(0.02, p.x0[i]); }
      what = fmt("special%d fix %d", k, fx - 1);
   }
   else
   {
      fam::Shape s = ex.thorough ? fam::chooseShape(ex, 1, 3, 0, 2, {1, 3}) : fam::chooseShape(ex, 1, 2, 0, 2, {1});
      p = fam::make(s);
      what = fam::shapeStr(s);
   }
   ex.shardPoint();
   std::vector<R> rs = restatements(p, ex.thorough);
   static const tn::Opts cfg[] = {{}, {{"mu_strategy", "adaptive"}}, {{"hessian_approximation", "limited-memory"}}, {{"nlp_scaling_method", "equilibration-based"}}, {{"derivative_test", "second-order"}}};
   int c = ex.choose(special ? 5 : ex.thorough ? 3 : 1);
   for( auto& kv : cfg[c] ) what += " " + kv.first + "=" + kv.second;
   static std::string baseKey;
   static std::unique_ptr<Solve> base;
   // the reference solve is shared by all restatements of one problem
   std::string key = what + p.str();
   auto run = [&](Solve& S) { S.opt("max_iter", "200"); for( auto& kv : cfg[c] ) S.opts.push_back(kv); S.go(); };
   if( baseKey != key ) { base.reset(new Solve(p)); run(*base); baseKey = key; if( !base->t->err.empty() ) ex.fail("protocol", base->t->err); }
   std::vector<R> use;
   for( int d = 0; d < ex.maxdev; ++d )
   {
      size_t k = ex.deviate((int) rs.size() + 1);
      if( !k ) break;
      if( use.size() && (rs[k - 1].what <= use[0].what) ) throw mc::Skip();   // unordered pairs
      if( use.size() && rs[k - 1].fixedTreat && use[0].fixedTreat ) throw mc::Skip();
      if( use.size() && rs[k - 1].pv.size() && use[0].pv.size() ) throw mc::Skip();
      use.push_back(rs[k - 1]);
   }
   if( use.empty() ) { ex.outcome(base->hash()); return; }
   for( auto& r : use ) what += " " + r.what;
   ex.desc = what;
   std::vector<int> pv, pc;
   for( auto& r : use ) if( r.pv.size() ) { pv = r.pv; pc = r.pc; }
   Solve S(pv.empty() ? p : permute(p, pv, pc));
   bool exact = true, ft = false;
   for( auto& r : use ) { exact &= r.exact; ft |= r.fixedTreat; }
   for( auto& r : use ) { try { if( r.what.find("dup") != std::string::npos || r.what.find("flip") != std::string::npos || r.what.find("perm") != std::string::npos ) if( pv.size() && use.size() > 1 ) throw mc::Skip(); r.apply(S); } catch( mc::Skip& ) { throw; } }
   run(S);
   if( !S.t->err.empty() ) ex.fail("protocol", S.t->err);
   ex.count(fmt("status_%d", (int) S.st));
   const Solve& B = *base;
   mc::Hash h; h.i(S.st); h.i((long long) S.hash()); h.s(use[0].what); ex.outcome(h.h);
   std::string cmp = fmt("; stated originally: %s; restated: %s; %s", B.resStr().c_str(), S.resStr().c_str(), p.str().c_str());
   if( exact )
   {
      if( S.st != B.st || !sameResult(S.r(), B.r()) || S.t->iters.size() != B.t->iters.size() ) ex.fail("differs-exact", "result is not identical" + cmp);
      return;
   }
   if( use.size() > 1 && special && S.st == 0 && B.st == 0 && maxAbsDiff(S.r().x, B.r().x) > 1e-3 && pv.empty() )
   {
      // rounding differences may decide between several solutions of a nonconvex problem
      requireKkt(ex, S, 1, "kkt", S.has("fixed_variable_treatment", "make_parameter_nodual"));
      ex.count("other_stationary_point");
      return;
   }
   if( ft )
   {
      // the treatments may take other ways; what is compared are successes
      if( B.st != Solve_Succeeded ) return;
      if( S.st == Not_Enough_Degrees_Of_Freedom ) return;
      // equalities left without degrees of freedom: only the removal of the fixed variables makes the system regular
      int neq = 0, nfx = 0;
      for( int j = 0; j < p.m; ++j ) neq += p.gl[j] == p.gu[j];
      for( int i = 0; i < p.n; ++i ) nfx += p.xl[i] == p.xu[i];
      if( S.has("fixed_variable_treatment", "relax_bounds") && neq > 0 && neq >= p.n - nfx && !S.ok() ) { ex.count("overdetermined"); return; }
      if( !S.ok() && S.r().finals == 1 && S.r().f < B.r().f - 100 ) { ex.count("unbounded"); return; }
      // with several stationary points another treatment may end at another one, which then must be a solution of its own
      bool convex = !special;
      for( int j = 0; j < p.m; ++j ) convex &= p.g[j].linear() || p.gl[j] < -1e19;
      if( !convex && S.ok() && maxAbsDiff(S.r().x, B.r().x) > 1e-3 ) { requireKkt(ex, S, 1, "kkt", S.has("fixed_variable_treatment", "make_parameter_nodual")); ex.count("other_stationary_point"); return; }
   }
   if( S.st != B.st )
   {
      if( (S.st == 0 || S.st == 1) && (B.st == 0 || B.st == 1) ) {}
      else if( B.st == Solve_Succeeded || S.st == Solve_Succeeded ) ex.fail("verdict", fmt("status %d instead of %d", (int) S.st, (int) B.st) + cmp);
      else { ex.count("other_failure"); return; }
   }
   if( !S.ok() ) return;
   double tol = 1e-6, mult = 1;
   for( const V* v : {&B.r().zl, &B.r().zu, &B.r().lam} ) for( double d : *v ) mult = std::max(mult, std::fabs(d));
   for( int i = 0; i < p.n; ++i )
   {
      int q = pv.empty() ? i : pv[i];
      bool fx = p.xl[i] == p.xu[i];
      if( !(std::fabs(S.r().x[q] - B.r().x[i]) <= tol * std::max(1., std::fabs(B.r().x[i]))) && B.st == 0 && S.st == 0 ) ex.fail("solution", fmt("x%d: %.12g instead of %.12g", i, S.r().x[q], B.r().x[i]) + cmp);
      if( fx && S.has("fixed_variable_treatment", "make_parameter_nodual") ) { if( S.r().zl[q] != 0 || S.r().zu[q] != 0 ) ex.fail("nodual", "multiplier of fixed variable although none are to be computed" + cmp); continue; }
      double a = S.r().zl[q] - S.r().zu[q], b = B.r().zl[i] - B.r().zu[i];
      if( !(std::fabs(a - b) <= 1e-4 * mult) && B.st == 0 && S.st == 0 ) ex.fail("bound-multiplier", fmt("multiplier of variable %d: %.9g instead of %.9g", i, a, b) + cmp);
   }
   for( int j = 0; j < p.m; ++j )
   {
      int q = pv.empty() ? j : pc[j];
      if( !(std::fabs(S.r().lam[q] - B.r().lam[j]) <= 1e-4 * mult) && B.st == 0 && S.st == 0 ) ex.fail("multiplier", fmt("multiplier of constraint %d: %.9g instead of %.9g", j, S.r().lam[q], B.r().lam[j]) + cmp);
      if( !(std::fabs(S.r().g[q] - B.r().g[j]) <= 1e-5 * std::max(1., std::fabs(B.r().g[j]))) && B.st == 0 && S.st == 0 ) ex.fail("constraint-value", "constraint value differs" + cmp);
   }
}

int main(int argc, char** argv)
{
   mc::Explorer ex;
   return ex.main(argc, argv, [](mc::Explorer& e) { body(e); });
}
