// C15: the derivative checker flags exactly the wrong derivatives and leaves no trace
#include "solvelib.hpp"
#include "alloc.hpp"
#include <map>

// what is wrong: first-order entries are given as mult*true + off
struct Wrong { enum K { NONE, GRAD, JAC, JDROP, HOBJ, HCON, HDROP, GRADNAN, JACNAN, HNAN, GRADINF } k = NONE; int a = 0, b = 0, c = 0; double mult = 1, off = 0; };
static std::string wstr(const Wrong& w)
{
   static const char* n[] = {"none", "grad", "jac", "jac-missing", "obj_hess", "constr_hess", "hess-missing", "grad-nan", "jac-nan", "hess-nan", "grad-inf"};
   return fmt("%s(%d,%d,%d)*%g+%g", n[w.k], w.a, w.b, w.c, w.mult, w.off);
}

class WSpec : public tn::Spec
{
public:
   std::vector<Wrong> w;
   bool refuseStart = false;
   explicit WSpec(const sp::Problem& p) : tn::Spec(p) {}
   bool get_starting_point(Index n, bool ix, Number* x, bool iz, Number* zl, Number* zu, Index m, bool il, Number* lam) override
   {
      if( refuseStart ) { note(tn::C_START); return false; }
      return tn::Spec::get_starting_point(n, ix, x, iz, zl, zu, m, il, lam);
   }
   bool eval_grad_f(Index n, const Number* x, bool nx, Number* g) override
   {
      bool r = tn::Spec::eval_grad_f(n, x, nx, g);
      for( auto& e : w )
      {
         if( e.k == Wrong::GRAD ) g[e.a] = e.mult * g[e.a] + e.off;
         if( e.k == Wrong::GRADNAN ) g[e.a] = NAN;
         if( e.k == Wrong::GRADINF ) g[e.a] = INFINITY;
      }
      return r;
   }
   bool eval_jac_g(Index n, const Number* x, bool nx, Index m, Index nele, Index* r, Index* c, Number* v) override
   {
      bool ok = tn::Spec::eval_jac_g(n, x, nx, m, nele, r, c, v);
      if( v ) for( auto& e : w ) if( e.k == Wrong::JAC || e.k == Wrong::JACNAN )
      {
         bool first = true;
         for( int k = 0; k < nele; ++k ) if( pr.jac[k].r == e.a && pr.jac[k].c == e.b ) { v[k] = e.k == Wrong::JACNAN ? NAN : e.mult * v[k] + (first ? e.off : 0.); first = false; }
      }
      return ok;
   }
   bool eval_h(Index n, const Number* x, bool nx, Number of, Index m, const Number* lam, bool nl, Index nele, Index* r, Index* c, Number* v) override
   {
      bool ok = tn::Spec::eval_h(n, x, nx, of, m, lam, nl, nele, r, c, v);
      if( v ) for( auto& e : w ) if( e.k == Wrong::HOBJ || e.k == Wrong::HCON || e.k == Wrong::HNAN )
      {
         // error only in the part of objective (a=-1) or constraint a
         sp::V H(n * n, 0.);
         if( e.a < 0 ) P->f.hess(x, H.data(), n, of); else P->g[e.a].hess(x, H.data(), n, lam[e.a]);
         double scale = e.a < 0 ? of : lam[e.a];
         bool first = true;
         for( int k = 0; k < nele; ++k )
            if( (pr.hess[k].r == e.b && pr.hess[k].c == e.c) || (pr.hess[k].r == e.c && pr.hess[k].c == e.b) )
            {
               if( e.k == Wrong::HNAN ) v[k] = NAN;
               else v[k] += pr.hess[k].w * (e.mult - 1) * H[e.b * n + e.c] + (first ? scale * e.off : 0.);
               first = false;
            }
      }
      return ok;
   }
};

class Collect : public Journal
{
public:
   std::string s;
   Collect() : Journal("collect", J_NONE) {}
protected:
   void PrintImpl(EJournalCategory, EJournalLevel, const char* str) override { s += str; }
   void PrintfImpl(EJournalCategory, EJournalLevel, const char* f, va_list ap) override { char b[4096]; vsnprintf(b, sizeof b, f, ap); s += b; }
   void FlushBufferImpl() override {}
};

struct Line { char kind; int a, b, c; bool flagged; bool inStruct; double given, approx; };
static bool parse(const std::string& txt, std::vector<Line>& L, int& nerr, int& summaries, std::string& why)
{
   size_t p = 0;
   nerr = 0;
   summaries = 0;
   while( p < txt.size() )
   {
      size_t e = txt.find('\n', p);
      if( e == std::string::npos ) e = txt.size();
      std::string l = txt.substr(p, e - p);
      p = e + 1;
      if( l.empty() ) continue;
      Line r{};
      char v[2] = {0, 0};
      int k;
      const char* q = l.c_str() + 1;
      r.flagged = l[0] == '*';
      char rest[200];
      if( sscanf(q, " grad_f[ %d] = %lf ~ %lf", &r.a, &r.given, &r.approx) == 3 ) { r.kind = 'g'; r.inStruct = true; L.push_back(r); }
      else if( sscanf(q, " jac_g [ %d, %d] = %lf %199[^\n]", &r.a, &r.b, &r.given, rest) == 4 ) { r.kind = 'j'; r.inStruct = rest[0] == 'v'; sscanf(strchr(rest, '~') + 1, "%lf", &r.approx); L.push_back(r); }
      else if( sscanf(q, " obj_hess[ %d, %d] = %lf %199[^\n]", &r.b, &r.c, &r.given, rest) == 4 ) { r.kind = 'h'; r.a = -1; r.inStruct = rest[0] == 'v'; sscanf(strchr(rest, '~') + 1, "%lf", &r.approx); L.push_back(r); }
      else if( sscanf(q, " %d-th constr_hess[ %d, %d] = %lf %199[^\n]", &r.a, &r.b, &r.c, &r.given, rest) == 5 ) { r.kind = 'c'; r.inStruct = rest[0] == 'v'; sscanf(strchr(rest, '~') + 1, "%lf", &r.approx); L.push_back(r); }
      else if( sscanf(l.c_str(), "Derivative checker detected %d error(s).", &k) == 1 ) { nerr = k; ++summaries; }
      else if( l == "No errors detected by derivative checker." ) ++summaries;
      else if( l[0] == '*' || l.find("grad_f") != std::string::npos || l.find("jac_g") != std::string::npos || l.find("hess[") != std::string::npos ) { why = "unreadable line: " + l; return false; }
      (void) v;
   }
   return true;
}

enum { YES, NO, MAYBE };
// the checker's documented comparison, with a band in which discretization may decide either way
static int expect(double given, double approx, double noise, double tol)
{
   if( std::isnan(given) || std::isinf(given) ) return YES;
   double den = std::max(std::fabs(approx), tol), rel = std::fabs(given - approx) / den, nz = noise / den;
   if( rel - nz > tol * 1.01 ) return YES;
   if( rel + nz < tol * 0.99 ) return NO;
   return MAYBE;
}

static void body(mc::Explorer& ex)
{
   bool spec = ex.mode == "special";
   sp::Problem p;
   std::string desc;
   if( spec )
   {
      int k = ex.choose(10);
      p = fam::special(k);
      desc = fmt("special%d", k);
   }
   else
   {
      fam::Shape s;
      s.family = ex.of({0, 1, 2, 3});
      s.n = 1 + ex.choose(ex.thorough ? 3 : 3);
      s.m = ex.choose(3);
      // bounds and constraint kinds: the checker only sees the bounds, so the constraint kinds are varied one at a time
      int vary = ex.choose(1 + s.n * 4 + s.m * 4);
      for( int i = 0; i < s.n; ++i ) s.b[i] = fam::B_FREE;
      for( int j = 0; j < s.m; ++j ) s.c[j] = fam::K_GE;
      if( vary >= 1 && vary <= s.n * 4 ) s.b[(vary - 1) / 4] = 1 + (vary - 1) % 4;
      if( vary > s.n * 4 ) { int v = vary - 1 - s.n * 4; int ks[] = {fam::K_EQ, fam::K_LE, fam::K_RNG, fam::K_FREE}; s.c[v / 4] = ks[v % 4]; }
      if( !ex.thorough && s.n == 3 && (vary || s.family == 0) ) throw mc::Prune();
      if( !ex.thorough && s.n < 3 && s.m == 2 && vary > s.n * 4 && (vary - 1 - s.n * 4) / 4 == 1 ) throw mc::Prune();
      p = fam::make(s);
      desc = fam::shapeStr(s);
   }
   int test = ex.choose(3);
   static const char* tests[] = {"first-order", "second-order", "only-second-order"};
   // presentation, treatment, subset, ...: one (two, thorough) non-default
   int fixt = ex.deviate(4), present = ex.deviate(7), radius = ex.deviate(4), printall = ex.deviate(2), startk = ex.deviate(4), tolk = ex.deviate(3), pertk = ex.deviate(3);
   int first = ex.deviate(1 + std::max(p.n, p.m) + 2);   // default -2; -1,0,1,...
   ex.shardPoint();
   double tol = tolk == 1 ? 1e-2 : tolk == 2 ? 1e-6 : 1e-4, pert = pertk == 1 ? 1e-6 : pertk == 2 ? 1e-7 : 1e-8;
   double rad = radius == 0 ? 0.4 : radius == 1 ? 10 : radius == 2 ? 0 : 2;

   SmartPtr<WSpec> pre = new WSpec(p);
   switch( present )
   {
      case 0: break;
      case 1: pre->pr.fortran = true; break;
      case 2: for( auto& e : pre->pr.hess ) std::swap(e.r, e.c); break;
      case 3: { auto v = pre->pr.jac; for( auto& e : v ) e.w = 0.25; for( auto& e : pre->pr.jac ) e.w = 0.75; pre->pr.jac.insert(pre->pr.jac.end(), v.begin(), v.end()); break; }
      case 4: { auto v = pre->pr.hess; for( auto& e : v ) { e.w = 3; std::swap(e.r, e.c); } for( auto& e : pre->pr.hess ) e.w = -2; pre->pr.hess.insert(pre->pr.hess.begin(), v.begin(), v.end()); break; }
      case 5: std::reverse(pre->pr.jac.begin(), pre->pr.jac.end()); std::reverse(pre->pr.hess.begin(), pre->pr.hess.end()); pre->pr.fortran = true; break;
      case 6: { std::set<std::pair<int, int>> have; for( auto& e : pre->pr.jac ) have.insert({e.r, e.c}); for( int j = 0; j < p.m; ++j ) for( int i = 0; i < p.n; ++i ) if( !have.count({j, i}) ) pre->pr.jac.push_back({j, i, 0.}); break; }
   }
   switch( startk )
   {
      case 1: for( int i = 0; i < p.n; ++i ) p.x0[i] += 0.25; break;
      case 2: for( int i = 0; i < p.n; ++i ) p.x0[i] = i % 2 ? 3. : -3.; break;     // outside of bounds
      case 3: for( int i = 0; i < p.n; ++i ) p.x0[i] = i % 2 ? -30. : 30.; break;   // far outside of bounds
   }

   // the errors
   std::vector<Wrong> cand;
   cand.push_back(Wrong());
   auto add = [&](Wrong::K k, int a, int b, int c, double mu, double off) { Wrong w; w.k = k; w.a = a; w.b = b; w.c = c; w.mult = mu; w.off = off; cand.push_back(w); };
   for( int i = 0; i < p.n; ++i ) { add(Wrong::GRAD, i, 0, 0, 1, 1); add(Wrong::GRAD, i, 0, 0, -1, 0); add(Wrong::GRAD, i, 0, 0, 0, 0); add(Wrong::GRAD, i, 0, 0, 1.001, 1e-3); add(Wrong::GRADNAN, i, 0, 0, 1, 0); add(Wrong::GRADINF, i, 0, 0, 1, 0); }
   std::set<std::pair<int, int>> js, hs;
   for( auto& e : pre->pr.jac ) js.insert({e.r, e.c});
   for( auto& e : pre->pr.hess ) hs.insert({std::min(e.r, e.c), std::max(e.r, e.c)});
   for( auto& e : js ) { add(Wrong::JAC, e.first, e.second, 0, 1, 1); add(Wrong::JAC, e.first, e.second, 0, -1, 0); add(Wrong::JAC, e.first, e.second, 0, 1.001, -1e-3); add(Wrong::JACNAN, e.first, e.second, 0, 1, 0); add(Wrong::JDROP, e.first, e.second, 0, 1, 0); }
   if( test ) for( auto& e : hs )
   {
      for( int j = -1; j < p.m; ++j ) { add(j < 0 ? Wrong::HOBJ : Wrong::HCON, j, e.first, e.second, 1, 1); add(j < 0 ? Wrong::HOBJ : Wrong::HCON, j, e.first, e.second, -1, 0); add(j < 0 ? Wrong::HOBJ : Wrong::HCON, j, e.first, e.second, 1.001, 1e-3); }
      add(Wrong::HNAN, -1, e.first, e.second, 1, 0);
      add(Wrong::HDROP, 0, e.first, e.second, 1, 0);
   }
   std::vector<Wrong> ws;
   int c1 = ex.choose((int) cand.size() + 1);      // last: starting point refused
   bool refuse = c1 == (int) cand.size();
   if( !refuse )
   {
      ws.push_back(cand[c1]);
      auto plain = [](const Wrong& w) { return (w.mult == 1 && w.off == 1) || w.k == Wrong::JDROP || w.k == Wrong::HDROP || w.k == Wrong::GRADNAN; };
      if( c1 && ex.devs && !plain(cand[c1]) && !ex.thorough ) throw mc::Prune();
      if( c1 && plain(cand[c1]) && (ex.thorough || p.n < 3) )
      {
         std::vector<int> second;
         for( int k = c1 + 1; k < (int) cand.size(); ++k ) if( plain(cand[k]) ) second.push_back(k);
         int c2 = ex.deviate((int) second.size() + 1);
         if( c2 ) ws.push_back(cand[second[c2 - 1]]);
      }
   }
   auto build = [&]() {
      SmartPtr<WSpec> t = new WSpec(p);
      t->pr = pre->pr;
      t->w = ws;
      t->refuseStart = refuse;
      for( auto& w : ws )
      {
         if( w.k == Wrong::JDROP ) { auto& v = t->pr.jac; v.erase(std::remove_if(v.begin(), v.end(), [&](const tn::Ent& e) { return e.r == w.a && e.c == w.b; }), v.end()); }
         if( w.k == Wrong::HDROP ) { auto& v = t->pr.hess; v.erase(std::remove_if(v.begin(), v.end(), [&](const tn::Ent& e) { return std::min(e.r, e.c) == w.b && std::max(e.r, e.c) == w.c; }), v.end()); }
      }
      return t;
   };
   desc += fmt(" %s first=%d fixed=%d present=%d radius=%g start=%d tol=%g pert=%g printall=%d wrong:", tests[test], first ? first - 2 : -2, fixt, present, rad, startk, tol, pert, printall);
   for( auto& w : ws ) desc += " " + wstr(w);
   if( refuse ) desc += " start refused";
   ex.desc = desc;
   static const char* fts[] = {"make_parameter", "make_constraint", "relax_bounds", "make_parameter_nodual"};

   SmartPtr<Collect> log = new Collect();
   sp::V ref;
   bool haveRef = false, outside = false;
   bool checking = true;
   auto go = [&](bool check, SmartPtr<WSpec> t, Solve& s) {
      s.p = p;
      s.t = GetRawPtr(t);
      s.opt("max_iter", "2");
      if( fixt ) s.opt("fixed_variable_treatment", fts[fixt]);
      if( check )
      {
         s.opt("derivative_test", tests[test]);
         s.opt("derivative_test_tol", fmt("%g", tol));
         s.opt("derivative_test_perturbation", fmt("%g", pert));
         if( radius != 1 ) s.opt("point_perturbation_radius", fmt("%g", rad));
         if( first ) s.opt("derivative_test_first_index", fmt("%d", first - 2));
         if( printall ) s.opt("derivative_test_print_all", "yes");
      }
      else if( radius != 1 ) s.opt("point_perturbation_radius", fmt("%g", rad));
      s.prepare();
      if( check )
      {
         SmartPtr<Journal> j = GetRawPtr(log);
         j->SetPrintLevel(J_NLP, J_WARNING);
         s.run.app->Jnlst()->AddJournal(j);
      }
      al::fill() = 0xff;
      s.go();
      al::fill() = -1;
   };
   SmartPtr<WSpec> t0 = build(), t1 = build();
   std::vector<std::pair<int, sp::V>> tr0, tr1;
   t0->onEval = [&](int cb, const double* x, bool) { tr0.push_back({cb, sp::V(x, x + p.n)}); };
   t1->onEval = [&](int cb, const double* x, bool) {
      if( !haveRef ) { ref.assign(x, x + p.n); haveRef = true; }
      for( int i = 0; i < p.n; ++i ) if( checking && (x[i] < p.xl[i] || x[i] > p.xu[i] + 1.0001 * pert * std::max(1., std::fabs(p.xu[i]))) ) outside = true;
      tr1.push_back({cb, sp::V(x, x + p.n)});
   };
   Solve s0(p), s1(p);
   go(false, t0, s0);
   go(true, t1, s1);
   ++ex.evals;
   if( t1->err.size() ) ex.fail("protocol", t1->err);
   // the solve is the same
   if( s0.st != s1.st || !sameResult(t0->res, t1->res) ) ex.fail("changes-solve", "without: " + s0.resStr() + " with: " + s1.resStr());
   if( t0->iters.size() != t1->iters.size() ) ex.fail("changes-solve", "different number of iterations");
   for( size_t k = 0; k < t0->iters.size(); ++k ) if( t0->iters[k].obj != t1->iters[k].obj && t0->iters[k].obj == t0->iters[k].obj ) ex.fail("changes-solve", fmt("different iteration %zu", k));
   if( tr1.size() < tr0.size() ) ex.fail("changes-solve", "fewer evaluations than without derivative check");
   for( size_t k = 0; k < tr0.size(); ++k ) if( tr0[k].first != tr1[tr1.size() - tr0.size() + k].first || !bitEq(tr0[k].second, tr1[tr1.size() - tr0.size() + k].second) ) ex.fail("changes-solve", fmt("evaluation %zu of the solve differs", k));
   if( refuse )
   {
      if( tr1.size() ) ex.fail("refused-start", "evaluates although no starting point was given");
      if( log->s.size() ) ex.fail("refused-start", "reports about derivatives although no starting point was given: " + log->s);
      ex.outcome(s1.hash());
      return;
   }
   if( !haveRef ) ex.fail("no-check", "nothing was evaluated");
   for( int i = 0; i < p.n; ++i )
   {
      double lo = std::max(p.xl[i], std::min(p.x0[i] - rad, p.xu[i])), up = std::min(p.xu[i], std::max(p.x0[i] + rad, p.xl[i]));
      if( ref[i] < lo - 1e-12 || ref[i] > up + 1e-12 ) ex.fail("reference-point", fmt("derivatives checked at x%d=%.17g, outside of [%g,%g]", i, ref[i], lo, up));
   }
   (void) outside;

   // expected table
   std::vector<Line> L;
   int nerr, sums;
   std::string why;
   if( !parse(log->s, L, nerr, sums, why) ) ex.fail("output", why);
   if( sums != 1 ) ex.fail("output", fmt("%d summary lines: %s", sums, log->s.c_str()));
   int off = pre->pr.fortran ? 1 : 0, fi = first ? first - 2 : -2;
   struct Exp { int want; double given, approx; bool inStruct; };
   std::map<std::vector<int>, Exp> E;
   const double* x = ref.data();
   int n = p.n, m = p.m;
   // given derivatives at the reference point, straight from the (wrong) problem
   SmartPtr<WSpec> o = build();
   o->checkNewX = false;
   sp::V g(n), jv(o->pr.jac.size()), gt(n, 0.), Jt;
   o->eval_grad_f(n, x, true, g.data());
   if( m ) o->eval_jac_g(n, x, true, m, (Index) jv.size(), nullptr, nullptr, jv.data());
   p.f.grad(x, gt.data());
   p.jac(x, Jt);
   auto fscale = [&](const sp::Func& f) { double s = 1; for( auto& e : f.t ) { sp::Func q; q.t = {e}; s += std::fabs(q.val(x)); } return s; };
   auto dscale = [&](const sp::Func& f, int i) { double s = 1; for( auto& e : f.t ) { sp::Func q; q.t = {e}; sp::V d(n, 0.); q.grad(x, d.data()); s += std::fabs(d[i]); } return s; };
   auto hscale = [&](const sp::Func& f) { sp::V H(n * n, 0.); double s = 1; for( auto& e : f.t ) { sp::Func q; q.t = {e}; sp::V h(n * n, 0.); q.hess(x, h.data(), n); for( double v : h ) s += std::fabs(v); } return s; };
   auto uses = [&](const sp::Func& f, int i) { return f.vars().count(i) > 0; };
   auto h = [&](int i) { return pert * std::max(1., std::fabs(x[i])); };
   auto firstNoise = [&](const sp::Func& f, int i) { return uses(f, i) ? 4 * 2.3e-16 * fscale(f) / h(i) + h(i) * hscale(f) * 3 + dscale(f, i) * 1e-16 * std::max(1., std::fabs(x[i])) / h(i) * 2 : 0.; };
   if( test < 2 )
      for( int i = std::max(0, fi); i < n; ++i )
      {
         double nz = firstNoise(p.f, i);
         E[{'g', i, 0, 0}] = {expect(g[i], gt[i], nz, tol), g[i], gt[i], true};
         for( int j = 0; j < m; ++j )
         {
            double gv = 0;
            bool in = false;
            for( size_t k = 0; k < jv.size(); ++k ) if( o->pr.jac[k].r == j && o->pr.jac[k].c == i ) { gv += jv[k]; in = true; }
            E[{'j', j, i, 0}] = {expect(gv, Jt[j * n + i], firstNoise(p.g[j], i), tol), gv, Jt[j * n + i], in};
         }
      }
   if( test >= 1 )
      for( int j = std::max(-1, fi); j < m; ++j )
      {
         sp::V lam(m, 0.), hv(o->pr.hess.size()), Ht(n * n, 0.);
         if( j >= 0 ) lam[j] = 1.5;
         o->eval_h(n, x, true, j < 0 ? 1.5 : 0., m, lam.data(), true, (Index) hv.size(), nullptr, nullptr, hv.data());
         const sp::Func& f = j < 0 ? p.f : p.g[j];
         f.hess(x, Ht.data(), n, 1.5);
         for( int a = 0; a < n; ++a ) for( int b = 0; b < n; ++b )
         {
            // approximation: derivative of the given b-th first derivative with respect to a
            double ap = Ht[a * n + b], scale = dscale(f, b), offs = 0;
            bool dropped = false;
            for( auto& w : ws )
            {
               if( j < 0 && (w.k == Wrong::GRADNAN || w.k == Wrong::GRADINF) && w.a == b ) ap = NAN;
               if( j < 0 && w.k == Wrong::GRAD && w.a == b ) { ap *= w.mult; offs += std::fabs(w.off); }
               if( j >= 0 && w.k == Wrong::JAC && w.a == j && w.b == b ) { ap *= w.mult; offs += std::fabs(w.off); }
               if( j >= 0 && w.k == Wrong::JACNAN && w.a == j && w.b == b ) ap = NAN;
               if( j >= 0 && w.k == Wrong::JDROP && w.a == j && w.b == b ) { ap = 0; dropped = true; }
            }
            double gv = 0;
            bool in = false;
            for( size_t k = 0; k < hv.size(); ++k ) if( (o->pr.hess[k].r == a && o->pr.hess[k].c == b) || (o->pr.hess[k].r == b && o->pr.hess[k].c == a) ) { gv += hv[k]; in = true; }
            double h3 = hscale(f);
            sp::V H2(n * n, 0.);
            f.hess(x, H2.data(), n);
            bool dep = false;
            for( auto& e : f.t ) { sp::Func q; q.t = {e}; auto hvv = q.hvars(); dep = dep || hvv.count({std::max(a, b), std::min(a, b)}) || hvv.count({std::min(a, b), std::max(a, b)}); }
            // repeated entries of the Jacobian are added up in floating point
            double nz = dep && !dropped ? 1.5 * (8 * 2.3e-16 * (scale + offs) * 2 / h(a) + h(a) * h3 * 5 + h3 * 2e-16 * std::max(1., std::fabs(x[a])) / h(a)) : 0.;
            int want = expect(gv, ap, nz, tol);
            if( std::isnan(ap) ) want = YES;
            E[ {j < 0 ? 'h' : 'c', j, a, b}] = {want, gv, ap, in};
         }
      }
   int flagged = 0;
   std::map<std::vector<int>, int> seen;
   for( auto& l : L )
   {
      std::vector<int> key;
      if( l.kind == 'g' ) key = {'g', l.a - off, 0, 0};
      else if( l.kind == 'j' ) key = {'j', l.a - off, l.b - off, 0};
      else if( l.kind == 'h' ) key = {'h', -1, l.b - off, l.c - off};
      else key = {'c', l.a - off, l.b - off, l.c - off};
      std::string kn = fmt("%c(%d,%d,%d)", key[0], key[1], key[2], key[3]);
      if( l.flagged ) ++flagged;
      if( !E.count(key) ) ex.fail("not-selected", "reports about entry " + kn + " which was not to be checked");
      if( seen[key]++ ) ex.fail("twice", "entry " + kn + " is reported twice");
      const Exp& e = E[key];
      if( l.flagged && e.want == NO ) ex.fail("false-alarm", fmt("correct entry %s reported as wrong: given %.12g, difference quotient %.12g; true %.12g", kn.c_str(), l.given, l.approx, e.approx));
      if( !l.flagged && e.want == YES ) ex.fail("missed", "wrong entry " + kn + " not marked");
      if( !l.flagged && !printall ) ex.fail("output", "unmarked entry " + kn + " printed");
      if( !(std::fabs(l.given - e.given) <= 1e-13 * std::fabs(e.given)) && !(std::isnan(l.given) && std::isnan(e.given)) && l.given != e.given ) ex.fail("value", fmt("entry %s reported with value %.17g, is %.17g", kn.c_str(), l.given, e.given));
      if( l.inStruct != e.inStruct ) ex.fail("structure-mark", "entry " + kn + " has the wrong structure mark");
   }
   for( auto& e : E )
   {
      std::string kn = fmt("%c(%d,%d,%d)", e.first[0], e.first[1], e.first[2], e.first[3]);
      if( e.second.want == YES && !seen.count(e.first) ) ex.fail("missed", fmt("wrong entry %s not reported (given %g, true %g)", kn.c_str(), e.second.given, e.second.approx));
      if( printall && !seen.count(e.first) ) ex.fail("output", "entry " + kn + " not printed");
      if( e.second.want == MAYBE ) ex.count("undecided entries");
      else ex.count(e.second.want == YES ? "wrong entries" : "correct entries");
   }
   if( nerr != flagged ) ex.fail("count", fmt("%d errors announced, %d entries marked", nerr, flagged));
   ex.nontrivial = true;
   mc::Hash hh;
   hh.s(log->s);
   hh.i(s1.hash());
   ex.outcome(hh.h);
}

int main(int argc, char** argv)
{
   mc::Explorer ex;
   return ex.main(argc, argv, body);
}
