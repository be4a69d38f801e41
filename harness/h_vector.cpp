// C21: vector operations against plain arithmetic, over storage forms, aliasing, scalars and histories of queries
#include "mc.hpp"
#include "IpDenseVector.hpp"
#include "IpCompoundVector.hpp"
using namespace Ipopt;
using mc::fmt;
typedef std::vector<double> V;

// ---- spaces
static SmartPtr<DenseVectorSpace> D(int n) { static std::map<int, SmartPtr<DenseVectorSpace>> c; if( IsNull(c[n]) ) c[n] = new DenseVectorSpace(n); return c[n]; }
static SmartPtr<CompoundVectorSpace> comp(std::vector<SmartPtr<const VectorSpace>> v)
{
   int d = 0;
   for( auto& s : v ) d += s->Dim();
   SmartPtr<CompoundVectorSpace> r = new CompoundVectorSpace((Index) v.size(), d);
   for( size_t i = 0; i < v.size(); ++i ) r->SetCompSpace((Index) i, *v[i]);
   return r;
}
static SmartPtr<const VectorSpace> space(int k)
{
   static SmartPtr<const VectorSpace> c[9];
   if( IsNull(c[k]) )
      switch( k )
      {
         case 0: c[k] = GetRawPtr(D(3)); break;
         case 1: c[k] = GetRawPtr(D(0)); break;
         case 2: c[k] = GetRawPtr(D(1)); break;
         case 3: c[k] = GetRawPtr(comp({GetRawPtr(D(1)), GetRawPtr(D(2))})); break;
         case 4: c[k] = GetRawPtr(comp({GetRawPtr(D(0)), GetRawPtr(D(2))})); break;
         case 5: c[k] = GetRawPtr(comp({GetRawPtr(comp({GetRawPtr(D(1)), GetRawPtr(D(1))})), GetRawPtr(D(1))})); break;
         case 6: c[k] = GetRawPtr(comp({GetRawPtr(D(0)), GetRawPtr(D(0))})); break;
         case 7: c[k] = GetRawPtr(comp({GetRawPtr(D(2)), GetRawPtr(D(2))})); break;    // used with repeated components
         case 8: c[k] = GetRawPtr(D(2)); break;
      }
   return c[k];
}
static const char* spname(int k) { static const char* n[] = {"dense(3)", "dense(0)", "dense(1)", "[1,2]", "[0,2]", "[[1,1],1]", "[0,0]", "[2,2]", "dense(2)"}; return n[k]; }

static void leaves(Vector& v, std::vector<DenseVector*>& out)
{
   if( DenseVector* d = dynamic_cast<DenseVector*>(&v) ) { out.push_back(d); return; }
   CompoundVector* c = static_cast<CompoundVector*>(&v);
   for( Index i = 0; i < c->NComps(); ++i ) leaves(*c->GetCompNonConst(i), out);
}
static void cleaves(const Vector& v, std::vector<const DenseVector*>& out)
{
   if( const DenseVector* d = dynamic_cast<const DenseVector*>(&v) ) { out.push_back(d); return; }
   const CompoundVector* c = static_cast<const CompoundVector*>(&v);
   for( Index i = 0; i < c->NComps(); ++i ) { SmartPtr<const Vector> s = c->GetComp(i); cleaves(*s, out); }
}
static V get(const Vector& v)
{
   std::vector<const DenseVector*> l;
   cleaves(v, l);
   V r;
   for( auto d : l ) for( int i = 0; i < d->Dim(); ++i ) r.push_back(d->IsHomogeneous() ? d->Scalar() : d->Values()[i]);
   return r;
}
static const double PAT[][3] = {{0.5, -2, 3}, {4, 0, -0.25}, {1, 1, 1}, {-3, -3, -3}, {2, 8, 0.5}, {0, 0, 0}};
static const double HOM[] = {0, 1, -2, 0.5, 4};
/** leaf states: 0..3 dense with pattern, 4..8 homogeneous, 9 homogeneous forced into array form */
static const int LS[] = {4, 0, 5, 1, 6, 4 + 3, 9, 2, 3, 10, 11};
static void setLeaf(DenseVector& d, int st, int off)
{
   if( st >= 4 && st < 9 ) { d.Set(HOM[st - 4]); return; }
   if( st == 9 ) { d.Set(-2); d.Values(); return; }
   int p = st >= 10 ? st - 6 : st;
   V v(d.Dim() + 1);
   for( int i = 0; i < d.Dim(); ++i ) v[i] = PAT[p][(i + off) % 3];
   d.SetValues(v.data());
}

struct Vec
{
   SmartPtr<Vector> v;
   V r;
};
static bool same(double a, double b)
{
   if( std::isnan(a) || std::isnan(b) ) return std::isnan(a) && std::isnan(b);
   if( std::isinf(a) || std::isinf(b) ) return a == b;
   return std::fabs(a - b) <= 1e-13 * std::max(1., std::max(std::fabs(a), std::fabs(b)));
}
static std::string str(const V& v) { std::string s = "("; for( double d : v ) s += fmt(" %.17g", d); return s + " )"; }

static void checkEq(mc::Explorer& ex, const char* key, const Vec& a, const std::string& what)
{
   V g = get(*a.v);
   if( g.size() != a.r.size() ) ex.fail("dimension", what);
   for( size_t i = 0; i < g.size(); ++i ) if( !same(g[i], a.r[i]) ) ex.fail(key, what + " gives " + str(g) + ", should be " + str(a.r));
}
static void queries(mc::Explorer& ex, const Vec& x, const Vec& y, const std::string& what)
{
   double n2 = 0, as = 0, am = 0, mx = -std::numeric_limits<double>::max(), mn = std::numeric_limits<double>::max(), s = 0, sl = 0, dt = 0;
   bool nan = false, inf = false;
   for( size_t i = 0; i < x.r.size(); ++i )
   {
      double v = x.r[i];
      nan |= std::isnan(v);
      inf |= std::isinf(v);
      n2 += v * v;
      as += std::fabs(v);
      am = std::max(am, std::fabs(v));
      mx = std::max(mx, v);
      mn = std::min(mn, v);
      s += v;
      sl += std::log(v);
      dt += v * y.r[i];
   }
   auto chk = [&](const char* k, double got, double want) { if( !same(got, want) && !(std::fabs(got - want) <= 1e-12 * (1 + as * as)) ) ex.fail(std::string("query-") + k, what + fmt(": %s is %.17g, should be %.17g for ", k, got, want) + str(x.r)); };
   // the (invisible) scalar of an empty vector may become NaN
   std::vector<const DenseVector*> ls;
   cleaves(*x.v, ls);
   for( auto l : ls ) if( l->Dim() == 0 && l->IsHomogeneous() && !std::isfinite(l->Scalar()) ) return;
   if( x.v->HasValidNumbers() != !(nan || inf) ) ex.fail("query-valid", what + ": HasValidNumbers wrong for " + str(x.r));
   if( nan ) return;
   chk("Asum", x.v->Asum(), as);
   chk("Amax", x.v->Amax(), am);
   if( !x.r.empty() ) { chk("Max", x.v->Max(), mx); chk("Min", x.v->Min(), mn); }     // no meaning for an empty vector
   if( !inf )
   {
      chk("Nrm2", x.v->Nrm2(), std::sqrt(n2));
      chk("Sum", x.v->Sum(), s);
      if( mn > 0 || x.r.empty() ) chk("SumLogs", x.v->SumLogs(), sl);
      bool yok = true;
      for( double v : y.r ) yok &= std::isfinite(v);
      if( yok )
      {
         chk("Dot", x.v->Dot(*y.v), dt);
         chk("Dot", y.v->Dot(*x.v), dt);
         if( &x != &y ) chk("Dot self", x.v->Dot(*x.v), n2);
      }
   }
}

static const double SC[] = {0, 1, -1, 0.5};
enum Op { SCAL, AXPY, COPY, SET, EDIV, EMUL, ESEL, EMAX, EMIN, EREC, EABS, ESQRT, ESGN, ADDS, ADD1, ADD2, ADDQ, FRAC, LEAF, SETCOMP, NOP };
static const char* opname(int o) { static const char* n[] = {"Scal", "Axpy", "Copy", "Set", "ElementWiseDivide", "ElementWiseMultiply", "ElementWiseSelect", "ElementWiseMax", "ElementWiseMin", "ElementWiseReciprocal", "ElementWiseAbs", "ElementWiseSqrt", "ElementWiseSgn", "AddScalar", "AddOneVector", "AddTwoVectors", "AddVectorQuotient", "FracToBound", "component change", "SetComp", "query"}; return n[o]; }

/** applies a chosen operation to x (operands y, z; each may be x) and to the reference; returns description */
static std::string apply(mc::Explorer& ex, Vec& x, Vec& y, Vec& z, int sp, bool full)
{
   int o = ex.choose(NOP + 1);
   std::string d = opname(o);
   size_t n = x.r.size();
   auto operand = [&](bool three) -> Vec& { int k = ex.choose(three ? 3 : 2); d += k == 0 ? " y" : k == 1 ? " x" : " z"; return k == 0 ? y : k == 1 ? x : z; };
   auto operandNotX = [&](bool three) -> Vec& { if( !three ) { d += " y"; return y; } int k = ex.choose(2); d += k == 0 ? " y" : " z"; return k == 0 ? y : z; };   // the interface does not promise that the result may be an operand
   auto sc = [&]() { int k = ex.choose(full ? 4 : 3); d += fmt(" %g", SC[full ? k : (k == 2 ? 3 : k)]); return SC[full ? k : (k == 2 ? 3 : k)]; };
   V r(x.r);
   auto el = [&](std::function<double(size_t)> f) { for( size_t i = 0; i < n; ++i ) r[i] = f(i); };
   // in a*v a zero factor means that v does not count
   auto mul = [](double a, double v) { return a == 0 ? 0. : a * v; };
   switch( o )
   {
      case SCAL: { double a = sc(); x.v->Scal(a); el([&](size_t i) { return a * x.r[i]; }); break; }
      case AXPY: { double a = sc(); Vec& w = operand(false); x.v->Axpy(a, *w.v); el([&](size_t i) { return x.r[i] + a * w.r[i]; }); break; }
      case COPY: { Vec& w = operand(false); x.v->Copy(*w.v); el([&](size_t i) { return w.r[i]; }); break; }
      case SET: { double a = sc(); x.v->Set(a); el([&](size_t) { return a; }); break; }
      case EDIV: { Vec& w = operand(false); x.v->ElementWiseDivide(*w.v); el([&](size_t i) { return x.r[i] / w.r[i]; }); break; }
      case EMUL: { Vec& w = operand(false); x.v->ElementWiseMultiply(*w.v); el([&](size_t i) { return x.r[i] * w.r[i]; }); break; }
      case ESEL: { Vec& w = operand(false); x.v->ElementWiseSelect(*w.v); el([&](size_t i) { return x.r[i] > 0 ? w.r[i] : x.r[i] < 0 ? -w.r[i] : 0.; }); break; }
      case EMAX: { Vec& w = operand(false); x.v->ElementWiseMax(*w.v); el([&](size_t i) { return std::max(x.r[i], w.r[i]); }); break; }
      case EMIN: { Vec& w = operand(false); x.v->ElementWiseMin(*w.v); el([&](size_t i) { return std::min(x.r[i], w.r[i]); }); break; }
      case EREC: x.v->ElementWiseReciprocal(); el([&](size_t i) { return 1 / x.r[i]; }); break;
      case EABS: x.v->ElementWiseAbs(); el([&](size_t i) { return std::fabs(x.r[i]); }); break;
      case ESQRT: { for( double v : x.r ) if( !(v >= 0) ) throw mc::Prune(); x.v->ElementWiseSqrt(); el([&](size_t i) { return std::sqrt(x.r[i]); }); break; }
      case ESGN: x.v->ElementWiseSgn(); el([&](size_t i) { return x.r[i] > 0 ? 1. : x.r[i] < 0 ? -1. : 0.; }); break;
      case ADDS: { double a = sc(); x.v->AddScalar(a); el([&](size_t i) { return x.r[i] + a; }); break; }
      case ADD1: { double a = sc(); Vec& w = operandNotX(false); double c = sc(); x.v->AddOneVector(a, *w.v, c); el([&](size_t i) { return mul(a, w.r[i]) + mul(c, x.r[i]); }); break; }
      case ADD2: { double a = sc(); Vec& v = operandNotX(true); double b = sc(); Vec& w = operandNotX(true); double c = sc(); x.v->AddTwoVectors(a, *v.v, b, *w.v, c); el([&](size_t i) { return mul(a, v.r[i]) + mul(b, w.r[i]) + mul(c, x.r[i]); }); break; }
      case ADDQ:
      {
         double a = sc();
         Vec& v = operandNotX(true);
         Vec& w = operandNotX(true);
         double c = sc();
         for( double q : w.r ) if( q == 0 ) throw mc::Prune();
         x.v->AddVectorQuotient(a, *v.v, *w.v, c);
         el([&](size_t i) { return mul(a, v.r[i]) / w.r[i] + mul(c, x.r[i]); });
         break;
      }
      case FRAC:
      {
         Vec& w = operand(false);
         double tau = ex.of({0.99, 0.5, 1.});
         for( double q : x.r ) if( !(q > 0) ) throw mc::Prune();
         double a = 1;
         for( size_t i = 0; i < n; ++i ) if( w.r[i] < 0 ) a = std::min(a, tau * x.r[i] / -w.r[i]);
         double g = x.v->FracToBound(*w.v, tau);
         if( !same(g, a) ) ex.fail("FracToBound", d + fmt(": %.17g, should be %.17g for x=", g, a) + str(x.r) + " delta=" + str(w.r));
         break;
      }
      case LEAF:     // change one leaf behind the vector's back (but through the interface)
      {
         std::vector<DenseVector*> l;
         leaves(*x.v, l);
         if( l.empty() ) throw mc::Prune();
         int k = ex.choose((int) l.size()), how = ex.choose(4);
         if( l[k]->Dim() == 0 ) throw mc::Prune();
         size_t off = 0;
         for( int i = 0; i < k; ++i ) off += l[i]->Dim();
         d += fmt(" leaf %d how %d", k, how);
         if( how == 0 ) { l[k]->Set(7); for( int i = 0; i < l[k]->Dim(); ++i ) r[off + i] = 7; }
         else if( how == 1 ) { Number* v = l[k]->Values(); v[l[k]->Dim() - 1] = 7; r[off + l[k]->Dim() - 1] = 7; }
         else if( how == 2 ) { V v(l[k]->Dim(), -5); v[0] = 9; l[k]->SetValues(v.data()); for( int i = 0; i < l[k]->Dim(); ++i ) r[off + i] = v[i]; }
         else { l[k]->AddScalar(2); for( int i = 0; i < l[k]->Dim(); ++i ) r[off + i] += 2; }
         break;
      }
      case SETCOMP:
      {
         CompoundVector* c = dynamic_cast<CompoundVector*>(GetRawPtr(x.v));
         if( !c || sp == 5 ) throw mc::Prune();
         int k = ex.choose(c->NComps()), how = ex.choose(2);
         SmartPtr<const VectorSpace> s = static_cast<const CompoundVectorSpace*>(GetRawPtr(c->OwnerSpace()))->GetCompSpace(k);
         SmartPtr<Vector> w = s->MakeNew();
         w->Set(6);
         size_t off = 0;
         for( int i = 0; i < k; ++i ) off += c->GetComp(i)->Dim();
         if( how == 0 ) c->SetCompNonConst(k, *w);
         else { c->SetComp(k, *w); }
         for( int i = 0; i < w->Dim(); ++i ) r[off + i] = 6;
         if( how == 1 )
         {
            // afterwards the component is constant: check now, then give the vector an own component again
            Vec t{x.v, r};
            checkEq(ex, "value", t, d);
            queries(ex, t, y, d);
            SmartPtr<Vector> w2 = w->MakeNewCopy();
            c->SetCompNonConst(k, *w2);
            w->Set(11);      // no longer part of the vector
         }
         d += fmt(" %d how %d", k, how);
         break;
      }
      default: break;
   }
   x.r = r;
   for( double v : r ) if( !std::isfinite(v) ) throw mc::Prune();      // signs of zeros decide here
   return d;
}

static void body(mc::Explorer& ex)
{
   const bool seq = ex.mode == "seq";
   int sp = ex.choose(seq ? 7 : 7);
   int nl;
   {
      SmartPtr<Vector> t = space(sp)->MakeNew();
      std::vector<DenseVector*> l;
      leaves(*t, l);
      nl = (int) l.size();
   }
   int nst = seq ? (nl > 1 ? 2 : ex.thorough ? 5 : 3) : nl == 1 ? 11 : nl == 2 ? (ex.thorough ? 7 : 5) : (ex.thorough ? 4 : 3);
   Vec w[3];
   std::string init;
   for( int k = 0; k < 3; ++k )
   {
      w[k].v = space(sp)->MakeNew();
      std::vector<DenseVector*> l;
      leaves(*w[k].v, l);
      int cnt = k == 2 && (seq || !ex.thorough || nl > 1) ? (seq ? 1 : nl > 1 ? (ex.thorough ? 2 : 1) : 3) : nst;
      for( int i = 0; i < nl; ++i )
      {
         int st = LS[ex.choose(cnt)];
         setLeaf(*l[i], st, i + k);
      }
      w[k].r = get(*w[k].v);
      init += (k == 0 ? " x=" : k == 1 ? " y=" : " z=") + str(w[k].r);
   }
   ex.shardPoint();
   bool pre = ex.choose(2);
   ex.desc = std::string(spname(sp)) + init + (pre ? " queried before" : "");
   if( pre ) { queries(ex, w[0], w[1], ex.desc); queries(ex, w[1], w[2], ex.desc); }
   int depth = seq ? (ex.thorough ? 3 : 2) : 1;
   for( int k = 0; k < depth; ++k )
   {
      std::string d = apply(ex, w[0], w[1], w[2], sp, !seq);
      ex.desc += "; " + d;
      checkEq(ex, "value", w[0], ex.desc);
      checkEq(ex, "operand-changed", w[1], ex.desc + " (operand y)");
      checkEq(ex, "operand-changed", w[2], ex.desc + " (operand z)");
      queries(ex, w[0], w[1], ex.desc);
      if( pre ) queries(ex, w[1], w[2], ex.desc);
   }
   // a copy carries value and remembered results
   SmartPtr<Vector> c = w[0].v->MakeNewCopy();
   Vec cc{c, w[0].r};
   checkEq(ex, "copy", cc, ex.desc);
   queries(ex, cc, w[1], ex.desc + " (copy)");
   c->AddScalar(1);
   checkEq(ex, "copy-shares", w[0], ex.desc + " (changed by its copy)");
   mc::Hash h;
   h.i(sp);
   for( double v : w[0].r ) h.dr(v, 1e-9);
   ex.outcome(h.h);
}

/** operations with results that ignore the old content: x uninitialized or NaN; ranges; repeated components */
static void special(mc::Explorer& ex)
{
   int part = ex.choose(3);
   if( part == 0 )
   {
      int sp = ex.choose(7);
      Vec x, y, z;
      x.v = space(sp)->MakeNew();
      y.v = space(sp)->MakeNew();
      z.v = space(sp)->MakeNew();
      std::vector<DenseVector*> l;
      leaves(*y.v, l);
      for( size_t i = 0; i < l.size(); ++i ) setLeaf(*l[i], LS[ex.choose(7)], (int) i);
      l.clear();
      leaves(*z.v, l);
      for( size_t i = 0; i < l.size(); ++i ) setLeaf(*l[i], LS[ex.choose(4)], (int) i + 1);
      ex.shardPoint();
      y.r = get(*y.v);
      z.r = get(*z.v);
      int content = ex.choose(3);
      if( content == 1 ) { l.clear(); leaves(*x.v, l); for( auto d : l ) if( d->Dim() ) d->Set(NAN); }
      if( content == 2 ) { l.clear(); leaves(*x.v, l); for( auto d : l ) { V v(d->Dim() + 1, NAN); d->SetValues(v.data()); } }
      int op = ex.choose(5);
      double a = SC[ex.choose(4)], b = op == 2 ? SC[ex.choose(4)] : 0;
      bool ua = ex.choose(2);     // operands with factor zero hold NaN
      SmartPtr<Vector> nanv = space(sp)->MakeNew();
      if( content ) nanv->Set(NAN);
      const Vector& yv = ua && a == 0 ? *nanv : *y.v;
      const Vector& zv = ua && b == 0 ? *nanv : *z.v;
      x.r = y.r;
      ex.desc = fmt("%s old content %d op %d a=%g b=%g ua %d y=", spname(sp), content, op, a, b, (int) ua) + str(y.r) + " z=" + str(z.r);
      switch( op )
      {
         case 0: x.v->Copy(*y.v); break;
         case 1: x.v->AddOneVector(a, yv, 0.); for( double& v : x.r ) v *= a; break;
         case 2: x.v->AddTwoVectors(a, yv, b, zv, 0.); for( size_t i = 0; i < x.r.size(); ++i ) x.r[i] = a * y.r[i] + b * z.r[i]; break;
         case 3: for( double v : z.r ) if( v == 0 ) throw mc::Prune(); x.v->AddVectorQuotient(a, *y.v, *z.v, 0.); for( size_t i = 0; i < x.r.size(); ++i ) x.r[i] = a * y.r[i] / z.r[i]; break;
         case 4: x.v->Set(a); for( double& v : x.r ) v = a; break;
      }
      checkEq(ex, "old-content", x, ex.desc);
      queries(ex, x, y, ex.desc);
   }
   else if( part == 1 )
   {
      // ranges
      int n = ex.choose(4), k = ex.choose(n + 1), pos = ex.choose(n - k + 1);
      Vec big, small;
      big.v = D(n)->MakeNew();
      small.v = D(k)->MakeNew();
      setLeaf(static_cast<DenseVector&>(*big.v), LS[ex.choose(7)], 0);
      setLeaf(static_cast<DenseVector&>(*small.v), LS[ex.choose(7)], 1);
      big.r = get(*big.v);
      small.r = get(*small.v);
      ex.desc = fmt("range %d..%d of %d ", pos, pos + k, n) + str(big.r) + str(small.r);
      Vec b2 = big, s2 = small;
      queries(ex, big, b2, ex.desc);
      queries(ex, small, s2, ex.desc);
      if( ex.choose(2) )
      {
         static_cast<DenseVector&>(*big.v).CopyToPos(pos, *small.v);
         for( int i = 0; i < k; ++i ) big.r[pos + i] = small.r[i];
      }
      else
      {
         static_cast<DenseVector&>(*small.v).CopyFromPos(pos, *big.v);
         for( int i = 0; i < k; ++i ) small.r[i] = big.r[pos + i];
      }
      b2 = big;
      s2 = small;
      checkEq(ex, "range", big, ex.desc);
      checkEq(ex, "range", small, ex.desc);
      queries(ex, big, b2, ex.desc);
      queries(ex, small, s2, ex.desc);
      const Number* e = static_cast<const DenseVector&>(*big.v).ExpandedValues();
      for( int i = 0; i < n; ++i ) if( e[i] != big.r[i] ) ex.fail("expanded", ex.desc);
   }
   else
   {
      // one block used twice (as operand and result of queries)
      Vec blk, x, y;
      blk.v = D(2)->MakeNew();
      setLeaf(static_cast<DenseVector&>(*blk.v), LS[ex.choose(9)], 0);
      blk.r = get(*blk.v);
      SmartPtr<CompoundVector> c = static_cast<const CompoundVectorSpace*>(GetRawPtr(space(7)))->MakeNewCompoundVector(false);
      bool nonconst = ex.choose(2);
      for( int i = 0; i < 2; ++i ) { if( nonconst ) c->SetCompNonConst(i, *blk.v); else c->SetComp(i, *blk.v); }
      y.v = GetRawPtr(c);
      y.r = blk.r;
      y.r.insert(y.r.end(), blk.r.begin(), blk.r.end());
      x.v = space(7)->MakeNew();
      std::vector<DenseVector*> l;
      leaves(*x.v, l);
      for( size_t i = 0; i < l.size(); ++i ) setLeaf(*l[i], LS[ex.choose(5)], (int) i);
      x.r = get(*x.v);
      ex.desc = "repeated block " + str(y.r) + " x=" + str(x.r);
      ex.shardPoint();
      if( ex.choose(2) ) queries(ex, y, x, ex.desc);
      if( nonconst && ex.choose(2) ) { c->GetCompNonConst(0)->AddScalar(1); for( double& v : y.r ) v += 1; checkEq(ex, "repeated", y, ex.desc); queries(ex, y, x, ex.desc); }
      std::string d = apply(ex, x, y, y, 5, true);
      ex.desc += "; " + d;
      checkEq(ex, "value", x, ex.desc);
      checkEq(ex, "operand-changed", y, ex.desc);
      queries(ex, x, y, ex.desc);
      queries(ex, y, x, ex.desc);
   }
   mc::Hash h;
   h.s(ex.desc);
   ex.outcome(h.h);
}

int main(int argc, char** argv)
{
   mc::Explorer ex;
   return ex.main(argc, argv, [](mc::Explorer& e) { if( e.mode == "special" ) special(e); else body(e); });
}
