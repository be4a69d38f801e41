// C22: every matrix type and nesting against its explicit dense matrix
#include "mc.hpp"
#include "IpDenseVector.hpp"
#include "IpCompoundVector.hpp"
#include "IpCompoundMatrix.hpp"
#include "IpCompoundSymMatrix.hpp"
#include "IpDenseGenMatrix.hpp"
#include "IpDenseSymMatrix.hpp"
#include "IpDiagMatrix.hpp"
#include "IpExpandedMultiVectorMatrix.hpp"
#include "IpExpansionMatrix.hpp"
#include "IpIdentityMatrix.hpp"
#include "IpLowRankUpdateSymMatrix.hpp"
#include "IpMultiVectorMatrix.hpp"
#include "IpScaledMatrix.hpp"
#include "IpSumMatrix.hpp"
#include "IpSumSymMatrix.hpp"
#include "IpSymScaledMatrix.hpp"
#include "IpTransposeMatrix.hpp"
#include "IpZeroMatrix.hpp"
#include "IpZeroSymMatrix.hpp"
#include "IpGenTMatrix.hpp"
#include "IpSymTMatrix.hpp"
#include "IpTripletHelper.hpp"
using namespace Ipopt;
using mc::fmt;
typedef std::vector<double> V;

struct Shape
{
   int n = 0;
   std::vector<Shape> sub;
   SmartPtr<const VectorSpace> sp;
   bool same(const Shape& o) const { return GetRawPtr(sp) == GetRawPtr(o.sp); }
};
static Shape leaf(int n)
{
   static std::map<int, SmartPtr<DenseVectorSpace>> c;
   if( IsNull(c[n]) ) c[n] = new DenseVectorSpace(n);
   Shape s;
   s.n = n;
   s.sp = GetRawPtr(c[n]);
   return s;
}
static Shape node(std::vector<Shape> sub)
{
   static std::map<std::vector<const VectorSpace*>, SmartPtr<CompoundVectorSpace>> c;
   Shape s;
   std::vector<const VectorSpace*> key;
   for( auto& k : sub ) { s.n += k.n; key.push_back(GetRawPtr(k.sp)); }
   s.sub = sub;
   auto& p = c[key];
   if( IsNull(p) )
   {
      p = new CompoundVectorSpace((Index) sub.size(), s.n);
      for( size_t i = 0; i < sub.size(); ++i ) p->SetCompSpace((Index) i, *sub[i].sp);
   }
   s.sp = GetRawPtr(p);
   return s;
}

static V get(const Vector& v)
{
   V r;
   if( const DenseVector* d = dynamic_cast<const DenseVector*>(&v) )
      for( int i = 0; i < d->Dim(); ++i ) r.push_back(d->IsHomogeneous() ? d->Scalar() : d->Values()[i]);
   else
   {
      const CompoundVector* c = static_cast<const CompoundVector*>(&v);
      for( Index i = 0; i < c->NComps(); ++i ) { V t = get(*c->GetComp(i)); r.insert(r.end(), t.begin(), t.end()); }
   }
   return r;
}
static void put(Vector& v, const double* x)
{
   if( DenseVector* d = dynamic_cast<DenseVector*>(&v) ) d->SetValues(x);
   else
   {
      CompoundVector* c = static_cast<CompoundVector*>(&v);
      for( Index i = 0; i < c->NComps(); ++i ) { SmartPtr<Vector> p = c->GetCompNonConst(i); put(*p, x); x += p->Dim(); }
   }
}
static const double PV[] = {2, -3, 0.5, 1, -0.25, 4, -1, 8, 0, 3, -5};
/** state 0 array, 1 homogeneous, 2 homogeneous zero, 3 mixed (array with zero), 4 NaN */
static SmartPtr<Vector> mkv(const Shape& s, int state, int off)
{
   SmartPtr<Vector> v = s.sp->MakeNew();
   V x(s.n + 1);
   for( int i = 0; i < s.n; ++i ) x[i] = state == 4 ? NAN : state == 3 && i % 2 ? 0 : PV[(i + off) % 8];
   if( state == 1 ) v->Set(-2);
   else if( state == 2 ) v->Set(0);
   else put(*v, x.data());
   return v;
}
/** strictly positive vector */
static SmartPtr<Vector> mkpos(const Shape& s, int state, int off)
{
   SmartPtr<Vector> v = s.sp->MakeNew();
   V x(s.n + 1);
   static const double P[] = {2, 0.5, 4, 1, 0.25, 8};
   for( int i = 0; i < s.n; ++i ) x[i] = P[(i + off) % 6];
   if( state == 1 ) v->Set(4);
   else if( state == 2 ) v->Set(1);
   else put(*v, x.data());
   return v;
}

struct M
{
   SmartPtr<Matrix> m;
   int r = 0, c = 0;
   V d;
   bool sym = false;
   bool notrip = false;    // symmetric matrix as an unsymmetric block: triplet form has one triangle only
   bool dup = false;       // stored entries differ from the matrix entries
   std::string name;
   double& at(int i, int j) { return d[i * c + j]; }
   double at(int i, int j) const { return d[i * c + j]; }
};
static M empty(int r, int c) { M m; m.r = r; m.c = c; m.d.assign(r * c, 0.); return m; }
static std::string str(const V& v) { std::string s = "("; for( double d : v ) s += fmt(" %.17g", d); return s + " )"; }

static int g_off;      // varies values over the leaves of one matrix
static bool g_nan;     // put a NaN into the next leaf that stores numbers
static double val() { return PV[g_off++ % 11]; }
static double valnz() { double v = PV[g_off++ % 8]; return v; }

static bool hasSymLeaf(const std::string& n) { return n.find("SymT") != std::string::npos || n.find("DenseSym") != std::string::npos || n.find("LowRank") != std::string::npos; }
static M build(mc::Explorer& ex, const Shape& R, const Shape& C, int depth, bool sym, int lvl);

static M leafGen(mc::Explorer& ex, const Shape& R, const Shape& C, int kind, int lvl)
{
   const bool rich = lvl == 2;
   M m = empty(R.n, C.n);
   if( kind == 0 )
   {
      m.name = "GenT";
      std::vector<Index> ir, jc;
      int cells = R.n * C.n;
      int pat = cells == 0 ? 0 : rich && cells <= 4 ? ex.choose(1 << cells) + 100 : ex.choose(rich ? 5 : 1 + std::max(0, lvl));
      for( int k = 0; k < cells; ++k )
      {
         int i = k / C.n, j = k % C.n;
         bool in = pat >= 100 ? ((pat - 100) >> k) & 1 : pat == 0 ? true : pat == 1 ? (i + j) % 2 == 0 : pat == 2 ? false : pat == 3 ? true : i <= j;
         if( in ) { ir.push_back(i + 1); jc.push_back(j + 1); }
      }
      if( pat == 3 ) { std::reverse(ir.begin(), ir.end()); std::reverse(jc.begin(), jc.end()); ir.push_back(ir[0]); jc.push_back(jc[0]); m.dup = true; }
      SmartPtr<GenTMatrixSpace> sp = new GenTMatrixSpace(R.n, C.n, (Index) ir.size(), ir.data(), jc.data());
      SmartPtr<GenTMatrix> t = sp->MakeNewGenTMatrix();
      V v(ir.size() + 1);
      for( size_t k = 0; k < ir.size(); ++k ) { v[k] = val(); m.at(ir[k] - 1, jc[k] - 1) += v[k]; }
      if( g_nan && !ir.empty() ) { v[ir.size() - 1] = NAN; m.at(ir.back() - 1, jc.back() - 1) = NAN; g_nan = false; }
      t->SetValues(v.data());
      m.m = GetRawPtr(t);
   }
   else if( kind == 1 )
   {
      m.name = "DenseGen";
      SmartPtr<DenseGenMatrixSpace> sp = new DenseGenMatrixSpace(R.n, C.n);
      SmartPtr<DenseGenMatrix> t = sp->MakeNewDenseGenMatrix();
      for( int i = 0; i < R.n; ++i ) for( int j = 0; j < C.n; ++j ) t->Values()[i + j * R.n] = m.at(i, j) = val();
      if( g_nan && R.n * C.n ) { t->Values()[0] = m.at(0, 0) = NAN; g_nan = false; }
      t->Values();
      m.m = GetRawPtr(t);
   }
   else if( kind == 2 )
   {
      m.name = "MultiVector";
      SmartPtr<MultiVectorMatrixSpace> sp = new MultiVectorMatrixSpace(C.n, *R.sp);
      SmartPtr<MultiVectorMatrix> t = sp->MakeNewMultiVectorMatrix();
      for( int j = 0; j < C.n; ++j )
      {
         SmartPtr<Vector> v = mkv(R, ex.choose(rich ? 3 : 1), g_off++);
         if( g_nan && R.n ) { v->Set(NAN); g_nan = false; }
         V x = get(*v);
         for( int i = 0; i < R.n; ++i ) m.at(i, j) = x[i];
         if( j % 2 ) t->SetVector(j, *v); else t->SetVectorNonConst(j, *v);
      }
      m.m = GetRawPtr(t);
   }
   else if( kind == 3 || kind == 4 )
   {
      m.name = "ExpandedMultiVector";
      // rows in a space of dimension k <= C.n, expanded
      int k = kind == 3 ? C.n : ex.choose(C.n + 1);
      SmartPtr<ExpansionMatrix> P;
      std::vector<int> pos(C.n + 1);
      for( int i = 0; i < C.n; ++i ) pos[i] = i;
      if( kind == 4 )
      {
         m.name += " expanded";
         // every increasing injection
         std::vector<std::vector<int>> inj;
         for( int mask = 0; mask < 1 << C.n; ++mask ) if( __builtin_popcount(mask) == k ) { std::vector<int> p; for( int i = 0; i < C.n; ++i ) if( mask >> i & 1 ) p.push_back(i); inj.push_back(p); }
         pos = inj[rich ? ex.choose((int) inj.size()) : inj.size() - 1];
         pos.push_back(0);
         SmartPtr<ExpansionMatrixSpace> ps = new ExpansionMatrixSpace(C.n, k, pos.data());
         P = ps->MakeNewExpansionMatrix();
      }
      Shape K = kind == 3 ? C : leaf(k);
      SmartPtr<ExpandedMultiVectorMatrixSpace> sp = new ExpandedMultiVectorMatrixSpace(R.n, *K.sp, ConstPtr(P));
      SmartPtr<ExpandedMultiVectorMatrix> t = sp->MakeNewExpandedMultiVectorMatrix();
      for( int i = 0; i < R.n; ++i )
      {
         int st = ex.choose(rich ? 3 : 2);
         if( st == 1 ) continue;   // row not set: zero
         SmartPtr<Vector> v = mkv(K, st == 2 ? 1 : 0, g_off++);
         if( g_nan && k ) { v->Set(NAN); g_nan = false; }
         V x = get(*v);
         for( int j = 0; j < k; ++j ) m.at(i, pos[j]) = x[j];
         t->SetVector(i, ConstPtr(v));
      }
      m.m = GetRawPtr(t);
   }
   else if( kind == 5 || kind == 6 )
   {
      bool tr = kind == 6;
      int big = tr ? C.n : R.n, small = tr ? R.n : C.n;
      if( small > big ) throw mc::Prune();
      // every injection (not necessarily increasing)
      std::vector<int> pos(small + 1, 0);
      std::set<int> used;
      for( int i = 0; i < small; ++i )
      {
         std::vector<int> f;
         for( int k = 0; k < big; ++k ) if( !used.count(k) ) f.push_back(k);
         pos[i] = f[rich ? ex.choose((int) f.size()) : f.size() - 1];
         used.insert(pos[i]);
      }
      int off = rich ? ex.choose(2) : 0;
      for( int i = 0; i < small; ++i ) { if( tr ) m.at(i, pos[i]) = 1; else m.at(pos[i], i) = 1; }
      for( int i = 0; i < small; ++i ) pos[i] += off;
      SmartPtr<ExpansionMatrixSpace> sp = new ExpansionMatrixSpace(big, small, pos.data(), off);
      if( !tr ) { m.name = "Expansion"; m.m = sp->MakeNewExpansionMatrix(); }
      else
      {
         m.name = "Transpose Expansion";
         SmartPtr<TransposeMatrixSpace> ts = new TransposeMatrixSpace(GetRawPtr(sp));
         m.m = ts->MakeNewTransposeMatrix();
      }
   }
   return m;
}
static M leafSym(mc::Explorer& ex, const Shape& R, int kind, int lvl)
{
   const bool rich = lvl == 2;
   int n = R.n;
   M m = empty(n, n);
   m.sym = true;
   if( kind == 0 )
   {
      m.name = "SymT";
      std::vector<Index> ir, jc;
      int cells = n * (n + 1) / 2;
      int pat = cells == 0 ? 0 : rich && cells <= 3 ? ex.choose(1 << (2 * cells)) + 100 : ex.choose(rich ? 4 : 1 + std::max(0, lvl));
      int k = 0;
      for( int i = 0; i < n; ++i ) for( int j = 0; j <= i; ++j, ++k )
      {
         // per cell: absent, lower, upper, both (only off the diagonal)
         int w = pat >= 100 ? ((pat - 100) >> (2 * k)) & 3 : pat == 0 ? 1 : pat == 1 ? (i == j ? 1 : 2) : pat == 2 ? 3 : (i + j) % 2;
         if( i == j && w == 2 ) { if( pat >= 100 ) throw mc::Prune(); w = 1; }
         if( w & 1 ) { ir.push_back(i + 1); jc.push_back(j + 1); }
         if( w & 2 ) { ir.push_back(j + 1); jc.push_back(i + 1); }
         if( w == 3 ) m.dup = true;
      }
      SmartPtr<SymTMatrixSpace> sp = new SymTMatrixSpace(n, (Index) ir.size(), ir.data(), jc.data());
      SmartPtr<SymTMatrix> t = sp->MakeNewSymTMatrix();
      V v(ir.size() + 1);
      for( size_t q = 0; q < ir.size(); ++q )
      {
         v[q] = val();
         m.at(ir[q] - 1, jc[q] - 1) += v[q];
         if( ir[q] != jc[q] ) m.at(jc[q] - 1, ir[q] - 1) += v[q];
      }
      if( g_nan && !ir.empty() ) { v[ir.size() - 1] = NAN; m.at(ir.back() - 1, jc.back() - 1) = m.at(jc.back() - 1, ir.back() - 1) = NAN; g_nan = false; }
      t->SetValues(v.data());
      m.m = GetRawPtr(t);
   }
   else if( kind == 1 )
   {
      m.name = "DenseSym";
      SmartPtr<DenseSymMatrixSpace> sp = new DenseSymMatrixSpace(n);
      SmartPtr<DenseSymMatrix> t = sp->MakeNewDenseSymMatrix();
      for( int j = 0; j < n; ++j ) for( int i = 0; i < n; ++i )
         if( i >= j ) { t->Values()[i + j * n] = m.at(i, j) = m.at(j, i) = val(); }
         else t->Values()[i + j * n] = 777;      // only the lower triangle counts
      if( g_nan && n ) { t->Values()[n - 1] = m.at(n - 1, 0) = m.at(0, n - 1) = NAN; g_nan = false; }
      t->Values();
      m.m = GetRawPtr(t);
   }
   else if( kind == 2 )
   {
      m.name = "Diag";
      SmartPtr<DiagMatrixSpace> sp = new DiagMatrixSpace(n);
      SmartPtr<DiagMatrix> t = sp->MakeNewDiagMatrix();
      SmartPtr<Vector> v = mkv(R, ex.choose(rich ? 4 : 1), g_off++);
      if( g_nan && n ) { v->Set(NAN); g_nan = false; }
      V x = get(*v);
      for( int i = 0; i < n; ++i ) m.at(i, i) = x[i];
      t->SetDiag(*v);
      m.m = GetRawPtr(t);
   }
   else if( kind == 3 )
   {
      m.name = "Identity";
      SmartPtr<IdentityMatrixSpace> sp = new IdentityMatrixSpace(n);
      SmartPtr<IdentityMatrix> t = sp->MakeNewIdentityMatrix();
      double f = rich ? ex.of({1., -1., 0., 2.5}) : valnz();
      if( g_nan && n ) { f = NAN; g_nan = false; }
      t->SetFactor(f);
      for( int i = 0; i < n; ++i ) m.at(i, i) = f;
      m.m = GetRawPtr(t);
   }
   else if( kind == 4 )
   {
      m.name = "ZeroSym";
      SmartPtr<ZeroSymMatrixSpace> sp = new ZeroSymMatrixSpace(n);
      m.m = sp->MakeNewZeroSymMatrix();
   }
   else
   {
      // low rank update: D + V V^T - U U^T, or P (D + V V^T - U U^T) P^T, or D + P (V V^T - U U^T) P^T
      m.name = "LowRankUpdate";
      int form = R.sub.empty() ? ex.choose(rich ? 3 : 2) : 0;
      int k = n;
      SmartPtr<ExpansionMatrix> P;
      std::vector<int> pos;
      for( int i = 0; i < n; ++i ) pos.push_back(i);
      if( form )
      {
         int mask = rich ? ex.choose(1 << n) : n ? 1 : 0;
         pos.clear();
         for( int i = 0; i < n; ++i ) if( mask >> i & 1 ) pos.push_back(i);
         k = (int) pos.size();
         std::vector<int> q(pos);
         q.push_back(0);
         SmartPtr<ExpansionMatrixSpace> ps = new ExpansionMatrixSpace(n, k, q.data());
         P = ps->MakeNewExpansionMatrix();
         m.name += form == 1 ? " reduced" : " full diagonal";
      }
      Shape K = form ? leaf(k) : R;
      SmartPtr<LowRankUpdateSymMatrixSpace> sp = new LowRankUpdateSymMatrixSpace(n, GetRawPtr(P), K.sp, form == 1);
      SmartPtr<LowRankUpdateSymMatrix> t = sp->MakeNewLowRankUpdateSymMatrix();
      SmartPtr<Vector> D = mkv(form == 1 ? K : R, rich ? ex.choose(2) : 0, g_off++);
      if( g_nan && D->Dim() ) { D->Set(NAN); g_nan = false; }
      V x = get(*D);
      if( form == 1 ) for( int i = 0; i < k; ++i ) m.at(pos[i], pos[i]) = x[i];
      else for( int i = 0; i < n; ++i ) m.at(i, i) = x[i];
      t->SetDiag(*D);
      int nv = rich ? ex.choose(3) : 1, nu = ex.choose(rich ? 3 : 2);
      for( int w = 0; w < 2; ++w )
      {
         int cnt = w ? nu : nv;
         if( cnt == 0 ) continue;
         SmartPtr<MultiVectorMatrixSpace> ms = new MultiVectorMatrixSpace(cnt, *K.sp);
         SmartPtr<MultiVectorMatrix> mv = ms->MakeNewMultiVectorMatrix();
         for( int q = 0; q < cnt; ++q )
         {
            SmartPtr<Vector> v = mkv(K, q == 1 ? 1 : 0, g_off++);
            V y = get(*v);
            for( int i = 0; i < k; ++i ) for( int j = 0; j < k; ++j ) m.at(pos[i], pos[j]) += (w ? -1 : 1) * y[i] * y[j];
            mv->SetVector(q, *v);
         }
         if( w ) t->SetU(*mv); else t->SetV(*mv);
      }
      m.m = GetRawPtr(t);
   }
   return m;
}

/** lvl 2: everything, 1: fewer leaves, 0: very few */
static M build(mc::Explorer& ex, const Shape& R, const Shape& C, int depth, bool sym, int lvl)
{
   const bool rich = lvl == 2;
   const int below = lvl == 2 ? 1 : lvl == 1 ? 0 : -1;
   const bool leaves = R.sub.empty() && C.sub.empty(), square = R.same(C);
   // kinds: 0..6 general leaves, 10..15 symmetric leaves, 20.. wrappers
   std::vector<int> kinds;
   if( leaves && !sym ) for( int k : {0, 1, 2, 3, 4, 5, 6} ) if( (k != 4 || C.n > 0) && (k != 1 || R.n * C.n > 0) && (rich || k == 0 || (lvl > 0 && (k == 1 || k == 5))) ) kinds.push_back(k);
   if( square && leaves ) for( int k : {10, 11, 12, 13, 14, 15} ) if( (lvl <= 0 ? k == 13 || (sym && k == 10) : sym || rich || k == 10 || k == 13) && (k != 11 || R.n > 0) ) kinds.push_back(k);
   if( square && !leaves && lvl <= 0 ) kinds.push_back(13);
   if( square && !leaves && lvl > 0 ) { kinds.push_back(12); kinds.push_back(13); kinds.push_back(14); if( rich ) kinds.push_back(15); }
   if( !sym ) kinds.push_back(20);                                       // Zero
   if( !sym && !R.sub.empty() && C.sub.empty() && rich ) kinds.push_back(2);       // MultiVector of compound vectors
   if( !sym && R.sub.empty() && !C.sub.empty() && rich ) kinds.push_back(3);
   if( !sym && (!R.sub.empty() || !C.sub.empty()) ) kinds.push_back(24);  // Compound
   if( sym && !R.sub.empty() ) kinds.push_back(25);                      // CompoundSym
   if( depth > 0 && lvl > 0 )
   {
      if( !sym ) { kinds.push_back(21); kinds.push_back(22); kinds.push_back(23); }   // Transpose, Scaled, Sum
      if( sym ) { kinds.push_back(26); kinds.push_back(27); }                         // SymScaled, SumSym
   }
   int kind = lvl < 0 ? kinds[0] : kinds[ex.choose((int) kinds.size())];
   if( kind < 10 ) return leafGen(ex, R, C, kind, lvl);
   if( kind < 20 ) return leafSym(ex, R, kind - 10, lvl);
   M m = empty(R.n, C.n);
   switch( kind )
   {
      case 20:
      {
         m.name = "Zero";
         SmartPtr<ZeroMatrixSpace> sp = new ZeroMatrixSpace(R.n, C.n);
         m.m = sp->MakeNewZeroMatrix();
         break;
      }
      case 21:
      {
         M a = build(ex, C, R, depth - 1, false, below);
         // TransposeMatrix creates its own matrix from the space; only usable when we can fill it
         SmartPtr<TransposeMatrixSpace> sp = new TransposeMatrixSpace(GetRawPtr(a.m->OwnerSpace()));
         SmartPtr<TransposeMatrix> t = sp->MakeNewTransposeMatrix();
         SmartPtr<const Matrix> o = t->OrigMatrix();
         Matrix* om = const_cast<Matrix*>(GetRawPtr(o));
         if( GenTMatrix* g = dynamic_cast<GenTMatrix*>(om) ) { V v(g->Nonzeros() + 1); const GenTMatrix* s = static_cast<const GenTMatrix*>(GetRawPtr(a.m)); for( int k = 0; k < g->Nonzeros(); ++k ) v[k] = s->Values()[k]; g->SetValues(v.data()); }
         else if( SymTMatrix* g2 = dynamic_cast<SymTMatrix*>(om) ) { V v(g2->Nonzeros() + 1); const SymTMatrix* s = static_cast<const SymTMatrix*>(GetRawPtr(a.m)); for( int k = 0; k < g2->Nonzeros(); ++k ) v[k] = s->Values()[k]; g2->SetValues(v.data()); }
         else if( DenseGenMatrix* g3 = dynamic_cast<DenseGenMatrix*>(om) ) g3->Copy(*static_cast<const DenseGenMatrix*>(GetRawPtr(a.m)));
         else if( IdentityMatrix* g4 = dynamic_cast<IdentityMatrix*>(om) ) g4->SetFactor(static_cast<const IdentityMatrix*>(GetRawPtr(a.m))->GetFactor());
         else if( !dynamic_cast<ExpansionMatrix*>(om) && !dynamic_cast<ZeroMatrix*>(om) ) throw mc::Prune();
         for( int i = 0; i < R.n; ++i ) for( int j = 0; j < C.n; ++j ) m.at(i, j) = a.at(j, i);
         m.name = "Transpose{" + a.name + "}";
         m.dup = a.dup;
         m.notrip = a.notrip;
         m.m = GetRawPtr(t);
         break;
      }
      case 22:
      {
         M a = build(ex, R, C, depth - 1, false, below);
         int rs = ex.choose(4), cs = ex.choose(3);      // none, array, reciprocal (, homogeneous)
         SmartPtr<Vector> r = rs ? mkpos(R, rs == 3 ? 1 : 0, g_off) : nullptr, c = cs ? mkpos(C, 0, g_off + 1) : nullptr;
         V rv = rs ? get(*r) : V(R.n, 1.), cv = cs ? get(*c) : V(C.n, 1.);
         if( rs == 2 ) for( double& v : rv ) v = 1 / v;
         if( cs == 2 ) for( double& v : cv ) v = 1 / v;
         SmartPtr<ScaledMatrixSpace> sp = new ScaledMatrixSpace(ConstPtr(r), rs == 2, a.m->OwnerSpace(), ConstPtr(c), cs == 2);
         SmartPtr<ScaledMatrix> t = sp->MakeNewScaledMatrix();
         if( ex.choose(2) ) t->SetUnscaledMatrix(ConstPtr(a.m)); else t->SetUnscaledMatrixNonConst(a.m);
         for( int i = 0; i < R.n; ++i ) for( int j = 0; j < C.n; ++j ) m.at(i, j) = rv[i] * a.at(i, j) * cv[j];
         m.name = fmt("Scaled(%d,%d){", rs, cs) + a.name + "}";
         m.dup = a.dup;
         m.notrip = a.notrip;
         m.m = GetRawPtr(t);
         break;
      }
      case 23:
      case 27:
      {
         bool s = kind == 27;
         M a = build(ex, R, C, depth - 1, s, below), b = build(ex, R, C, 0, s, 0);
         double f1 = ex.of({1., 0.5, 0.}), f2 = ex.of({-1., 2.});
         for( int i = 0; i < R.n; ++i ) for( int j = 0; j < C.n; ++j ) m.at(i, j) = (f1 == 0 ? 0 : f1 * a.at(i, j)) + f2 * b.at(i, j);
         if( s )
         {
            SmartPtr<SumSymMatrixSpace> sp = new SumSymMatrixSpace(R.n, 2);
            sp->SetTermSpace(0, *static_cast<const SymMatrixSpace*>(GetRawPtr(a.m->OwnerSpace())));
            sp->SetTermSpace(1, *static_cast<const SymMatrixSpace*>(GetRawPtr(b.m->OwnerSpace())));
            SmartPtr<SumSymMatrix> t = sp->MakeNewSumSymMatrix();
            t->SetTerm(0, f1, *static_cast<SymMatrix*>(GetRawPtr(a.m)));
            t->SetTerm(1, f2, *static_cast<SymMatrix*>(GetRawPtr(b.m)));
            m.m = GetRawPtr(t);
            m.sym = true;
         }
         else
         {
            SmartPtr<SumMatrixSpace> sp = new SumMatrixSpace(R.n, C.n, 2);
            sp->SetTermSpace(0, *a.m->OwnerSpace());
            sp->SetTermSpace(1, *b.m->OwnerSpace());
            SmartPtr<SumMatrix> t = sp->MakeNewSumMatrix();
            t->SetTerm(0, f1, *a.m);
            t->SetTerm(1, f2, *b.m);
            m.m = GetRawPtr(t);
         }
         m.dup = true;
         m.notrip = a.notrip || b.notrip;
         m.name = fmt("Sum(%g,%g){", f1, f2) + a.name + "," + b.name + "}";
         break;
      }
      case 24:
      {
         std::vector<Shape> rs = R.sub, cs = C.sub;
         if( rs.empty() ) rs = {R};
         if( cs.empty() ) cs = {C};
         int nr = (int) rs.size(), nc = (int) cs.size();
         SmartPtr<CompoundMatrixSpace> sp = new CompoundMatrixSpace(nr, nc, R.n, C.n);
         for( int i = 0; i < nr; ++i ) sp->SetBlockRows(i, rs[i].n);
         for( int j = 0; j < nc; ++j ) sp->SetBlockCols(j, cs[j].n);
         std::vector<M> blk(nr * nc);
         std::vector<int> how(nr * nc, 0);
         m.name = "Compound{";
         int ro = 0;
         for( int i = 0; i < nr; ++i )
         {
            int co = 0;
            for( int j = 0; j < nc; ++j )
            {
               how[i * nc + j] = lvl > 0 ? ex.choose(2) : (i * j) % 2;
               if( how[i * nc + j] == 0 )
               {
                  M& b = blk[i * nc + j];
                  b = build(ex, rs[i], cs[j], rs[i].sub.empty() && cs[j].sub.empty() ? std::max(depth - 1, 0) : depth, false, nr * nc > 2 ? std::min(0, below) : below);
                  for( int p = 0; p < b.r; ++p ) for( int q = 0; q < b.c; ++q ) m.at(ro + p, co + q) = b.at(p, q);
                  sp->SetCompSpace(i, j, *b.m->OwnerSpace(), false);
                  m.dup |= b.dup;
                  m.name += b.name + " ";
               }
               else m.name += "- ";
               co += cs[j].n;
            }
            ro += rs[i].n;
         }
         m.name += "}";
         SmartPtr<CompoundMatrix> t = sp->MakeNewCompoundMatrix();
         for( int i = 0; i < nr; ++i ) for( int j = 0; j < nc; ++j ) if( how[i * nc + j] == 0 ) { if( (i + j) % 2 ) t->SetComp(i, j, *blk[i * nc + j].m); else t->SetCompNonConst(i, j, *blk[i * nc + j].m); }
         m.m = GetRawPtr(t);
         break;
      }
      case 25:
      {
         int nb = (int) R.sub.size();
         SmartPtr<CompoundSymMatrixSpace> sp = new CompoundSymMatrixSpace(nb, R.n);
         for( int i = 0; i < nb; ++i ) sp->SetBlockDim(i, R.sub[i].n);
         std::vector<M> blk(nb * nb);
         std::vector<int> how(nb * nb, 1);
         m.name = "CompoundSym{";
         m.sym = true;
         int ro = 0;
         for( int i = 0; i < nb; ++i )
         {
            int co = 0;
            for( int j = 0; j <= i; ++j )
            {
               how[i * nb + j] = lvl > 0 ? ex.choose(2) : (i + 2 * j) % 3 == 2;
               if( how[i * nb + j] == 0 )
               {
                  M& b = blk[i * nb + j];
                  b = build(ex, R.sub[i], R.sub[j], i == j ? depth - 1 : 0, i == j, nb > 2 || i != j ? std::min(0, below) : below);
                  for( int p = 0; p < b.r; ++p ) for( int q = 0; q < b.c; ++q ) m.at(ro + p, co + q) = m.at(co + q, ro + p) = b.at(p, q);
                  sp->SetCompSpace(i, j, *b.m->OwnerSpace(), false);
                  m.dup |= b.dup;
                  m.notrip |= b.notrip || (i != j && hasSymLeaf(b.name));
                  m.name += b.name + " ";
               }
               else m.name += "- ";
               co += R.sub[j].n;
            }
            ro += R.sub[i].n;
         }
         m.name += "}";
         SmartPtr<CompoundSymMatrix> t = sp->MakeNewCompoundSymMatrix();
         for( int i = 0; i < nb; ++i ) for( int j = 0; j <= i; ++j ) if( how[i * nb + j] == 0 ) { if( (i + j) % 2 ) t->SetComp(i, j, *blk[i * nb + j].m); else t->SetCompNonConst(i, j, *blk[i * nb + j].m); }
         m.m = GetRawPtr(t);
         break;
      }
      case 26:
      {
         M a = build(ex, R, C, depth - 1, true, below);
         int rs = 1 + ex.choose(3);
         SmartPtr<Vector> r = rs ? mkpos(R, rs == 3 ? 1 : 0, g_off) : nullptr;
         V rv = rs ? get(*r) : V(R.n, 1.);
         if( rs == 2 ) for( double& v : rv ) v = 1 / v;
         SmartPtr<SymScaledMatrixSpace> sp = new SymScaledMatrixSpace(ConstPtr(r), rs == 2, static_cast<const SymMatrixSpace*>(GetRawPtr(a.m->OwnerSpace())));
         SmartPtr<SymScaledMatrix> t = sp->MakeNewSymScaledMatrix();
         SymMatrix* sm = static_cast<SymMatrix*>(GetRawPtr(a.m));
         if( ex.choose(2) ) t->SetUnscaledMatrix(sm); else t->SetUnscaledMatrixNonConst(sm);
         for( int i = 0; i < R.n; ++i ) for( int j = 0; j < R.n; ++j ) m.at(i, j) = rv[i] * a.at(i, j) * rv[j];
         m.name = fmt("SymScaled(%d){", rs) + a.name + "}";
         m.dup = a.dup;
         m.notrip = a.notrip;
         m.sym = true;
         m.m = GetRawPtr(t);
         break;
      }
   }
   return m;
}

static bool close(double a, double b, double scale) { return a == b || std::fabs(a - b) <= 1e-12 * std::max(1., scale); }
static void cmp(mc::Explorer& ex, const char* key, const V& got, const V& want, double scale, const std::string& what)
{
   for( size_t i = 0; i < want.size(); ++i )
      if( !close(got[i], want[i], scale) ) ex.fail(key, what + " gives " + str(got) + ", should be " + str(want));
}


/** Every operation on one matrix. */
static void verify(mc::Explorer& ex, const M& m, const Shape& R, const Shape& C, bool nanIn)
{
   std::string dn = m.name + fmt(" %dx%d ", m.r, m.c) + str(m.d);
   if( (int) m.m->NRows() != m.r || (int) m.m->NCols() != m.c ) ex.fail("dimension", dn);
   const bool fin = !nanIn;
   if( m.m->HasValidNumbers() != fin ) ex.fail("valid", dn + ": HasValidNumbers is wrong");
   if( m.m->HasValidNumbers() != fin ) ex.fail("valid", dn + ": HasValidNumbers is wrong at second time");
   if( nanIn ) return;
   static const double AL[] = {1, 0, -0.5}, BE[] = {0, 1, -2};
   for( int tr = 0; tr < 2; ++tr )
   {
      const Shape& X = tr ? R : C;
      const Shape& Y = tr ? C : R;
      for( int a = 0; a < 3; ++a )
         for( int b = 0; b < 3; ++b )
            for( int xs = 0; xs < 3; ++xs )
               for( int ys = 0; ys < 3; ++ys )
               {
                  SmartPtr<Vector> x = mkv(X, xs, 1), y = ys == 2 && b > 0 ? mkv(Y, 3, 3) : mkv(Y, ys == 2 ? 4 : ys, 3);
                  V xv = get(*x), yv = get(*y), w(Y.n);
                  for( int i = 0; i < Y.n; ++i )
                  {
                     double s = 0;
                     for( int j = 0; j < X.n; ++j ) s += (tr ? m.at(j, i) : m.at(i, j)) * xv[j];
                     w[i] = (AL[a] == 0 ? 0 : AL[a] * s) + (BE[b] == 0 ? 0 : BE[b] * yv[i]);
                  }
                  if( tr ) m.m->TransMultVector(AL[a], *x, BE[b], *y);
                  else m.m->MultVector(AL[a], *x, BE[b], *y);
                  cmp(ex, tr ? "transmult" : "mult", get(*y), w, 100, dn + fmt(" %s alpha %g beta %g x %s y(old) %s:", tr ? "^T" : "", AL[a], BE[b], str(xv).c_str(), str(yv).c_str()));
                  cmp(ex, "operand", get(*x), xv, 1, dn);
               }
   }
   // X = X + alpha M S^-1 Z
   for( double al : {1., -2., 0.} )
      for( int ss = 0; ss < 3; ++ss )
         for( int st = 0; st < 6; ++st )
         {
            SmartPtr<Vector> s = mkpos(C, ss, 2), z = mkv(C, st % 3, 1), x = mkv(R, st / 3, 4);
            V sv = get(*s), zv = get(*z), xv = get(*x), w(xv);
            for( int i = 0; i < R.n; ++i ) for( int j = 0; j < C.n; ++j ) w[i] += al * m.at(i, j) * zv[j] / sv[j];
            m.m->AddMSinvZ(al, *s, *z, *x);
            cmp(ex, "addmsinvz", get(*x), w, 100, dn + fmt(" AddMSinvZ alpha %g S %s Z %s X %s:", al, str(sv).c_str(), str(zv).c_str(), str(xv).c_str()));
         }
   // X = S^-1 (R + alpha Z M^T D)
   for( double al : {1., -2., -1., 0.} )
      for( int st = 0; st < 3; ++st )
         for( int q = 0; q < 4; ++q )
         {
            SmartPtr<Vector> s = mkpos(C, q == 1 ? 1 : 0, 2), r = mkv(C, q == 2 ? st : q & 1, 5), z = mkv(C, st, 1), d = mkv(R, q == 3 ? 1 : st == 2 ? 0 : st, 3), x = mkv(C, 4, 0);
            V sv = get(*s), rv = get(*r), zv = get(*z), dv = get(*d), w(C.n);
            for( int j = 0; j < C.n; ++j )
            {
               double t = 0;
               for( int i = 0; i < R.n; ++i ) t += m.at(i, j) * dv[i];
               w[j] = (rv[j] + al * zv[j] * t) / sv[j];
            }
            m.m->SinvBlrmZMTdBr(al, *s, *r, *z, *d, *x);
            cmp(ex, "sinvblrm", get(*x), w, 100, dn + fmt(" SinvBlrmZMTdBr alpha %g S %s R %s Z %s D %s:", al, str(sv).c_str(), str(rv).c_str(), str(zv).c_str(), str(dv).c_str()));
         }
   if( !m.dup )
      for( int rc = 0; rc < 2; ++rc )
         for( int init = 0; init < 3; ++init )
         {
            const Shape& Y = rc ? C : R;
            SmartPtr<Vector> y = init ? mkv(Y, 4, 0) : mkpos(Y, 0, 0);
            if( init == 2 ) y->Set(1.);
            V w = init == 0 ? get(*y) : V(Y.n, init == 2 ? 1. : 0.);
            for( int i = 0; i < R.n; ++i ) for( int j = 0; j < C.n; ++j ) { double& t = w[rc ? j : i]; t = std::max(t, std::fabs(m.at(i, j))); }
            try
            {
               if( rc ) m.m->ComputeColAMax(*y, init == 1); else m.m->ComputeRowAMax(*y, init == 1);
               cmp(ex, rc ? "colamax" : "rowamax", get(*y), w, 1, dn + fmt(" max norms of %s, initialize %d:", rc ? "columns" : "rows", init == 1));
            }
            catch( UNIMPLEMENTED_LINALG_METHOD_CALLED& ) {}
         }
   // triplet form; a symmetric matrix inside of an unsymmetric one is given by one triangle only
   if( m.notrip || (!m.sym && hasSymLeaf(m.name)) ) return;
   for( int off = 0; off < 2; ++off )
   {
      try
      {
         int ro = off ? 5 : 0, co = off ? 9 : 0;
         Index nz = TripletHelper::GetNumberEntries(*m.m);
         std::vector<Index> ir(nz + 1, -77), jc(nz + 1, -77);
         V v(nz + 1, NAN);
         TripletHelper::FillRowCol(nz, *m.m, ir.data(), jc.data(), ro, co);
         TripletHelper::FillValues(nz, *m.m, v.data());
         if( ir[nz] != -77 || jc[nz] != -77 || !std::isnan(v[nz]) ) ex.fail("triplet", dn + " writes beyond the announced number of entries");
         V d(m.d.size(), 0.);
         for( int k = 0; k < nz; ++k )
         {
            int i = ir[k] - 1 - ro, j = jc[k] - 1 - co;
            if( i < 0 || j < 0 || i >= m.r || j >= m.c ) ex.fail("triplet", dn + fmt(" entry %d at (%d,%d)", k, i, j));
            d[i * m.c + j] += v[k];
            if( m.sym && i != j ) d[j * m.c + i] += v[k];
         }
         cmp(ex, "triplet", d, m.d, 10, dn + " triplet form");
      }
      catch( UNKNOWN_MATRIX_TYPE& ) {}
      catch( UNKNOWN_VECTOR_TYPE& ) {}
   }
}


static std::vector<std::pair<Shape, Shape>> genShapes(bool thorough)
{
   std::vector<std::pair<Shape, Shape>> s;
   for( int r = 0; r < 4; ++r ) for( int c = 0; c < 4; ++c ) s.push_back({leaf(r), leaf(c)});
   s.push_back({node({leaf(1), leaf(2)}), leaf(2)});
   s.push_back({leaf(2), node({leaf(2), leaf(0)})});
   s.push_back({node({leaf(2), leaf(1)}), node({leaf(2), leaf(2)})});
   s.push_back({node({leaf(2), leaf(1)}), node({leaf(2), leaf(1)})});
   s.push_back({node({leaf(0), leaf(1)}), node({leaf(1), leaf(0)})});
   if( thorough )
   {
      s.push_back({node({leaf(1), leaf(1), leaf(1)}), node({leaf(2), leaf(1)})});
      s.push_back({node({node({leaf(1), leaf(1)}), leaf(1)}), node({leaf(1), leaf(2)})});
   }
   return s;
}

static void body(mc::Explorer& ex)
{
   const bool sym = ex.mode == "sym";
   M m;
   Shape R, C;
   if( sym )
   {
      std::vector<Shape> s = {leaf(0), leaf(1), leaf(2), leaf(3), node({leaf(1), leaf(2)}), node({leaf(2), leaf(2)}), node({leaf(2), leaf(0)}), node({leaf(1), leaf(1), leaf(1)})};
      R = C = s[ex.choose((int) s.size() - (ex.thorough ? 0 : 1))];
   }
   else
   {
      auto s = genShapes(ex.thorough);
      auto p = s[ex.choose((int) s.size())];
      R = p.first;
      C = p.second;
   }
   bool wantNan = ex.choose(2);
   const bool deep = ex.thorough && R.sub.empty() && C.sub.empty() && R.n <= 2 && C.n <= 2;
   g_off = wantNan || !ex.thorough || deep ? 0 : ex.choose(2);
   g_nan = wantNan;
   m = build(ex, R, C, deep ? 2 : 1, sym, 2);
   ex.shardPoint();
   if( wantNan && g_nan ) throw mc::Prune();
   ex.desc = m.name + fmt(" %dx%d", m.r, m.c) + (wantNan ? " with NaN" : "");
   if( !sym && hasSymLeaf(m.name) ) m.sym = m.r == m.c && m.name.find('{') == std::string::npos;
   verify(ex, m, R, C, wantNan);
   mc::Hash h;
   h.s(m.name);
   for( double v : m.d ) h.dr(v, 1e-9);
   ex.outcome(h.h);
}

#include "h_matrix_ops.hpp"

int main(int argc, char** argv)
{
   mc::Explorer ex;
   return ex.main(argc, argv, [](mc::Explorer& e) { if( e.mode == "ops" ) ops(e); else body(e); });
}
