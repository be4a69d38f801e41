// operations that change dense and multi vector matrices, and conversions of vectors
struct DM
{
   int r, c;
   V d;
   DM(int r, int c) : r(r), c(c), d(r * c, 0.) {}
   double& at(int i, int j) { return d[i * c + j]; }
   double at(int i, int j) const { return d[i * c + j]; }
   DM t() const { DM x(c, r); for( int i = 0; i < r; ++i ) for( int j = 0; j < c; ++j ) x.at(j, i) = at(i, j); return x; }
};
static DM mul(const DM& a, const DM& b)
{
   DM x(a.r, b.c);
   for( int i = 0; i < a.r; ++i ) for( int j = 0; j < b.c; ++j ) for( int k = 0; k < a.c; ++k ) x.at(i, j) += a.at(i, k) * b.at(k, j);
   return x;
}
/** al*a + be*b where a factor 0 drops the term */
static DM lin(double al, const DM& a, double be, const DM& b)
{
   DM x(a.r, a.c);
   for( size_t i = 0; i < x.d.size(); ++i ) x.d[i] = (al == 0 ? 0 : al * a.d[i]) + (be == 0 ? 0 : be * b.d[i]);
   return x;
}
static DM rnd(int r, int c, int off, bool sym = false, bool pd = false)
{
   DM x(r, c);
   for( int i = 0; i < r; ++i ) for( int j = 0; j < c; ++j ) x.at(i, j) = !sym || j <= i ? PV[(i * c + j + off) % 11] : 0;
   if( sym ) for( int i = 0; i < r; ++i ) for( int j = i + 1; j < c; ++j ) x.at(i, j) = x.at(j, i);
   if( pd ) for( int i = 0; i < r; ++i ) { double s = 1; for( int j = 0; j < c; ++j ) if( j != i ) s += std::fabs(x.at(i, j)); x.at(i, i) = s; }
   return x;
}
static SmartPtr<DenseGenMatrix> mkG(const DM& x, bool undefined = false)
{
   SmartPtr<DenseGenMatrixSpace> sp = new DenseGenMatrixSpace(x.r, x.c);
   SmartPtr<DenseGenMatrix> g = sp->MakeNewDenseGenMatrix();
   for( int i = 0; i < x.r; ++i ) for( int j = 0; j < x.c; ++j ) g->Values()[i + j * x.r] = undefined ? NAN : x.at(i, j);
   return g;
}
static SmartPtr<DenseSymMatrix> mkS(const DM& x, bool undefined = false)
{
   SmartPtr<DenseSymMatrixSpace> sp = new DenseSymMatrixSpace(x.r);
   SmartPtr<DenseSymMatrix> g = sp->MakeNewDenseSymMatrix();
   for( int i = 0; i < x.r; ++i ) for( int j = 0; j < x.r; ++j ) g->Values()[i + j * x.r] = undefined ? NAN : j <= i ? x.at(i, j) : 333.;
   return g;
}
/** columns; state: 0 arrays, 1 first column homogeneous (x is changed accordingly) */
static SmartPtr<MultiVectorMatrix> mkMV(DM& x, const Shape& R, int state, bool keep = false)
{
   SmartPtr<MultiVectorMatrixSpace> sp = new MultiVectorMatrixSpace(x.c, *R.sp);
   SmartPtr<MultiVectorMatrix> m = sp->MakeNewMultiVectorMatrix();
   for( int j = 0; j < x.c; ++j )
   {
      SmartPtr<Vector> v = R.sp->MakeNew();
      if( state == 1 && j == 0 ) { v->Set(-2); for( int i = 0; i < x.r; ++i ) x.at(i, j) = -2; }
      else { V w(x.r + 1); for( int i = 0; i < x.r; ++i ) w[i] = x.at(i, j); put(*v, w.data()); }
      if( keep ) m->SetVector(j, *v); else m->SetVectorNonConst(j, *v);
   }
   return m;
}
static DM getG(const DenseGenMatrix& g) { DM x(g.NRows(), g.NCols()); for( int i = 0; i < x.r; ++i ) for( int j = 0; j < x.c; ++j ) x.at(i, j) = g.Values()[i + j * x.r]; return x; }
static DM getS(const DenseSymMatrix& g) { DM x(g.Dim(), g.Dim()); for( int i = 0; i < x.r; ++i ) for( int j = 0; j <= i; ++j ) x.at(i, j) = x.at(j, i) = g.Values()[i + j * x.r]; return x; }
static DM getMV(const MultiVectorMatrix& m) { DM x(m.NRows(), m.NCols()); for( int j = 0; j < x.c; ++j ) { V v = get(*m.GetVector(j)); for( int i = 0; i < x.r; ++i ) x.at(i, j) = v[i]; } return x; }
static double det(const DM& a)
{
   if( a.r == 1 ) return a.d[0];
   if( a.r == 2 ) return a.at(0, 0) * a.at(1, 1) - a.at(0, 1) * a.at(1, 0);
   double s = 0;
   for( int k = 0; k < 3; ++k ) s += a.at(0, k) * (a.at(1, (k + 1) % 3) * a.at(2, (k + 2) % 3) - a.at(1, (k + 2) % 3) * a.at(2, (k + 1) % 3));
   return s;
}
static bool posdef(const DM& a)
{
   for( int k = 1; k <= a.r; ++k ) { DM m(k, k); for( int i = 0; i < k; ++i ) for( int j = 0; j < k; ++j ) m.at(i, j) = a.at(i, j); if( det(m) <= 1e-12 ) return false; }
   return true;
}

static void ops(mc::Explorer& ex)
{
   static const char* NAME[] = {"gen product", "gen scale columns", "gen copy/identity", "gen V1^T V2", "gen Cholesky", "gen LU", "gen eigenvectors", "sym identity/add", "sym rank update", "sym V1^T V2", "sym SR1 add", "mv scale", "mv add", "mv times matrix", "mv low rank product", "mv multiply", "vector values", "structure history"};
   int op = ex.choose(18);
   ex.desc = NAME[op];
   const double AL[] = {1, -0.5, 0, 2}, BE[] = {0, 1, -2};
   auto same = [&](const DM& g, const DM& w, double tol = 1e-10)
   {
      for( size_t i = 0; i < w.d.size(); ++i ) if( !(std::fabs(g.d[i] - w.d[i]) <= tol * std::max(1., std::fabs(w.d[i]))) ) ex.fail(NAME[op], std::string(NAME[op]) + fmt(" %dx%d gives ", w.r, w.c) + str(g.d) + ", should be " + str(w.d));
      mc::Hash h; h.i(op); for( double v : g.d ) h.dr(v, 1e-7); ex.outcome(h.h);
   };
   auto dim = [&] { return 1 + ex.choose(3); };
   auto fresh = [&](const TaggedObject& o, TaggedObject::Tag before) { if( o.GetTag() == before ) ex.fail("tag", std::string(NAME[op]) + " does not mark the matrix as changed"); };
   switch( op )
   {
      case 0:
      {
         int m = dim(), n = dim(), k = dim(), ta = ex.choose(2), tb = ex.choose(2), a = ex.choose(4), b = ex.choose(3);
         DM A = rnd(ta ? k : m, ta ? m : k, 0), B = rnd(tb ? n : k, tb ? k : n, 5), Y = rnd(m, n, 3);
         auto g = mkG(Y, BE[b] == 0);
         auto t = g->GetTag();
         auto ga = mkG(A), gb = mkG(B);
         g->AddMatrixProduct(AL[a], *ga, ta, *gb, tb, BE[b]);
         fresh(*g, t);
         same(getG(*g), lin(AL[a], mul(ta ? A.t() : A, tb ? B.t() : B), BE[b], Y));
         same(getG(*ga), A);
         same(getG(*gb), B);
         break;
      }
      case 1:
      {
         int m = dim(), n = dim(), st = ex.choose(4);
         DM Y = rnd(m, n, 2);
         auto g = mkG(Y);
         auto v = mkv(leaf(n), st, 1);
         auto t = g->GetTag();
         g->ScaleColumns(static_cast<DenseVector&>(*v));
         fresh(*g, t);
         V s = get(*v);
         for( int i = 0; i < m; ++i ) for( int j = 0; j < n; ++j ) Y.at(i, j) *= s[j];
         same(getG(*g), Y);
         break;
      }
      case 2:
      {
         int m = dim(), n = dim(), w = ex.choose(2), a = ex.choose(4);
         DM Y = rnd(m, n, 2), Z = rnd(m, n, 6);
         auto g = mkG(Y), z = mkG(Z);
         auto t = g->GetTag();
         if( w ) g->Copy(*z);
         else
         {
            if( m != n ) throw mc::Prune();
            g->FillIdentity(AL[a]);
            Z = DM(m, m);
            for( int i = 0; i < m; ++i ) Z.at(i, i) = AL[a];
         }
         fresh(*g, t);
         same(getG(*g), Z);
         break;
      }
      case 3:
      {
         int m = dim(), n = dim(), k = dim(), a = ex.choose(4), b = ex.choose(3), s1 = ex.choose(2), s2 = ex.choose(2);
         DM A = rnd(k, m, 0), B = rnd(k, n, 5), Y = rnd(m, n, 3);
         auto va = mkMV(A, leaf(k), s1), vb = mkMV(B, leaf(k), s2);
         auto g = mkG(Y, BE[b] == 0);
         auto t = g->GetTag();
         g->HighRankUpdateTranspose(AL[a], *va, *vb, BE[b]);
         fresh(*g, t);
         same(getG(*g), lin(AL[a], mul(A.t(), B), BE[b], Y));
         break;
      }
      case 4:
      {
         int n = dim(), off = ex.choose(11), pd = ex.choose(2), what = ex.choose(4);
         DM A = rnd(n, n, off, true, pd);
         auto s = mkS(A);
         auto g = mkG(rnd(n, n, 1));
         auto t = g->GetTag();
         bool ok = g->ComputeCholeskyFactor(*s);
         if( ok != posdef(A) ) ex.fail("cholesky", "Cholesky of " + str(A.d) + fmt(" returned %d", ok));
         fresh(*g, t);
         if( !ok ) return;
         DM L = getG(*g);
         for( int i = 0; i < n; ++i ) for( int j = i + 1; j < n; ++j ) if( L.at(i, j) != 0 ) ex.fail("cholesky", "factor not lower triangular");
         same(mul(L, L.t()), A);
         same(getS(*s), A);
         int k = dim();
         DM B = rnd(n, k, 4);
         if( what == 0 )
         {
            int st = ex.choose(2);
            auto b = mkv(leaf(n), st, 3);
            DM bm(n, 1);
            bm.d = get(*b);
            g->CholeskySolveVector(static_cast<DenseVector&>(*b));
            DM x(n, 1);
            x.d = get(*b);
            same(mul(A, x), bm);
         }
         else if( what == 1 )
         {
            auto b = mkG(B);
            auto tb = b->GetTag();
            g->CholeskySolveMatrix(*b);
            fresh(*b, tb);
            same(mul(A, getG(*b)), B);
         }
         else
         {
            int tr = what == 3, a = ex.choose(4);
            auto b = mkG(B);
            g->CholeskyBackSolveMatrix(tr, AL[a], *b);
            same(mul(tr ? L.t() : L, getG(*b)), lin(AL[a], B, 0, B));
         }
         break;
      }
      case 5:
      {
         int n = dim(), off = ex.choose(11), st = ex.choose(3), k = dim(), rep = ex.choose(2);
         DM A = rnd(n, n, off);
         auto g = mkG(A);
         (void) rep;
         bool ok = g->ComputeLUFactorInPlace();
         if( ok != (std::fabs(det(A)) > 1e-12) ) ex.fail("lu", "LU of " + str(A.d) + fmt(" returned %d", ok));
         if( !ok ) return;
         if( st < 2 )
         {
            auto b = mkv(leaf(n), st, 3);
            DM bm(n, 1), x(n, 1);
            bm.d = get(*b);
            g->LUSolveVector(static_cast<DenseVector&>(*b));
            x.d = get(*b);
            same(mul(A, x), bm);
            if( rep )
            {
               auto b2 = mkv(leaf(n), 0, 6);
               bm.d = get(*b2);
               g->LUSolveVector(static_cast<DenseVector&>(*b2));
               x.d = get(*b2);
               same(mul(A, x), bm);
            }
         }
         else
         {
            DM B = rnd(n, k, 4);
            auto b = mkG(B);
            g->LUSolveMatrix(*b);
            same(mul(A, getG(*b)), B);
         }
         break;
      }
      case 6:
      {
         int n = dim(), off = ex.choose(11);
         DM A = rnd(n, n, off, true);
         auto s = mkS(A);
         auto g = mkG(rnd(n, n, 1));
         auto t = g->GetTag();
         auto e = mkv(leaf(n), ex.choose(2), 0);
         if( !g->ComputeEigenVectors(*s, static_cast<DenseVector&>(*e)) ) ex.fail("eigen", "no eigenvectors");
         fresh(*g, t);
         DM Q = getG(*g), D(n, n), I(n, n);
         V ev = get(*e);
         for( int i = 0; i < n; ++i ) { D.at(i, i) = ev[i]; I.at(i, i) = 1; }
         same(mul(Q.t(), Q), I);
         same(mul(Q, mul(D, Q.t())), A);
         break;
      }
      case 7:
      {
         int n = dim(), a = ex.choose(4), b = ex.choose(3), w = ex.choose(2);
         DM A = rnd(n, n, 1, true), Y = rnd(n, n, 4, true);
         auto s = mkS(A), y = mkS(Y, !w || BE[b] == 0);
         auto t = y->GetTag();
         if( w ) { y->AddMatrix(AL[a], *s, BE[b]); if( AL[a] != 0 || BE[b] != 1 ) fresh(*y, t); same(getS(*y), lin(AL[a], A, BE[b], Y)); }
         else { y->FillIdentity(AL[a]); fresh(*y, t); DM I(n, n); for( int i = 0; i < n; ++i ) I.at(i, i) = AL[a]; same(getS(*y), I); }
         break;
      }
      case 8:
      {
         int n = dim(), k = dim(), tr = ex.choose(2), a = ex.choose(4), b = ex.choose(3);
         DM Vm = rnd(tr ? k : n, tr ? n : k, 1), Y = rnd(n, n, 4, true);
         auto y = mkS(Y, BE[b] == 0);
         auto v = mkG(Vm);
         auto t = y->GetTag();
         y->HighRankUpdate(tr, AL[a], *v, BE[b]);
         fresh(*y, t);
         same(getS(*y), lin(AL[a], tr ? mul(Vm.t(), Vm) : mul(Vm, Vm.t()), BE[b], Y));
         break;
      }
      case 9:
      {
         // V1^T V2 has to be symmetric: V2 = V1 times a symmetric matrix, or V1 itself
         int n = dim(), k = dim(), a = ex.choose(4), b = ex.choose(3), s1 = ex.choose(2);
         DM A = rnd(k, n, 1), Y = rnd(n, n, 4, true);
         auto v1 = mkMV(A, leaf(k), s1);
         DM W = rnd(k, k, 7, true), B = mul(W, A);
         auto v2 = mkMV(B, leaf(k), 0, true);
         auto y = mkS(Y, BE[b] == 0);
         auto t = y->GetTag();
         y->HighRankUpdateTranspose(AL[a], *v1, *v2, BE[b]);
         fresh(*y, t);
         same(getS(*y), lin(AL[a], mul(A.t(), B), BE[b], Y));
         break;
      }
      case 10:
      {
         int n = dim(), st = ex.choose(4);
         DM Y = rnd(n, n, 4, true), L = rnd(n, n, 2);
         auto y = mkS(Y);
         auto l = mkG(L);
         auto d = mkv(leaf(n), st, 1);
         V dv = get(*d);
         auto t = y->GetTag();
         y->SpecialAddForLMSR1(static_cast<DenseVector&>(*d), *l);
         fresh(*y, t);
         for( int i = 0; i < n; ++i ) { Y.at(i, i) += dv[i]; for( int j = 0; j < i; ++j ) { Y.at(i, j) += L.at(i, j); Y.at(j, i) += L.at(i, j); } }
         same(getS(*y), Y);
         break;
      }
      case 11:
      {
         int n = dim(), k = dim(), st = ex.choose(4), s1 = ex.choose(2), cols = ex.choose(2), comp = ex.choose(2);
         Shape R = comp ? node({leaf(k), leaf(1)}) : leaf(k);
         DM A = rnd(R.n, n, 1);
         auto m = mkMV(A, R, s1);
         auto v = mkv(cols ? leaf(n) : R, st, 2);
         V s = get(*v);
         auto t = m->GetTag();
         if( cols ) m->ScaleColumns(*v); else m->ScaleRows(*v);
         fresh(*m, t);
         for( int i = 0; i < R.n; ++i ) for( int j = 0; j < n; ++j ) A.at(i, j) *= s[cols ? j : i];
         same(getMV(*m), A);
         break;
      }
      case 12:
      {
         int n = dim(), k = dim(), a = ex.choose(4), b = ex.choose(3), s1 = ex.choose(2), s2 = ex.choose(2);
         DM A = rnd(k, n, 1), B = rnd(k, n, 5);
         auto m = mkMV(A, leaf(k), s1), o = mkMV(B, leaf(k), s2, true);
         auto t = m->GetTag();
         m->AddOneMultiVectorMatrix(AL[a], *o, BE[b]);
         fresh(*m, t);
         same(getMV(*m), lin(AL[a], B, BE[b], A));
         same(getMV(*o), B);
         break;
      }
      case 13:
      {
         int n = dim(), k = dim(), q = dim(), a = ex.choose(4), b = ex.choose(3), s1 = ex.choose(2), s2 = ex.choose(2);
         DM A = rnd(k, n, 1), U = rnd(k, q, 5), C = rnd(q, n, 3);
         auto m = mkMV(A, leaf(k), s1), u = mkMV(U, leaf(k), s2, true);
         auto c = mkG(C);
         auto t = m->GetTag();
         m->AddRightMultMatrix(AL[a], *u, *c, BE[b]);
         fresh(*m, t);
         same(getMV(*m), lin(AL[a], mul(U, C), BE[b], A));
         same(getMV(*u), U);
         break;
      }
      case 14:
      {
         int n = dim(), k = dim(), a = ex.choose(4), b = ex.choose(3), s1 = ex.choose(2), xs = ex.choose(3), ys = ex.choose(3);
         DM A = rnd(k, n, 1);
         auto m = mkMV(A, leaf(k), s1, true);
         auto x = mkv(leaf(k), xs, 2), y = mkv(leaf(k), BE[b] == 0 ? 4 : ys, 5);
         DM X(k, 1), Y(k, 1);
         X.d = get(*x);
         Y.d = get(*y);
         m->LRMultVector(AL[a], *x, BE[b], *y);
         DM got(k, 1);
         got.d = get(*y);
         same(got, lin(AL[a], mul(A, mul(A.t(), X)), BE[b], Y));
         break;
      }
      case 15:
      {
         // replacing columns: values and tag
         int n = dim(), k = dim(), j = ex.choose(n), how = ex.choose(4);
         DM A = rnd(k, n, 1);
         auto m = mkMV(A, leaf(k), 0, ex.choose(2));
         auto v = mkv(leaf(k), ex.choose(2), 7);
         V w = get(*v);
         auto t = m->GetTag();
         if( how == 0 ) m->SetVector(j, *v);
         else if( how == 1 ) m->SetVectorNonConst(j, *v);
         else if( how == 2 ) { m->SetVectorNonConst(j, *v); m->GetVectorNonConst(j)->Scal(2.); for( double& q : w ) q *= 2; }
         else { m->FillWithNewVectors(); for( int i = 0; i < n; ++i ) m->GetVectorNonConst(i)->Set(i + 1.); for( int i = 0; i < k; ++i ) for( int q = 0; q < n; ++q ) A.at(i, q) = q + 1; for( double& q : w ) q = j + 1; }
         fresh(*m, t);
         for( int i = 0; i < k; ++i ) A.at(i, j) = w[i];
         same(getMV(*m), A);
         break;
      }
      case 16:
      {
         // vector <-> array
         std::vector<Shape> S = {leaf(0), leaf(1), leaf(3), node({leaf(2), leaf(0), leaf(1)}), node({node({leaf(1), leaf(2)}), leaf(2)})};
         Shape s = S[ex.choose(5)];
         auto v = mkv(s, ex.choose(3), 1);
         V w = get(*v), a(s.n + 1, -77);
         TripletHelper::FillValuesFromVector(s.n, *v, a.data());
         if( a[s.n] != -77 ) ex.fail("values", "written beyond the end");
         for( int i = 0; i < s.n; ++i ) if( a[i] != w[i] ) ex.fail("values", "FillValuesFromVector " + str(a) + " vs " + str(w));
         for( int i = 0; i < s.n; ++i ) a[i] = PV[i] * 3;
         auto t = v->GetTag();
         TripletHelper::PutValuesInVector(s.n, a.data(), *v);
         if( s.n ) fresh(*v, t);
         w = get(*v);
         for( int i = 0; i < s.n; ++i ) if( a[i] != w[i] ) ex.fail("values", "PutValuesInVector " + str(w) + " vs " + str(a));
         mc::Hash h; h.i(op); for( double q : w ) h.d(q); ex.outcome(h.h);
         break;
      }
      case 17:
      {
         // structure of a sparse matrix is fixed, values may be set again
         int n = dim(), k = dim(), sets = 1 + ex.choose(3), sym = ex.choose(2);
         if( sym && n != k ) throw mc::Prune();
         std::vector<Index> ir, jc;
         for( int i = 0; i < n; ++i ) for( int j = 0; j < (sym ? i + 1 : k); ++j ) if( ex.choose(2) ) { ir.push_back(i + 1); jc.push_back(j + 1); }
         SmartPtr<GenTMatrix> g;
         SmartPtr<SymTMatrix> s;
         SmartPtr<GenTMatrixSpace> gs;
         SmartPtr<SymTMatrixSpace> ss;
         if( sym ) { ss = new SymTMatrixSpace(n, (Index) ir.size(), ir.data(), jc.data()); s = ss->MakeNewSymTMatrix(); }
         else { gs = new GenTMatrixSpace(n, k, (Index) ir.size(), ir.data(), jc.data()); g = gs->MakeNewGenTMatrix(); }
         // the space must have its own copy
         std::vector<Index> i0(ir), j0(jc);
         for( Index& q : ir ) q = 99;
         for( Index& q : jc ) q = 99;
         for( int q = 0; q < sets; ++q )
         {
            V v(i0.size() + 1);
            for( size_t p = 0; p < i0.size(); ++p ) v[p] = PV[(p + 3 * q) % 11];
            auto t = sym ? s->GetTag() : g->GetTag();
            V v0(v);
            if( sym ) s->SetValues(v.data()); else g->SetValues(v.data());
            for( double& d : v ) d = NAN;
            fresh(sym ? static_cast<TaggedObject&>(*s) : static_cast<TaggedObject&>(*g), t);
            DM A(n, k);
            for( size_t p = 0; p < i0.size(); ++p ) { A.at(i0[p] - 1, j0[p] - 1) += v0[p]; if( sym && i0[p] != j0[p] ) A.at(j0[p] - 1, i0[p] - 1) += v0[p]; }
            DM got(n, k);
            for( int j = 0; j < k; ++j )
            {
               auto e = mkv(leaf(k), 2, 0), y = mkv(leaf(n), 4, 0);
               static_cast<DenseVector&>(*e).Values()[j] = 1;
               if( sym ) s->MultVector(1., *e, 0., *y); else g->MultVector(1., *e, 0., *y);
               V yv = get(*y);
               for( int i = 0; i < n; ++i ) got.at(i, j) = yv[i];
            }
            same(got, A);
         }
         break;
      }
   }
}
