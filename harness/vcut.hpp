// Geometries of cells that are cut by walls, in R directions.
#pragma once
#include "fub/CutCellData.hpp"
using I = Index<R>;
using B = IndexBox<R>;
static B Box_(int lo0, int n0, int n1, int n2 = 2) {
  B b; const int n[3] = {n0, n1, n2};
  for (int d = 0; d < R; ++d) { b.lower[d] = d == 0 ? lo0 : Rnd(-3, 3); b.upper[d] = b.lower[d] + n[d]; }
  return b;
}
static B Nodes(B b, int d) { b.upper[d] += 1; return b; }
static long Size(const B& b) { long n = 1; for (int d = 0; d < R; ++d) n *= b.upper[d] - b.lower[d]; return n; }

// numbers with n components on a box in exactly fitting memory
struct Field {
  B b; int n; vg::Guarded mem;
  Field(const B& box, int comps = 1, double x = 0) : b(box), n(comps), mem(Size(box) * comps, Rnd(0, 2) != 0) { std::fill_n(mem.p, Size(b) * n, x); }
  double& operator()(const I& i, int c = 0) { long o = 0, s = 1; for (int d = 0; d < R; ++d) { o += (i[d] - b.lower[d]) * s; s *= b.upper[d] - b.lower[d]; } return mem.p[o + s * c]; }
  PatchDataView<double, R> v() { std::array<std::ptrdiff_t, R> e; for (int d = 0; d < R; ++d) e[d] = b.upper[d] - b.lower[d]; return {mdspan<double, R>(mem.p, e), b.lower}; }
  PatchDataView<double, R + 1> vc() {
    std::array<std::ptrdiff_t, R + 1> e{}, o{};
    for (int d = 0; d < R; ++d) { e[d] = b.upper[d] - b.lower[d]; o[d] = b.lower[d]; }
    e[R] = n; return {mdspan<double, R + 1>(mem.p, e), o};
  }
  template <class F> void fill(F f) { vg::Cells(b, [&](const I& i) { for (int c = 0; c < n; ++c) (*this)(i, c) = f(); }); }
};
using FP = std::unique_ptr<Field>;
static double Frac() { switch (Rnd(0, 7)) { case 0: return 0.0; case 1: case 2: return 1.0; case 3: return 0.25 * Rnd(1, 3); default: return U(0, 1); } }

// a geometry: any volumes and faces, with closed faces next to solid cells;
// the shares of the faces by a formula of our own unless `fill` computes them
struct Geo {
  B cells;
  Field vol, cen, nrm, bnd;
  std::array<FP, R> beta, us, sl, sr, ds, usr, slr, srr, dsr;
  CutCellData<R> data;
  Geo(const B& c, bool regular_rows = false) : cells(c), vol(c), cen(c, R), nrm(c, R), bnd(c, R) {
    vol.fill([] { return Rnd(0, 3) ? Rnd(0, 1) ? 1.0 : Frac() : 0.0; });
    cen.fill([] { return Rnd(0, 4) ? U(-0.4, 0.4) : 0.0; });
    bnd.fill([] { return Rnd(0, 5) ? U(-0.6, 0.6) : Rnd(0, 1) ? 0.5 : -0.5; });
    vg::Cells(c, [&](const I& i) {
      double v[3], s = 0; for (int d = 0; d < R; ++d) { v[d] = Rnd(0, 5) ? U(-1, 1) : 0; s += v[d] * v[d]; }
      if (s == 0 || Rnd(0, 5) == 0) { for (int d = 0; d < R; ++d) v[d] = 0; v[Rnd(0, R - 1)] = Rnd(0, 1) ? 1 : -1; s = 1; }
      for (int d = 0; d < R; ++d) nrm(i, d) = v[d] / std::sqrt(s);
    });
    for (int d = 0; d < R; ++d) {
      const B f = Nodes(c, d);
      auto mk = [&] { return std::make_unique<Field>(f, 1, 0.0); };
      beta[d] = mk(); us[d] = mk(); sl[d] = mk(); sr[d] = mk(); ds[d] = mk(); usr[d] = mk(); slr[d] = mk(); srr[d] = mk(); dsr[d] = mk();
      beta[d]->fill(Frac);
      vg::Cells(f, [&](const I& i) {
        I l = i; l[d] -= 1;
        if ((i[d] < c.upper[d] && vol(i) == 0) || (l[d] >= c.lower[d] && vol(l) == 0)) (*beta[d])(i) = 0;
      });
      vg::Cells(f, [&](const I& i) {
        I l = i, r = i; l[d] -= 1; r[d] += 1;
        const double m = (*beta[d])(i), bl = l[d] >= f.lower[d] ? (*beta[d])(l) : m, br = r[d] < f.upper[d] ? (*beta[d])(r) : m;
        const double dl = std::max(0.0, m - bl), dr = std::max(0.0, m - br);
        (*us[d])(i) = m - std::max(dl, dr); (*ds[d])(i) = std::min(dl, dr); (*sl[d])(i) = dl - (*ds[d])(i); (*sr[d])(i) = dr - (*ds[d])(i);
        const double k = m > 0 ? 1 / m : 0;
        (*usr[d])(i) = (*us[d])(i) * k; (*dsr[d])(i) = (*ds[d])(i) * k; (*slr[d])(i) = (*sl[d])(i) * k; (*srr[d])(i) = (*sr[d])(i) * k;
      });
    }
    data.volume_fractions = vol.v(); data.volume_centeroid = cen.vc(); data.boundary_normals = nrm.vc(); data.boundary_centeroids = bnd.vc();
    for (int d = 0; d < R; ++d) {
      data.face_fractions[d] = beta[d]->v(); data.unshielded_fractions[d] = us[d]->v(); data.shielded_left_fractions[d] = sl[d]->v();
      data.shielded_right_fractions[d] = sr[d]->v(); data.doubly_shielded_fractions[d] = ds[d]->v();
      data.unshielded_fractions_rel[d] = usr[d]->v(); data.shielded_left_fractions_rel[d] = slr[d]->v();
      data.shielded_right_fractions_rel[d] = srr[d]->v(); data.doubly_shielded_fractions_rel[d] = dsr[d]->v();
    }
  }
};
static bool CutHere(Geo& g, const I& i) {
  if (g.vol(i) <= 0) return false;
  if (g.vol(i) < 1) return true;
  for (int d = 0; d < R; ++d) { I r = i; r[d] += 1; if ((*g.beta[d])(i) < 1 || (*g.beta[d])(r) < 1) return true; }
  return false;
}
template <class VV> V Vec(const VV& v) { V r; for (int d = 0; d < R; ++d) r.push_back(v[d]); return r; }
static V Point(Field& f, const I& i) { V r; for (int d = 0; d < R; ++d) r.push_back(f(i, d)); return r; }
static V RndH() { V h; for (int d = 0; d < R; ++d) h.push_back(Rnd(0, 3) ? LogU(1e-3, 5) : 1.0); return h; }
static Coordinates<R> Co(const V& v) { Coordinates<R> x; for (int d = 0; d < R; ++d) x[d] = v[d]; return x; }
