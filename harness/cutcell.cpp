// Cut cells: shares of faces, stabilised fluxes, the update of cut cells and
// the stabilisation by boundary fluxes, in AMREX_SPACEDIM directions.  AMReX is
// replaced by the stand-in in stubs_amrex.
#include "vn.hpp"
#include "fub/AMReX/FillCutCellData.hpp"
#include "fub/AMReX/TimeIntegrator.hpp"
#include "fub/AMReX/ViewFArrayBox.hpp"
#include "fub/AMReX/cutcell/TimeIntegrator.hpp"
#include "fub/CutCellData.hpp"
#include "fub/cutcell_method/KbnStabilisation.hpp"
#include "fub/cutcell_method/MyStabilisation.hpp"
#include "fub/equations/PerfectGas.hpp"
#include "fub/equations/perfect_gas/EinfeldtSignalVelocities.hpp"
#include "fub/equations/perfect_gas/ExactRiemannSolver.hpp"
#include "fub/flux_method/FluxMethod.hpp"
#include "fub/flux_method/HllMethod.hpp"
using namespace vn;
using vh::J;
constexpr int R = AMREX_SPACEDIM;
#include "vcut.hpp"
static void Outside(const char* what, long n) { tr().ev(J().t("a", "outside").t("what", what).i("n", n)); }
static V Some(int n) { V r; for (int k = 0; k < n; ++k) r.push_back(U(-3, 3)); return r; }

static void Shares() {
  const int d = Rnd(0, R - 1);
  const B box = Box_(Rnd(-5, 5), Rnd(1, 9), Rnd(1, 3), Rnd(1, 2));
  B big = Grow(box, Direction(d), {1, 1}); // faces with one more on both sides
  B in = big; if (Rnd(0, 1)) for (int e = 0; e < R; ++e) { in.lower[e] -= Rnd(0, 2); in.upper[e] += Rnd(0, 2); }
  Field beta(in); beta.fill(Frac);
  B ob = box; for (int e = 0; e < R; ++e) { ob.lower[e] -= Rnd(0, 1); ob.upper[e] += Rnd(0, 1); }
  std::vector<FP> o; for (int k = 0; k < 8; ++k) o.push_back(std::make_unique<Field>(ob, 1, -77.0));
  auto v = [&](int k) { return o[k]->v().Subview(box); };
  const PatchDataView<const double, R> b = beta.v();
  fub::amrex::cutcell::FillCutCellData(v(0), v(1), v(2), v(3), v(4), v(5), v(6), v(7), b, Direction(d));
  long out = 0;
  vg::Cells(ob, [&](const I& i) {
    if (!Contains(box, i)) { for (auto& f : o) out += (*f)(i) != -77.0; return; }
    I l = i, r = i; l[d] -= 1; r[d] += 1;
    V s, t; for (int k = 0; k < 4; ++k) { s.push_back((*o[k])(i)); t.push_back((*o[k + 4])(i)); }
    tr().ev(J().t("a", "share").raw("bL", Num(beta(l))).raw("bM", Num(beta(i))).raw("bR", Num(beta(r))).raw("o", Nums(s)).raw("r", Nums(t)));
  });
  Outside("shares", out);
}

static void Places(Geo& g) {
  const V h = RndH();
  const Coordinates<R> dx = Co(h);
  vg::Cells(g.cells, [&](const I& i) {
    if (Rnd(0, 3)) return;
    V f; for (int d = 0; d < R; ++d) { I r = i; r[d] += 1; f.push_back((*g.beta[d])(i)); f.push_back((*g.beta[d])(r)); }
    tr().ev(J().t("a", "cut").raw("alpha", Num(g.vol(i))).raw("f", Nums(f)).b("o", IsCutCell(g.data, i)));
    tr().ev(J().t("a", "normal").raw("raw", Nums(Point(g.nrm, i))).raw("o", Nums(Vec(GetBoundaryNormal(g.data, i)))));
    auto place = [&](const char* kind, Field& rel, const V& o) {
      tr().ev(J().t("a", "place").t("kind", kind).raw("i", vg::S(i)).raw("h", Nums(h)).raw("rel", Nums(Point(rel, i))).raw("o", Nums(o)));
    };
    tr().ev(J().t("a", "same").t("kind", "centroid of a cell").raw("q", Nums(Point(g.cen, i))).raw("o", Nums(Vec(GetVolumeCentroid(g.data, i)))));
    tr().ev(J().t("a", "same").t("kind", "centroid of a boundary").raw("q", Nums(Point(g.bnd, i))).raw("o", Nums(Vec(GetBoundaryCentroid(g.data, i)))));
    place("cell", g.cen, Vec(GetAbsoluteVolumeCentroid(g.data, i, dx)));
    place("boundary", g.bnd, Vec(GetAbsoluteBoundaryCentroid(g.data, i, dx)));
#if AMREX_SPACEDIM == 2
    {
      for (int d = 0; d < R; ++d) for (int left = 0; left < 2; ++left) for (int up = 0; up < 2; ++up) {
        I face = i; face[d] += left; // the shading cell is left (right) of the face
        if (!Contains(g.sl[d]->b, face) || !CutHere(g, i) || !((*(left ? g.sl : g.sr)[d])(face) > 0)) continue;
        const Side s = up ? Side::Upper : Side::Lower;
        const auto x = left ? GetAbsoluteSinglyShieldedFromLeftVolumeCentroid(g.data, face, s, Direction(d), dx)
                            : GetAbsoluteSinglyShieldedFromRightVolumeCentroid(g.data, face, s, Direction(d), dx);
        tr().ev(J().t("a", "single").i("d", d + 1).b("left", left).b("up", up).raw("i", vg::S(i)).raw("h", Nums(h))
                  .raw("rel", Nums(Point(g.bnd, i))).raw("o", Nums(Vec(x))));
      }
    }
#endif
  });
}

// a face between two cells with walls below or above; what is open of the
// face and of the faces further left and right, as intervals
static void Unshielded() {
#if AMREX_SPACEDIM == 2
  {
    const int d = Rnd(0, 1), t = 1 - d;
    B c; for (int e = 0; e < 2; ++e) { c.lower[e] = Rnd(-4, 4); c.upper[e] = c.lower[e] + (e == d ? 2 : 1); }
    Geo g(c);
    const I iL = c.lower; I iR = iL; iR[d] += 1; I far = iR; far[d] += 1;
    double m = Frac(), bl = Frac(), br = Frac(); bool lowL = Rnd(0, 1), lowR = lowL;
    if (Rnd(0, 3) == 0) { m = 1; lowR = !lowL; }
    if (Rnd(0, 3) == 0) bl = m;
    if (Rnd(0, 3) == 0) br = m;
    if (Rnd(0, 9) == 0) m = bl = br = Rnd(0, 1) ? 1.0 : 0.5;
    auto iv = [](double b, bool low) { return low ? V{1 - b, 1.0} : V{0.0, b}; };
    const V M = iv(m, lowL), L = iv(bl, lowL), Q = iv(br, lowR);
    const double lo = std::max({M[0], L[0], Q[0]}), hi = std::min({M[1], L[1], Q[1]});
    if (!(hi - lo > 1e-3)) return;
    const double dl = std::max(0.0, m - bl), dr = std::max(0.0, m - br), ds = lowL == lowR ? std::min(dl, dr) : 0.0;
    auto set = [&](std::array<FP, R>& f, double x) { (*f[d])(iR) = x; };
    (*g.beta[d])(iL) = bl; (*g.beta[d])(iR) = m; (*g.beta[d])(far) = br;
    set(g.us, hi - lo); set(g.ds, ds); set(g.sl, dl - ds); set(g.sr, dr - ds);
    // normals point from the fluid into the wall
    auto nrm = [&](const I& i, bool low) { const double s = U(0.1, 1); g.nrm(i, t) = low ? -s : s; g.nrm(i, d) = std::sqrt(1 - s * s) * (Rnd(0, 1) ? 1 : -1); };
    nrm(iL, lowL); nrm(iR, lowR);
    const V h = RndH();
    const auto x = GetAbsoluteUnshieldedCentroid(g.data, iR, Co(h), Direction(d));
    tr().ev(J().t("a", "unshielded").i("d", d + 1).raw("i", vg::S(iR)).raw("h", Nums(h)).raw("M", Nums(M)).raw("L", Nums(L)).raw("R", Nums(Q)).raw("o", Nums(Vec(x))));
  }
#endif
}

static void Points() {
#if AMREX_SPACEDIM == 2
  {
    const B c = Box_(Rnd(-3, 3), 2, 2);
    Geo g(c);
    const int n = 45;
    std::array<FP, 3> src;
    for (auto& f : src) { f = std::make_unique<Field>(c, n); f->fill([] { return Rnd(0, 3) ? U(-2, 2) : 0.0; }); }
    std::array<std::vector<std::string>, 3> want;
    const I at{c.lower[0] + Rnd(0, 1), c.lower[1] + Rnd(0, 1)};
    for (int k = 0; k < 3; ++k) for (int p = 0; p < 9; ++p) {
      const std::ptrdiff_t ij[2] = {Rnd(-9, 9), Rnd(-900, 900)};
      for (int e = 0; e < 2; ++e) std::memcpy(&(*src[k])(at, 5 * p + 3 + e), &ij[e], 8);
      want[k].push_back("{\"v\":" + Num((*src[k])(at, 5 * p)) + ",\"x\":" + Nums(V{(*src[k])(at, 5 * p + 1), (*src[k])(at, 5 * p + 2)}) + ",\"i\":" + vg::S(I{ij[0], ij[1]}) + "}");
    }
    for (int d = 0; d < 2; ++d) g.data.hgrid_integration_points[d] = src[d]->vc();
    g.data.hgrid_total_inner_integration_points = src[2]->vc();
    const V h = RndH();
    for (int k = 0; k < 3; ++k) {
      const auto o = k < 2 ? GetHGridIntegrationPoints(g.data, at, Co(h), Direction(k)) : GetHGridTotalInnerIntegrationPoints(g.data, at, Co(h));
      std::vector<std::string> got;
      for (int p = 0; p < 9; ++p) got.push_back("{\"v\":" + Num(o.volume[p]) + ",\"x\":" + Nums(V{o.xM[p][0], o.xM[p][1]}) + ",\"i\":" + vg::S(o.index[p]) + "}");
      tr().ev(J().t("a", "points").raw("w", vh::List(want[k])).raw("o", vh::List(got)).raw("i", vg::S(at)).raw("iB", vg::S(o.iB)).raw("h", Nums(h)).raw("rel", Nums(Point(g.bnd, at))).raw("xB", Nums(V{o.xB[0], o.xB[1]})));
    }
    HGridIntegrationPoints<2> p{};
    const int m = Rnd(1, 9); V vol; std::vector<std::string> xs;
    for (int k = 0; k < 9; ++k) {
      p.volume[k] = k < m ? U(1e-3, 1) : 0.0; if (k > m) p.volume[k] = Rnd(0, 1) ? U(0, 1) : 0.0;
      p.xM[k] = Coordinates<2>(U(-2, 2), U(-2, 2));
      vol.push_back(p.volume[k]); xs.push_back(Nums(V{p.xM[k][0], p.xM[k][1]}));
    }
    const auto x = Centroid(p);
    tr().ev(J().t("a", "centroid").raw("v", Nums(vol)).raw("x", vh::List(xs)).raw("o", Nums(V{x[0], x[1]})));
  }
#endif
}

static void Stable(Geo& g, bool mine) {
  const int d = Rnd(0, R - 1);
  B box = Nodes(g.cells, d); // inner faces
  box.lower[d] += 1; box.upper[d] -= 1;
  for (int e = 0; e < R; ++e) if (e != d && box.upper[e] - box.lower[e] > 2 && Rnd(0, 1)) box.lower[e] += 1;
  B ob = box; for (int e = 0; e < R; ++e) { ob.lower[e] -= Rnd(0, 1); ob.upper[e] += Rnd(0, 1); }
  Field s(ob, 1, -77), sl(ob, 1, -77), sr(ob, 1, -77), f(ob), fb(g.cells);
  f.fill([] { return U(-3, 3); }); fb.fill([] { return U(-3, 3); });
  if (mine) { sl.fill([] { return U(-3, 3); }); sr.fill([] { return U(-3, 3); }); }
  auto v = [&](Field& x) { return x.v().Subview(box); };
  auto cv = [&](Field& x) { return PatchDataView<const double, R, layout_stride>(x.v().Subview(box)); };
  const Duration dt(0.1);
  const PatchDataView<const double, R, layout_stride> vb = fb.v().Subview(g.cells);
  if (mine) MyStab_ComputeStableFluxComponents(v(s), v(sl), v(sr), cv(f), vb, g.data, dt, 0.5, Direction(d));
  else ComputeStableFluxComponents(v(s), v(sl), v(sr), cv(f), vb, g.data, dt, 0.5, Direction(d));
  long out = 0;
  vg::Cells(ob, [&](const I& i) {
    if (!Contains(box, i)) { out += s(i) != -77; if (!mine) out += (sl(i) != -77) + (sr(i) != -77); return; }
    if (Rnd(0, 2)) return;
    I l = i; l[d] -= 1;
    J j = J().t("a", mine ? "mix" : "kbn").raw("f", Num(f(i))).raw("w", Nums(V{(*g.usr[d])(i), (*g.slr[d])(i), (*g.srr[d])(i)}));
    if (!mine) j.raw("fB", Nums(V{fb(l), fb(i)})).raw("c", Nums(V{g.bnd(l, d), g.bnd(i, d)}));
    tr().ev(j.raw("o", Nums(V{s(i), sl(i), sr(i)})));
  });
  Outside("stabilised fluxes", out);
}

// one or two patches of the given types
static ::amrex::Box AB(const B& b) { ::amrex::Box r; for (int d = 0; d < R; ++d) { r.lo[d] = (int)b.lower[d]; r.hi[d] = (int)b.upper[d] - 1; } return r; }
static ::amrex::Box AF(const B& b, int d) { auto r = AB(b); r.type[d] = 1; return r; }
static ::amrex::FArrayBox Fab(const ::amrex::Box& b, Field& f) { ::amrex::FArrayBox a; a.b = b; a.n = f.n; a.p = f.mem.p; return a; }
static void Update(int method) {
  const int d = Rnd(0, R - 1), np = Rnd(1, 2), nc = Rnd(1, 3), ng = Rnd(0, 2), ncons = Rnd(1, nc);
  fub::amrex::cutcell::IntegratorContext cx;
  fub::amrex::IntegratorContext cr;
  cx.dir = cr.dir = d; cx.dx = cr.geom.dx[d] = Rnd(0, 2) ? LogU(1e-2, 3) : 0.5;
  cx.hierarchy.desc.n_cons_components = ncons;
  const Duration dt(cx.dx * U(0.01, 0.5));
  std::vector<std::unique_ptr<Geo>> geo;
  std::vector<FP> keep;
  struct Patch { Field *u, *f, *s, *l, *r, *b; V old; B cells, faces; };
  std::vector<Patch> ps;
  std::vector<FP> dest; // for the update into other memory
  ::amrex::MultiFab other;
  for (int k = 0; k < np; ++k) {
    const B valid = Box_(Rnd(-4, 4) + 50 * k, Rnd(1, 7), Rnd(1, 3), Rnd(1, 2));
    B grown = valid; for (int e = 0; e < R; ++e) { grown.lower[e] -= ng; grown.upper[e] += ng; }
    // fluxes on the valid faces or on the faces of some of the ghost cells too
    B fb = Nodes(valid, d); const int gf = Rnd(0, ng);
    for (int e = 0; e < R; ++e) { const int m = e == d ? gf : ng; fb.lower[e] -= m; fb.upper[e] += m; }
    geo.push_back(std::make_unique<Geo>(grown));
    auto& g = *geo.back();
    auto mk = [&](const B& b, int n) { keep.push_back(std::make_unique<Field>(b, n)); keep.back()->fill([] { return U(-3, 3); }); return keep.back().get(); };
    const int nf = method == 2 ? ncons : nc; // the update of regular patches takes all components of the fluxes
    Patch p{mk(grown, nc), mk(fb, nf), mk(fb, nf), mk(fb, nf), mk(fb, nf), mk(grown, nf), {}, grown, fb};
    p.old.assign(p.u->mem.p, p.u->mem.p + Size(grown) * nc);
    if (method == 1) vg::Cells(g.cells, [&](const I& i) { // a cell whose faces agree is as full as they are
      I r = i; r[d] += 1; if ((*g.beta[d])(i) == (*g.beta[d])(r) && g.vol(i) > 0) g.vol(i) = (*g.beta[d])(i); });
    cx.scratch.valid.push_back(AB(valid)); cx.scratch.fab.push_back(Fab(AB(grown), *p.u)); cx.scratch.ngrow = ng;
    auto add = [&](::amrex::MultiFab& m, Field* f, bool face) { m.valid.push_back(face ? AF(Nodes(valid, d), d) : AB(valid)); m.fab.push_back(Fab(face ? AF(fb, d) : AB(grown), *f)); };
    add(cx.fluxes, p.f, true); add(cx.stabilized, p.s, true); add(cx.left, p.l, true); add(cx.right, p.r, true); add(cx.boundary, p.b, false);
    cx.hierarchy.geom.push_back(g.data);
    const int ty = Rnd(0, 5);
    cx.types.push_back(ty == 0 ? ::amrex::FabType::regular : ty == 1 ? ::amrex::FabType::covered : ::amrex::FabType::singlevalued);
    dest.push_back(std::make_unique<Field>(grown, nc, -77.0));
    other.valid.push_back(AB(valid)); other.ngrow = ng; other.fab.push_back(Fab(AB(grown), *dest.back()));
    ps.push_back(std::move(p));
  }
  cr.scratch = cx.scratch; cr.fluxes = cx.fluxes;
  const bool elsewhere = method != 0 && Rnd(0, 1);
  if (method == 0) fub::amrex::cutcell::TimeIntegrator::UpdateConservatively(cx, 0, dt, Direction(d));
  else if (method == 1) {
    if (elsewhere) fub::amrex::cutcell::TimeIntegrator2::UpdateConservatively(other, cx.scratch, cx, 0, dt, Direction(d));
    else fub::amrex::cutcell::TimeIntegrator2::UpdateConservatively(cx, 0, dt, Direction(d));
  } else {
    auto go = [&](auto ti) {
      if (elsewhere) ti.UpdateConservatively(other, cr.scratch, cr.fluxes, cr.geom, dt, Direction(d));
      else ti.UpdateConservatively(cr, 0, dt, Direction(d));
    };
    switch (Rnd(0, 3)) {
    case 0: go(fub::amrex::ForwardIntegrator<execution::SequentialTag>{}); break;
    case 1: go(fub::amrex::ForwardIntegrator<execution::OpenMpTag>{}); break;
    case 2: go(fub::amrex::ForwardIntegrator<execution::SimdTag>{}); break;
    default: go(fub::amrex::ForwardIntegrator<execution::OpenMpSimdTag>{}); break;
    }
  }
  for (int k = 0; k < np; ++k) {
    Patch& p = ps[k]; Geo& g = *geo[k];
    const auto ty = method == 2 ? ::amrex::FabType::regular : cx.types[k];
    Field& res = elsewhere ? *dest[k] : *p.u;
    long out = 0, logged = 0;
    for (int c = 0; c < nc; ++c) vg::Cells(p.cells, [&](const I& i) {
      std::ptrdiff_t o = 0, s = 1; for (int e = 0; e < R; ++e) { o += (i[e] - p.cells.lower[e]) * s; s *= p.cells.upper[e] - p.cells.lower[e]; }
      const double prev = p.old[o + s * c], same = elsewhere ? -77.0 : prev, now = res(i, c);
      if (elsewhere) out += (*p.u)(i, c) != prev;
      I r = i; r[d] += 1;
      const bool in = c < ncons && Contains(p.faces, i) && Contains(p.faces, r);
      const bool dead = ty == ::amrex::FabType::singlevalued && g.vol(i) == 0;
      if (!in || ty == ::amrex::FabType::covered || (dead && method == 1)) { out += now != same; return; }
      if (Rnd(0, 2) && logged > 6) return;
      ++logged;
      auto six = [&](const I& x) { return Nums(V{(*p.s)(x, c), (*p.f)(x, c), (*p.l)(x, c), (*p.r)(x, c)}); };
      auto sh = [&](const I& x) { return Nums(V{(*g.us[d])(x), (*g.sl[d])(x), (*g.sr[d])(x)}); };
      tr().ev(J().t("a", "update").i("m", method).b("cut", ty == ::amrex::FabType::singlevalued).raw("alpha", Num(g.vol(i))).raw("c", Num(g.bnd(i, d)))
                .raw("b", Nums(V{(*g.beta[d])(i), (*g.beta[d])(r)})).raw("shL", sh(i)).raw("shR", sh(r)).raw("fL", six(i)).raw("fR", six(r))
                .raw("fB", Num((*p.b)(i, c))).raw("dt", Num(dt.count())).raw("dx", Num(cx.dx)).raw("q", Num(prev)).raw("o", Num(now)));
    });
    Outside("an update", out);
  }
}

static void Ranges() {
  const int d = Rnd(0, R - 1), w = Rnd(1, 3);
  B c = Box_(Rnd(-4, 4), Rnd(1, 12), Rnd(1, 6), Rnd(1, 4));
  B f = Nodes(c, d); for (int e = 0; e < R; ++e) { f.lower[e] += Rnd(-3, 2); f.upper[e] += Rnd(-2, 3); }
  for (int e = 0; e < R; ++e) if (f.upper[e] <= f.lower[e]) return;
  const auto o = fub::amrex::GetCellsAndFacesInStencilRange(AB(c), AF(f, d), w, Direction(d));
  auto bx = [](const ::amrex::Box& b) { return "[" + vg::S(fub::amrex::AsIndexBox<R>(b).lower) + "," + vg::S(fub::amrex::AsIndexBox<R>(b).upper) + "]"; };
  tr().ev(J().t("a", "range").i("d", d + 1).i("w", w).raw("c", vg::S(c)).raw("f", vg::S(f)).raw("oc", bx(o[0])).raw("of", bx(o[1])));
}

template <class St> static void ViewOf(const PerfectGas<R>& eq) {
  const B b = Box_(Rnd(-4, 4), Rnd(1, 5), Rnd(1, 3), Rnd(1, 2));
  const int n = 2 * R + 6;
  Field f(b, n); f.fill([] { return U(-9, 9); });
  ::amrex::FArrayBox a = Fab(AB(b), f);
  const ::amrex::FArrayBox& ca = a;
  B sub = b; for (int e = 0; e < R; ++e) if (sub.upper[e] - sub.lower[e] > 1) sub.lower[e] += Rnd(0, 1);
  vg::Cells(sub, [&](const I& i) {
    St s(eq);
    switch (Rnd(0, 4)) {
    case 0: Load(s, fub::amrex::MakeView<St>(a, eq), i); break;
    case 1: Load(s, fub::amrex::MakeView<const St>(ca, eq), i); break;
    case 2: Load(s, fub::amrex::MakeView<St>(a, eq, sub), i); break;
    case 3: Load(s, fub::amrex::MakeView<const St>(ca, eq, sub), i); break;
    default: Load(s, fub::amrex::MakeView<const St>(ca, eq, AB(sub)), i); break;
    }
    const V o = Flat(s); V q; for (std::size_t c = 0; c < o.size(); ++c) q.push_back(f(i, c));
    tr().ev(J().t("a", "same").t("kind", "view of a fab").raw("q", Nums(q)).raw("o", Nums(o)));
    const int c = Rnd(0, n - 1);
    const auto pv = Rnd(0, 1) ? fub::amrex::MakePatchDataView(a, c) : fub::amrex::MakePatchDataView(a, c);
    const auto cv = fub::amrex::MakePatchDataView(ca, c, AB(sub));
    tr().ev(J().t("a", "same").t("kind", "component of a fab").raw("q", Nums(V{f(i, c), f(i, c), f(i, c)})).raw("o", Nums(V{pv(i), cv(i), fub::amrex::MakePatchDataView(ca)(i, c)})));
  });
}

// the stabilisation by fluxes at the boundary
using Eq = PerfectGas<R>;
static GasGen Gas(double gamma) { return {gamma, 0.05, 10.0, 0.05, 10.0, 1.5, R}; }
static Eq MakeEq(double gamma) { Eq eq; eq.gamma = gamma; eq.gamma_minus_1_inv = 1.0 / (gamma - 1.0); eq.gamma_array_ = Array1d::Constant(gamma); eq.gamma_minus_1_inv_array_ = Array1d::Constant(1.0 / (gamma - 1.0)); return eq; }
static void Kbn(double gamma) {
  const Eq eq = MakeEq(gamma);
  const GasGen gen = Gas(gamma);
  using Fm = FluxMethod<Hll<Eq, EinfeldtSignalVelocities<Eq>>>;
  const Fm fm(eq, EinfeldtSignalVelocities<Eq>{});
  using Kb = KbnCutCellMethod<Fm>;
  Kb kbn = Rnd(0, 1) ? Kb(fm) : Kb(fm, ExactRiemannSolver<Eq>(eq));
  const B c = Box_(Rnd(-3, 3), Rnd(2, 12), Rnd(2, 3), 2);
  B big = c; for (int d = 0; d < R; ++d) { big.lower[d] -= 1; big.upper[d] += 1; }
  Geo g(big);
  vg::Store_<R, Complete<Eq>> q(eq, big, false), ref(eq, big, false), mir(eq, big, false);
  vg::Store_<R, Conservative<Eq>> fl(eq, big, false);
  const double nan = std::numeric_limits<double>::quiet_NaN();
  auto get = [&](auto& s, const I& i) { V v; for (int k = 0; k < s.ncomp(); ++k) v.push_back(s.at(k, i)); return v; };
  auto set = [&](auto& s, const I& i, const V& v) { for (int k = 0; k < s.ncomp(); ++k) s.at(k, i) = v[k]; };
  auto norm = [&](const I& i) { V n; for (int d = 0; d < R; ++d) n.push_back(-g.nrm(i, d)); return n; };
  vg::Cells(big, [&](const I& i) {
    set(q, i, g.vol(i) > 0 ? gen.complete(gen.prim()) : Rnd(0, 1) ? V(R + 4, 0.0) : Some(R + 4)); // anything is found in solid cells
    set(ref, i, V(R + 4, -77.0)); set(mir, i, V(R + 4, -77.0)); set(fl, i, V(R + 2, -77.0));
  });
  auto cq = [&](const B& b) { return Subview(AsConst(q.view), b); };
  // reference states
  kbn.PreAdvanceHierarchy(Subview(ref.view, c), cq(c), g.data);
  long out = 0, logged = 0;
  vg::Cells(big, [&](const I& i) {
    const V r = get(ref, i);
    if (!Contains(c, i) || !CutHere(g, i)) { for (double x : r) out += x != -77.0; return; }
    if (logged++ < 8) tr().ev(J().t("a", "reference").raw("nrm", Nums(norm(i))).raw("q", Nums(get(q, i))).raw("o", Nums(r)));
  });
  Outside("reference states", out);
  // fluxes through the boundary, for states that have changed since
  vg::Store_<R, Complete<Eq>> q2(eq, big, false);
  std::vector<int> mask(Size(c));
  std::array<std::ptrdiff_t, R> e; for (int d = 0; d < R; ++d) e[d] = c.upper[d] - c.lower[d];
  PatchDataView<int, R> mv(mdspan<int, R>(mask.data(), e), c.lower);
  vg::Cells(big, [&](const I& i) {
    set(q2, i, g.vol(i) > 0 ? gen.complete(gen.prim()) : V(R + 4, nan));
    if (!Contains(c, i)) return;
    mv(i) = Rnd(0, 3) == 0 ? Rnd(1, 2) : 0;
    if (CutHere(g, i)) { // the mirror state is given in the frame of the wall: at rest, of similar pressure
      V w = gen.prim(); w[0] = LogU(0.5, 2); w[R + 1] = LogU(0.7, 1.4); for (int d = 0; d < R; ++d) w[1 + d] = U(-0.2, 0.2);
      set(mir, i, gen.complete(w));
      if (mv(i)) { V s = gen.prim(); s[0] = LogU(0.5, 2); s[R + 1] = LogU(0.7, 1.4); for (int d = 0; d < R; ++d) s[1 + d] = U(-0.2, 0.2); set(q2, i, gen.complete(s)); }
    }
  });
  const int d = Rnd(0, R - 1); const Direction dir = Direction(d);
  kbn.ComputeBoundaryFluxes(Subview(fl.view, c), Subview(AsConst(q2.view), c), Subview(AsConst(ref.view), c), Subview(AsConst(mir.view), c), mv.Subview(c), g.data, Duration(0.1), 0.5, dir);
  out = logged = 0;
  vg::Cells(big, [&](const I& i) {
    const V f = get(fl, i);
    if (!Contains(c, i) || !CutHere(g, i)) { for (double x : f) out += x != -77.0; return; }
    if (logged++ < 8) tr().ev(J().t("a", "wall").i("d", d + 1).b("mask", mv(i) != 0).raw("nrm", Nums(norm(i))).raw("q", Nums(get(q2, i))).raw("ref", Nums(get(ref, i))).raw("mir", Nums(get(mir, i))).raw("o", Nums(f)));
  });
  Outside("fluxes of the boundary", out);
  // fluxes through the faces and the stable step
  B fb = Nodes(c, d);
  const B all = Nodes(big, d);
  vg::Store_<R, Conservative<Eq>> rf(eq, all, false);
  vg::Cells(all, [&](const I& i) { set(rf, i, V(R + 2, -77.0)); });
  kbn.ComputeRegularFluxes(Subview(rf.view, fb), cq(big), g.data, Duration(0.01), 0.5, dir);
  out = logged = 0;
  vg::Cells(all, [&](const I& i) {
    if (!Contains(fb, i)) { for (double x : get(rf, i)) out += x != -77.0; return; }
    I l = i; l[d] -= 1;
    const bool open = (*g.beta[d])(i) > 0;
    if (!open || logged++ < 8) tr().ev(J().t("a", "face").i("d", d + 1).b("open", open).raw("q", Nums(get(q, l))).raw("q2", Nums(get(q, i))).raw("o", Nums(get(rf, i))));
  });
  Outside("fluxes of the faces", out);
  const double dx = LogU(0.1, 2);
  B part = big; // a few cells only
  for (int k = 0; k < R; ++k) if (part.upper[k] - part.lower[k] > 4 && k != d) part.upper[k] = part.lower[k] + 2;
  if (Rnd(0, 1)) part.upper[d] = part.lower[d] + std::min<std::ptrdiff_t>(part.upper[d] - part.lower[d], Rnd(2, 5));
  const double dt = kbn.ComputeStableDt(cq(part), g.data, dx, dir);
  std::vector<std::string> open;
  vg::Cells(part, [&](const I& i) {
    I l = i; l[d] -= 1;
    if (l[d] < part.lower[d] || !((*g.beta[d])(i) > 0)) return;
    open.push_back("[" + Nums(get(q, l)) + "," + Nums(get(q, i)) + "]");
  });
  tr().ev(J().t("a", "step").i("d", d + 1).raw("dx", Num(dx)).raw("q", vh::List(open)).raw("o", Num(dt)));
}

int main(int argc, char** argv) {
  vh::Trace t;
  vh::install(t, argv[1], 600);
  vg::rng().seed(vh::seed() * 31 + R);
  const int n = vh::thorough() ? 60 : 14;
  for (int rep = 0; rep < n; ++rep) {
    const double gamma = rep % 3 == 0 ? 1.4 : rep % 3 == 1 ? 5.0 / 3.0 : U(1.1, 1.7);
    auto go = [&](const char* what, auto f) {
      t.start(J().t("law", "gas").i("n", R).i("ns", 0).i("np", 0).raw("gamma", Num(gamma)).raw("rspec", Num(1)).raw("msq", Num(1)).t("what", what).str());
      f();
      t.finish();
    };
    go("shares", [] { for (int k = 0; k < 3; ++k) Shares(); });
    go("places", [] {
      Geo g(Box_(Rnd(-3, 3), Rnd(2, 5), Rnd(2, 4)));
      Places(g);
      for (int k = 0; k < 12; ++k) Unshielded();
      for (int k = 0; k < 2; ++k) Points();
      for (int k = 0; k < 8; ++k) Ranges();
    });
    go("stable fluxes", [] { for (int k = 0; k < 2; ++k) { Geo g(Box_(Rnd(-3, 3), Rnd(2, 9), Rnd(2, 4))); Stable(g, false); Stable(g, true); } });
    for (int m = 0; m < 3; ++m) go("update", [&] { Update(m); Update(m); });
    go("views", [&] { const Eq eq = MakeEq(gamma); ViewOf<Complete<Eq>>(eq); ViewOf<Conservative<Eq>>(eq); });
    go("wall", [&] { Kbn(gamma); });
  }
  std::fclose(t.out);
  std::printf("traces=%lld\n", t.count);
  return 0;
}
