"""C12 level depths, C13 terrain-following depths, C14 values in depth."""

import os
from datetime import timedelta

import netCDF4 as nc4
import numpy as np

from gridded.depth import Depth, DepthBase, FVCOM_Depth, L_Depth, ROMS_Depth
from gridded.grids import Grid_S, Grid_U
from gridded.time import Time
from gridded.variable import Variable

from .. import gen
from ..core import Skip, prop
from .p_field import _cmp

C12 = prop(
    "C12",
    "seeded level axes (1 to 30 levels, irregular, either direction, starting at or below the surface) queried at depths inside, on, "
    "between, above and below the levels under every combination of boundary conditions given per query, per object or by default; "
    "non-trivial if a depth lies strictly between two levels; distinct by (levels, depths, conditions)",
    ["depths positive downwards", "a depth exactly on the first or last level may be taken as inside or outside"],
)


def levels(ctx, nmin=2, nmax=30):
    r, rng = ctx.r, ctx.rng
    n = r.choice([nmin, max(nmin, 2), max(nmin, 3), r.randint(max(nmin, 2), nmax)])
    if "levels" in ctx.big:
        n = r.randint(40, 300)
    d = np.cumsum(rng.uniform(0.01, 1.0, n) * 10 ** r.uniform(-1, 3))
    if r.random() < 0.7:
        d = d - d[0]
    desc = r.random() < 0.45
    if desc:
        d = d[::-1].copy()
    return d, desc


def depth_queries(ctx, L, n):
    """[(depth, kind)]: kind inside/surface_edge/bottom_edge/above/below"""
    r = ctx.r
    a = np.sort(L)
    out = []
    for _ in range(n):
        k = r.random()
        if k < 0.5 and len(a) > 1:
            i = r.randrange(len(a) - 1)
            w = r.choice([r.random(), 0.5, 1e-9, 1 - 1e-9])
            out.append(a[i] + w * (a[i + 1] - a[i]))
        elif k < 0.65:
            out.append(a[r.randrange(len(a))])
        elif k < 0.83:
            out.append(a[0] - r.choice([1e-6, 0.3, 50.0]))
        else:
            out.append(a[-1] + r.choice([1e-6, 0.3, 5000.0]))
    return np.array(out)


def effective(L, idx, alpha):
    """level weights meant by (index, alpha): a dict level -> weight"""
    n = len(L)
    w = {}
    for k, a in ((idx, 1 - alpha), (idx + 1, alpha)):
        if a != 0:
            w[k] = w.get(k, 0) + a
    return w


def check_bracket(ctx, L, d, idx, alpha, im, am, sbc, bbc, kind, tol=1e-9, /, **det):
    """one depth against one column of levels (any direction)"""
    lo, hi = L.min(), L.max()
    sp = max(hi - lo, 1e-300)
    surf, bot = int(np.argmin(L)), int(np.argmax(L))
    ctx.check(bool(im) == bool(am), kind + ":mask_pair", idx=idx, alpha=alpha, **det)
    above, below = d < lo - tol * sp, d > hi + tol * sp
    edge_s, edge_b = abs(d - lo) <= tol * sp, abs(d - hi) <= tol * sp
    if above or below:
        ctx.event("above" if above else "below")
        bc = sbc if above else bbc
        if bc == "mask":
            return ctx.check(im, kind + (":above_not_masked" if above else ":below_not_masked"), d=d, L=L, **det)
        ctx.check(not im, kind + ":extrapolation_masked", d=d, L=L, **det)
        if im:
            return
        want = surf if above else bot
        w = effective(L, int(idx), float(alpha))
        return ctx.check(w == {want: 1.0}, kind + (":above_level" if above else ":below_level"), got=w, want=want, d=d, L=L, **det)
    if edge_s or edge_b:
        ctx.event("on_outer_level")
        if im:
            return ctx.check((sbc if edge_s else bbc) == "mask", kind + ":edge_masked", d=d, L=L, **det)
        w = effective(L, int(idx), float(alpha))
        got = sum(L[k] * a for k, a in w.items()) if all(0 <= k < len(L) for k in w) else np.nan
        return ctx.check(abs(got - d) <= 3 * tol * sp + 1e-12 * abs(d), kind + ":edge_value", got=got, d=d, L=L, **det)
    ctx.event("between_levels")
    ctx.check(not im, kind + ":inside_masked", d=d, L=L, **det)
    if im:
        return
    i = int(idx)
    ok = ctx.check(0 <= i < len(L) - 1, kind + ":index_range", got=i, d=d, L=L, **det)
    ok = ctx.check(-1e-12 <= alpha <= 1 + 1e-12, kind + ":alpha_range", got=alpha, **det) and ok
    if ok:
        a, b = L[i], L[i + 1]
        ctx.check(min(a, b) - tol * sp <= d <= max(a, b) + tol * sp, kind + ":not_bracketed", d=d, between=(a, b), **det)
        ctx.check(abs((1 - alpha) * a + alpha * b - d) <= tol * sp + 1e-12 * abs(d), kind + ":alpha", got=alpha, d=d, between=(a, b), **det)


@C12.scenario(quick=2000, thorough=30000, needs=["above", "below", "between_levels", "on_outer_level"])
def bracket(ctx):
    r, rng = ctx.r, ctx.rng
    L, desc = levels(ctx)
    kw = {}
    dflt = ["extrapolate", "mask"]
    if r.random() < 0.3:
        dflt[0] = kw["default_surface_boundary_condition"] = r.choice(["mask", "extrapolate"])
    form = r.choice(["array", "list"])
    dep = L_Depth(terms={"depth_levels": L.copy() if form == "array" else L.tolist()}, **kw)
    ctx.check(dep.num_levels == len(L) and dep.num_layers == len(L) - 1, "counts", got=(dep.num_levels, dep.num_layers))
    ctx.check(dep.surface_index == int(np.argmin(L)) and dep.bottom_index == int(np.argmax(L)), "surface_bottom", got=(dep.surface_index, dep.bottom_index))
    z = depth_queries(ctx, L, r.choice([1, 2, 8, 40]) if "points" not in ctx.big else r.choice([300, 3000]))
    pts = np.column_stack((rng.normal(size=len(z)), rng.normal(size=len(z)), z))
    bc = {}
    for n, k in enumerate(("surface_boundary_condition", "bottom_boundary_condition")):
        if r.random() < 0.6:
            dflt[n] = bc[k] = r.choice(["mask", "extrapolate"])
    idx, al = dep.interpolation_alphas(pts if r.random() < 0.8 else pts.tolist(), None, (len(L),) if r.random() < 0.5 else None, **bc)
    ctx.check(np.shape(idx) == (len(z),) and np.shape(al) == (len(z),), "shape", got=(np.shape(idx), np.shape(al)))
    im, am = np.ma.getmaskarray(idx), np.ma.getmaskarray(al)
    for n in range(len(z)):
        check_bracket(ctx, L, z[n], np.ma.getdata(idx)[n], np.ma.getdata(al)[n], im[n], am[n], dflt[0], dflt[1], "levels", bc=dflt)
    ctx.sig(len(L), desc, tuple(dflt), z[:2].tolist())
    ctx.note(levels=L, depths=z[:5], conditions=dflt)


@C12.scenario(quick=150, thorough=1500, needs=["surface_only", "from_file", "names_in_order"])
def surface_only_and_files(ctx):
    r, rng = ctx.r, ctx.rng
    n = r.randint(1, 6)
    pts = rng.normal(size=(n, 3)) * 10
    si = r.choice([-1, 0, 2])
    dep = Depth.surface_only(**r.choice([{}, {"surface_index": si}]))
    ctx.check(dep.num_levels == 1 and dep.num_layers == 1, "surface_only_counts", got=(dep.num_levels, dep.num_layers))
    for dep, want in ((Depth.surface_only(), -1), (Depth.surface_only(surface_index=si), si), (DepthBase(surface_index=si), si),
                      (L_Depth(terms={"depth_levels": np.array([r.uniform(0, 9)])}), 0)):
        idx, al = dep.interpolation_alphas(pts, None, (1,))
        ctx.event("surface_only")
        ctx.check(np.array_equal(np.ma.filled(idx, -99), np.full(n, want)) and np.array_equal(np.ma.filled(al, -99), np.zeros(n)), "surface_only", idx=idx, al=al)
    L, desc = levels(ctx)
    path = os.path.join(ctx.tmp(), "d.nc")
    names = ["depth", "depth_levels", "Depth"]
    name = r.choice(names)
    # of several variables with such names, the first name listed counts
    others = [n for n in names[names.index(name) + 1 :] if r.random() < 0.5]
    with nc4.Dataset(path, "w") as ds:
        ds.createDimension("z", len(L))
        for n in r.sample([name] + others, len(others) + 1):
            v = ds.createVariable(n, "f8", ("z",))
            v[:] = L if n == name else L * 2 + 1
        if others:
            ctx.event("names_in_order")
    dep = L_Depth.from_netCDF(filename=path) if r.random() < 0.5 else Depth.from_netCDF(filename=path)
    ctx.event("from_file")
    want = L.copy()
    want[np.argmin(want)] = 0.0
    ctx.check(type(dep) is L_Depth, "type", got=type(dep))
    ctx.close(dep.depth_levels, want, "levels_from_file")
    terms = {"depth_levels": L.copy()}
    L_Depth.from_netCDF(filename=path, terms=terms)
    ctx.check(np.array_equal(terms["depth_levels"], L), "terms_changed")
    ctx.sig(len(L), desc, name, si)


C13 = prop(
    "C13",
    "seeded terrain-following columns: structured grids with both vertical transforms, stretching curves and critical depths, and "
    "unstructured meshes with node-varying sigma, over random bathymetry and time-varying free surface; depths inside, at levels, above "
    "and below the column; non-trivial if a point is in the water column; distinct by (grid, terms, points, instant)",
    ["water depth stays positive; levels strictly ordered", "depths within 1e-6 of the column height of an outer level may be either side"],
)


def s_terms(ctx):
    r, rng = ctx.r, ctx.rng
    n = r.randint(30, 150) if "levels" in ctx.big else r.randint(2, 12)
    s_w = np.linspace(-1, 0, n + 1)
    s_rho = 0.5 * (s_w[1:] + s_w[:-1])
    th = r.choice([0.0, 1.0, 5.0])
    C = (lambda s: -s * 0 + s) if th == 0 else (lambda s: np.sinh(th * s) / np.sinh(th))
    return n, {"s_rho": s_rho, "s_w": s_w, "Cs_r": C(s_rho), "Cs_w": C(s_w)}


def single(ctx, a):
    """(the numbers, the same as stored): in single precision now and then"""
    if ctx.r.random() < 0.15:
        ctx.event("single_precision_terms")
        b = a.astype("f4")
        return b.astype("f8"), b
    return a, a.copy()


def critical_depth(ctx, vt):
    """the older transform asks for one shallower than the water, the newer takes any"""
    if vt == 2 and ctx.r.random() < 0.4:
        ctx.event("large_critical_depth")
        return ctx.r.choice([ctx.r.uniform(20, 250), 250.0])
    return ctx.r.uniform(0.1, 4.9)


def roms(ctx, f, ts, n_layers=None):
    """a ROMS-like depth on the structured field's grid; returns (depth, profile(pts-weights, t) )"""
    r, rng = ctx.r, ctx.rng
    n, terms = s_terms(ctx)
    h = rng.uniform(5, 200, f.lon.shape)
    vt = r.choice([1, 2])
    hc = critical_depth(ctx, vt)
    zeta = rng.uniform(-1.5, 1.5, (len(ts),) + f.lon.shape)
    g = f.make()
    h, hd = single(ctx, h)
    zeta, zd = single(ctx, zeta)
    hv = Variable(name="h", grid=g, data=hd, location="node")
    zv = Variable(name="zeta", grid=g, data=zd, time=Time(ts), location="node")
    t = dict(terms, hc=hc)
    dep = ROMS_Depth(name="d", time=zv.time, grid=g, bathymetry=hv, zeta=zv, terms=t, vtransform=vt)

    def s_coord(hp, zp, s, C):
        if vt == 2:
            S = (hc * s + hp * C) / (hc + hp)
            z = zp + (zp + hp) * S
        else:
            Z0 = hc * s + hp * C - hc * C
            z = Z0 + zp * (1 + Z0 / hp)
        return -z

    def column(node_w, t, which="w"):
        hp = sum(h[i] * a for i, a in node_w)
        w = gen.time_weights(ts, t)
        zp = sum(wk * sum(zeta[k][i] * a for i, a in node_w) for k, wk in enumerate(w))
        s, C = (terms["s_w"], terms["Cs_w"]) if which == "w" else (terms["s_rho"], terms["Cs_r"])
        return hp, zp, s_coord(hp, zp, s, C)

    return dep, column, n, ("roms", vt, n)


def fvcom(ctx, f, ts):
    r, rng = ctx.r, ctx.rng
    nn = len(f.nodes)
    n = r.randint(30, 150) if "levels" in ctx.big else r.randint(2, 8)
    base = np.sort(rng.uniform(0.05, 1, n - 1))[None] if n > 1 else np.zeros((1, 0))
    k = r.choice(["uniform", "uniform", "vary"])
    lev = np.zeros((n + 1, nn))
    for j in range(nn):
        p = 1.0 if k == "uniform" else r.uniform(0.6, 1.6)
        lev[:, j] = -(np.linspace(0, 1, n + 1) ** p)
    lay = 0.5 * (lev[1:] + lev[:-1])
    h = rng.uniform(5, 200, nn)
    zeta = rng.uniform(-1.5, 1.5, (len(ts), nn))
    g = f.make()
    h, hd = single(ctx, h)
    zeta, zd = single(ctx, zeta)
    lev, lv = single(ctx, lev)
    lay, ly = single(ctx, lay)
    dep = FVCOM_Depth(name="d", grid=g, time=Time(ts), bathymetry=Variable(name="h", grid=g, data=hd, location="node"),
                      zeta=Variable(name="zeta", grid=g, data=zd, time=Time(ts), location="node"), terms={"siglay": ly, "siglev": lv})

    def column(node_w, t, which="w"):
        hp = sum(h[i] * a for i, a in node_w)
        w = gen.time_weights(ts, t)
        zp = sum(wk * sum(zeta[k][i] * a for i, a in node_w) for k, wk in enumerate(w))
        sg = sum((lev if which == "w" else lay)[:, i[0]] * a for i, a in node_w)
        return hp, zp, -(zp + (zp + hp) * sg)

    return dep, column, n, ("fvcom", k, n)


def _sfield(ctx, kind, npts=None):
    f = gen.field(ctx, kinds=(kind,), locs=["node"], npts=npts, nmax=6)
    on = [i for i, w in enumerate(f.W) if w is not None]
    return f, on


@C13.scenario(quick=700, thorough=10000, needs=["between_levels", "above", "below", "roms", "fvcom", "profile"])
def columns(ctx):
    r, rng = ctx.r, ctx.rng
    kind = r.choice(["S", "U"])
    f, on = _sfield(ctx, kind)
    if kind == "U":
        on = on or None
        if on is None:
            raise Skip()
        f = f.take(on)
        on = list(range(len(f.pts)))
    ts, style = gen.time_axis(ctx, nmin=2, nmax=4, long=False)
    dep, column, n, desc = (roms if kind == "S" else fvcom)(ctx, f, ts)
    ctx.event(desc[0])
    ctx.check(dep.num_levels == n + 1 and dep.num_layers == n and len(dep) == n + 1, "counts", got=(dep.num_levels, dep.num_layers))
    t = r.choice([ts[0], ts[-1], ts[0] + (ts[-1] - ts[0]) * r.random()])
    ex = False
    if r.random() < 0.2:
        t, ex = ts[-1] + timedelta(days=1), True
    npt = len(f.pts)
    z = np.zeros(npt)
    cols, rhos = [None] * npt, [None] * npt
    for k in range(npt):
        if f.W[k] is None:
            continue
        hp, zp, c = column(f.W[k], t)
        cols[k] = (hp, zp, c)
        rhos[k] = column(f.W[k], t, "rho")[2]
        prof = c + zp  # below the actual surface
        tot = hp + zp
        m = r.random()
        if m < 0.6:
            i = r.randrange(n)
            w = r.choice([r.uniform(0.001, 0.999), 10 ** r.uniform(-5, -2), 1 - 10 ** r.uniform(-5, -2)])
            z[k] = prof[i] + (prof[i + 1] - prof[i]) * w
        elif m < 0.7:
            z[k] = prof[r.randrange(n + 1)]
        elif m < 0.85:
            z[k] = -r.choice([0.01, 5.0])
        else:
            z[k] = tot + r.choice([0.01, 300.0])
    pts = np.column_stack((f.pts, z))
    kw = {"extrapolate": True} if ex else {}
    s = dep.get_s_coordinate(pts, t, **kw)
    pr = dep.get_depth_profile(pts, t, **kw)
    sr = dep.get_s_coordinate(pts, t, data_shape=(n,), **kw)
    ctx.check(s.shape == (npt, n + 1) and pr.shape == (npt, n + 1) and sr.shape == (npt, n), "profile_shape", got=(s.shape, pr.shape, sr.shape))
    for k in range(npt):
        if cols[k] is None:
            ctx.check(np.ma.getmaskarray(pr)[k].all(), "off_grid_profile", got=pr[k])
            continue
        hp, zp, c = cols[k]
        tol = 1e-6 * (hp + abs(zp) + 1)
        ctx.event("profile")
        ctx.close(s[k], c, "s_coordinate", rtol=0, atol=tol, desc=desc)
        ctx.close(sr[k], rhos[k], "s_coordinate_layers", rtol=0, atol=tol, desc=desc)
        ctx.close(pr[k], c + zp, "depth_profile", rtol=0, atol=tol, desc=desc)
        ctx.check(abs(min(pr[k])) <= tol and abs(max(pr[k]) - (hp + zp)) <= tol, "surface_to_seafloor", got=pr[k], want=(0, hp + zp))
        df = np.diff(np.ma.getdata(pr)[k])
        ctx.check(np.all(df > 0) or np.all(df < 0), "levels_not_ordered", got=pr[k])
    dflt = ["extrapolate", "mask"]
    bc = {}
    for m, kk in enumerate(("surface_boundary_condition", "bottom_boundary_condition")):
        if r.random() < 0.6:
            dflt[m] = bc[kk] = r.choice(["mask", "extrapolate"])
    idx, al = dep.interpolation_alphas(pts, t, (n + 1,), **bc, **kw)
    im, am = np.ma.getmaskarray(idx), np.ma.getmaskarray(al)
    for k in range(npt):
        if cols[k] is None:
            ctx.check(im[k] and am[k], "off_grid_not_masked", idx=idx[k])
            continue
        check_bracket(ctx, cols[k][2] + cols[k][1], z[k], np.ma.getdata(idx)[k], np.ma.getdata(al)[k], im[k], am[k], dflt[0], dflt[1], "columns", 1e-6, desc=desc, bc=dflt)
    ctx.sig(f.desc, desc, style, tuple(dflt), z[:2].tolist())
    ctx.note(grid=f.desc, depth=desc, conditions=dflt)


def write_roms(ctx, path, lon_psi, lat_psi, h_rho, zeta_rho, ts, terms, hc, extra=None, zeta=True):
    """minimal ROMS history file: rho centers padded by one on each side of the psi nodes"""
    ny, nx = lon_psi.shape
    with nc4.Dataset(path, "w") as ds:
        for d, n in (("ocean_time", len(ts)), ("eta_rho", ny + 1), ("xi_rho", nx + 1), ("eta_psi", ny), ("xi_psi", nx), ("s_rho", len(terms["s_rho"])), ("s_w", len(terms["s_w"])), ("eta_u", ny + 1), ("xi_u", nx), ("eta_v", ny), ("xi_v", nx + 1)):
            ds.createDimension(d, n)
        v = ds.createVariable("ocean_time", "f8", ("ocean_time",))
        v.units = "seconds since 2000-01-01 00:00:00"
        v.standard_name = "time"
        v[:] = [(t - ts[0]).total_seconds() for t in ts]
        for n_, a in (("lon_psi", lon_psi), ("lat_psi", lat_psi)):
            ds.createVariable(n_, "f8", ("eta_psi", "xi_psi"))[:] = a
        lr = np.zeros((ny + 1, nx + 1))
        ds.createVariable("lon_rho", "f8", ("eta_rho", "xi_rho"))[:] = lr
        ds.createVariable("lat_rho", "f8", ("eta_rho", "xi_rho"))[:] = lr
        for n_, d in (("s_rho", "s_rho"), ("Cs_r", "s_rho"), ("s_w", "s_w"), ("Cs_w", "s_w")):
            ds.createVariable(n_, "f8", (d,))[:] = terms[n_]
        ds.createVariable("hc", "f8", ())[:] = hc
        ds.createVariable("h", "f8", ("eta_rho", "xi_rho"))[:] = h_rho
        if zeta:
            z = ds.createVariable("zeta", "f8", ("ocean_time", "eta_rho", "xi_rho")[-np.ndim(zeta_rho) :])
            if np.ndim(zeta_rho) == 3:
                z.time = "ocean_time"
            z[:] = zeta_rho
        for nm, dims, a in extra or ():
            v = ds.createVariable(nm, "f8", dims)
            if dims[0] == "ocean_time":
                v.time = "ocean_time"
            v[:] = a


@C13.scenario(quick=120, thorough=1200, needs=["large_critical_depth", "roms_file", "steady_zeta", "given_bathymetry", "given_zeta", "given_grid", "displaced", "in_mid_step"])
def roms_file(ctx):
    """cell-centered bathymetry and free surface of a ROMS file define the node columns"""
    from datetime import datetime

    r, rng = ctx.r, ctx.rng
    f, on = _sfield(ctx, "S", npts=5)
    if min(f.lon.shape) < 3 or not on:
        raise Skip()
    n, terms = s_terms(ctx)
    ny, nx = f.lon.shape
    nt = r.randint(1, 3)
    ts = [datetime(2000, 1, 1) + timedelta(hours=k) for k in range(nt)]
    h = rng.uniform(5, 200, (ny + 1, nx + 1))
    z = rng.uniform(-1, 1, (nt, ny + 1, nx + 1))
    vt = r.choice([1, 2])
    hc = critical_depth(ctx, vt)
    path = os.path.join(ctx.tmp(), "roms.nc")
    # (a missing free surface is a constant over all longitudes and latitudes)
    has_zeta = r.random() < 0.8 or np.abs(f.lon).max() > 350 or np.abs(f.lat).max() > 89
    steady = has_zeta and r.random() < 0.25
    write_roms(ctx, path, f.lon, f.lat, h, z[0] if steady else z, ts, terms, hc, zeta=has_zeta)
    if steady:
        z = z[:1].repeat(nt, axis=0)
        ctx.event("steady_zeta")
    if not has_zeta:
        z = z * 0
    av = lambda a: 0.25 * (a[..., :-1, :-1] + a[..., 1:, :-1] + a[..., :-1, 1:] + a[..., 1:, 1:])
    hp, zp = av(h), av(z)
    kw = {"vtransform": vt}
    if vt == 2 and r.random() < 0.5:
        kw = {}  # the newer transform is the usual one
    times = list(ts)
    if r.random() < 0.3:
        kw["grid"] = Grid_S(node_lon=f.lon.copy(), node_lat=f.lat.copy(), center_lon=np.zeros((ny + 1, nx + 1)), center_lat=np.zeros((ny + 1, nx + 1)))
        ctx.event("given_grid")
        # what is given goes before what is in the file
        if r.random() < 0.6:
            hp = rng.uniform(5, 200, (ny, nx))
            kw["bathymetry"] = Variable(name="h", grid=kw["grid"], data=hp.copy(), location="node")
            ctx.event("given_bathymetry")
        if r.random() < 0.4:
            zp = rng.uniform(-1, 1, (nt, ny, nx))
            kw["zeta"] = Variable(name="zeta", grid=kw["grid"], data=zp.copy(), time=Time(ts), location="node")
            steady, has_zeta = False, True
            ctx.event("given_zeta")
    if has_zeta and not steady and "zeta" not in kw and r.random() < 0.4:
        kw["displacement"] = timedelta(hours=r.choice([-7, 30]))
        times = [t + kw["displacement"] for t in ts]
        ctx.event("displaced")
    dep = Depth.from_netCDF(filename=path, **kw) if r.random() < 0.5 else ROMS_Depth.from_netCDF(filename=path, **kw)
    ctx.event("roms_file")
    ctx.check(type(dep) is ROMS_Depth, "type", got=type(dep))
    pts = np.column_stack((f.pts, np.zeros(len(f.pts))))
    t = r.choice(times)
    if nt > 1 and r.random() < 0.5:
        t = times[0] + (times[-1] - times[0]) * r.random()
        ctx.event("in_mid_step")
    zp = sum(a * b for a, b in zip(gen.time_weights(times, t), zp))
    prof = dep.get_depth_profile(pts, t)
    for m in on:
        hh = sum(hp[i] * a for i, a in f.W[m])
        zz = sum(zp[i] * a for i, a in f.W[m])
        S = (hc * terms["s_w"] + hh * terms["Cs_w"]) / (hc + hh)
        if vt == 2:
            want = -(zz + hh) * S
        else:
            Z0 = hc * terms["s_w"] + hh * terms["Cs_w"] - hc * terms["Cs_w"]
            want = -(Z0 + zz * (1 + Z0 / hh)) + zz
        ctx.close(prof[m], want, "profile_from_file", rtol=0, atol=1e-6 * (hh + 2), vt=vt, zeta=has_zeta)
    ctx.sig(f.desc, n, nt, vt, has_zeta, sorted(kw), steady)


@C13.scenario(quick=60, thorough=600, needs=["fvcom_file", "two_files", "no_zeta", "shared_standard_names"])
def fvcom_file(ctx):
    """the columns of a mesh, with sigma levels of its own at every node, from a file"""
    from datetime import datetime

    r, rng = ctx.r, ctx.rng
    f, on = _sfield(ctx, "U", npts=6)
    if not on or not len(f.faces) or f.faces.shape[1] != 3 or len(f.faces) == 3 or len(np.unique(f.faces)) < len(f.nodes):
        raise Skip()
    nn = len(f.nodes)
    n = r.randint(2, 5)
    ts = [datetime(2010, 5, 1) + timedelta(hours=6 * k) for k in range(r.randint(1, 3))]
    lev = -np.sort(np.concatenate((np.zeros((1, nn)), rng.uniform(0.01, 0.99, (n - 1, nn)), np.ones((1, nn)))), axis=0)
    lay = 0.5 * (lev[1:] + lev[:-1])
    h = rng.uniform(5, 200, nn)
    z = rng.uniform(-1, 1, (len(ts), nn))
    has_zeta = r.random() < 0.8 or np.abs(f.nodes[:, 0]).max() > 350 or np.abs(f.nodes[:, 1]).max() > 89
    std = r.random() < 0.5
    two = r.random() < 0.4
    paths = [os.path.join(ctx.tmp(), x) for x in (["g.nc", "d.nc"] if two else ["a.nc"])]
    dss = [nc4.Dataset(p, "w") for p in paths]
    for d in dss:
        for k, s in (("node", nn), ("nele", len(f.faces)), ("three", 3), ("siglay", n), ("siglev", n + 1), ("time", None)):
            d.createDimension(k, s)
    gd, dd = dss[0], dss[-1]
    gd.createVariable("lon", "f8", ("node",))[:] = f.nodes[:, 0]
    gd.createVariable("lat", "f8", ("node",))[:] = f.nodes[:, 1]
    gd.createVariable("nv", "i4", ("three", "nele"))[:] = f.faces.T + 1
    gd.createVariable("h", "f8", ("node",))[:] = h
    todo = [("siglay", lay), ("siglev", lev)]
    r.shuffle(todo)
    for nm, a in todo:
        v = r.choice([gd, dd]).createVariable(nm, "f8", (nm, "node"))
        v[:] = a
        if std:
            v.standard_name = "ocean_sigma/general_coordinate"
            ctx.event("shared_standard_names")
    if has_zeta:
        v = dd.createVariable("time", "f8", ("time",))
        v.units = "hours since 2010-05-01 00:00:00"
        v[:] = [6 * k for k in range(len(ts))]
        v = dd.createVariable("zeta", "f8", ("time", "node"))
        v.units = "m"
        v[:] = z
    else:
        z = z * 0
        ctx.event("no_zeta")
    for d in dss:
        d.close()
    src = {"grid_file": paths[0], "data_file": paths[1]} if two else {"filename": paths[0]}
    if two:
        ctx.event("two_files")
    dep = r.choice([Depth, FVCOM_Depth]).from_netCDF(**src)
    ctx.event("fvcom_file")
    ctx.check(type(dep) is FVCOM_Depth, "type", got=type(dep))
    ctx.check((dep.num_levels, dep.num_layers, dep.surface_index, dep.bottom_index) == (n + 1, n, 0, n), "counts", got=(dep.num_levels, dep.num_layers))
    t = ts[0] + (ts[-1] - ts[0]) * r.random()
    zt = sum(a * b for a, b in zip(gen.time_weights(ts, t), z))
    pts = np.column_stack((f.pts, np.zeros(len(f.pts))))
    for which, sg in ((None, lev), ((n,), lay)):
        prof = dep.get_depth_profile(pts, t, data_shape=which)
        for m in on:
            hh = sum(h[i] * a for i, a in f.W[m])
            zz = sum(zt[i] * a for i, a in f.W[m])
            ss = sum(sg[:, i[0]] * a for i, a in f.W[m])
            ctx.close(prof[m], -(zz + hh) * ss, "profile_from_file", rtol=0, atol=1e-6 * (hh + 2), zeta=has_zeta, two=two)
    ctx.sig(f.desc, n, len(ts), two, has_zeta, std)


C14 = prop(
    "C14",
    "seeded 3-D and 4-D variables on the three kinds of grid with level depths (either direction), and with terrain-following depths on "
    "structured grids and meshes; data on levels or on layers; time axis present or not, before or after depth; every boundary "
    "condition; points in, above and below the water and off the grid; non-trivial if a point is between two levels; distinct by "
    "(grid, depth, points, instant)",
    ["points are well inside their cell and off the level depths", "values compared to 1e-5 of the amplitude"],
)


def _want_depth(L, Vcol, d, sbc, bbc, on_layers):
    """reference value along one column; (value, masked)"""
    surf, bot = int(np.argmin(L)), int(np.argmax(L))
    n = len(Vcol)
    if d < L.min() or d > L.max():
        bc, lev = (sbc, surf) if d < L.min() else (bbc, bot)
        if bc == "mask":
            return 0.0, True
        return float(Vcol[min(lev, n - 1)] if on_layers else Vcol[lev]), False
    i = int(np.flatnonzero((np.minimum(L[:-1], L[1:]) <= d) & (d <= np.maximum(L[:-1], L[1:])))[0])
    if on_layers:
        return float(Vcol[i]), False
    a = (d - L[i]) / (L[i + 1] - L[i])
    return float((1 - a) * Vcol[i] + a * Vcol[i + 1]), False


@C14.scenario(quick=1500, thorough=20000, needs=["layers", "levels", "level_depth", "roms", "fvcom", "depth_first", "no_time", "above", "below", "masked_deep"])
def values(ctx):
    r, rng = ctx.r, ctx.rng
    dk = r.choice(["L", "L", "L", "S", "U"])
    ts, style = gen.time_axis(ctx, nmin=2, nmax=4, long=False)
    timed = r.random() < 0.7
    t = r.choice([ts[0], ts[-1], ts[0] + (ts[-1] - ts[0]) * r.random(), ts[-1] + timedelta(seconds=5)])
    ex = t > ts[-1]
    if dk == "L":
        f = gen.field(ctx, nmax=6)
        L, desc = levels(ctx, nmax=8)
        dep = L_Depth(terms={"depth_levels": L.copy()})
        cols = [L] * len(f.pts)
        ddesc = ("levels", desc, len(L))
        ctx.event("level_depth")
        nlev = len(L)
    else:
        f = gen.field(ctx, kinds=(dk,), nmax=6)
        if f.kind == "U":
            on = [i for i, w in enumerate(f.W) if w is not None]
            if not on:
                raise Skip()
            f = f.take(on)
        dep, column, n, ddesc = (roms if dk == "S" else fvcom)(ctx, f, ts)
        ctx.event(ddesc[0])
        cols = []
        for w in f.NW:
            if w is None:
                cols.append(None)
            else:
                hp, zp, c = column(w, t)
                cols.append(c + zp)
        nlev = n + 1
    on_layers = nlev > 2 and r.random() < 0.4
    nz = nlev - 1 if on_layers else nlev
    ctx.event("layers" if on_layers else "levels")
    depth_first = timed and nz == len(ts) and r.random() < 0.6
    lead = (len(ts), nz) if timed else (nz,)
    data = np.stack([f.layer() for _ in range(int(np.prod(lead)))]).reshape(lead + f.shape)
    scale = np.abs(data).max()
    deep_masked = False
    arr = data
    if dk == "L" and f.kind == "S" and f.loc == "center" and r.random() < 0.6:
        # the deepest level is under ground everywhere
        deep_masked = True
        ctx.event("masked_deep")
        bot = int(np.argmax(L)) if not on_layers else min(int(np.argmax(L)), nz - 1)
        mk = np.zeros(data.shape, bool)
        mk[(slice(None), bot) if timed else bot] = True
        arr = np.ma.MaskedArray(data, mask=mk)
    if depth_first:
        ctx.event("depth_first")
        arr = np.swapaxes(arr, 0, 1)
    if not timed:
        ctx.event("no_time")
    vkw = {}
    dflt = ["extrapolate", "mask"]
    bc = {}
    for m, k in enumerate(("surface_boundary_condition", "bottom_boundary_condition")):
        q = r.random()
        if q < 0.3:
            dflt[m] = vkw[k] = r.choice(["mask", "extrapolate"])
        if q > 0.2 and q < 0.7:
            dflt[m] = bc[k] = r.choice(["mask", "extrapolate"])
    v = Variable(name="x", grid=dep.grid if dk != "L" else f.make(), data=arr, depth=dep, location=f.loc, time=Time(ts) if timed else None, **vkw)
    if depth_first:
        v.dimension_ordering = ["depth", "time"] + (["ele"] if f.kind == "U" else ["lon", "lat"])
    npt = len(f.pts)
    z = np.zeros(npt)
    for k in range(npt):
        c = cols[k]
        if c is None:
            continue
        m = r.random()
        if m < 0.65:
            i = r.randrange(nlev - 1)
            z[k] = c[i] + (c[i + 1] - c[i]) * r.uniform(0.01, 0.99)
        elif m < 0.85:
            ctx.event("above")
            z[k] = c.min() - r.choice([0.05, 7.0])
        else:
            ctx.event("below")
            z[k] = c.max() + r.choice([0.05, 300.0])
    w = gen.time_weights(ts, t) if timed else np.ones(1)
    D = data if timed else data[None]
    H = np.array([[f.ref(D[a, b])[0] for b in range(nz)] for a in range(len(w))])  # time, depth, point
    off = f.ref(data.reshape((-1,) + f.shape)[0])[1]
    want, mask = np.zeros(npt), np.zeros(npt, bool)
    for k in range(npt):
        if cols[k] is None:
            mask[k] = True
            continue
        val, mk_ = _want_depth(cols[k], w @ H[:, :, k], z[k], dflt[0], dflt[1], on_layers)
        if deep_masked and not mk_:
            # does the answer need the deepest level?
            if on_layers:
                i = int(np.flatnonzero((np.minimum(L[:-1], L[1:]) <= z[k]) & (z[k] <= np.maximum(L[:-1], L[1:])))[0]) if L.min() <= z[k] <= L.max() else (min(int(np.argmin(L)), nz - 1) if z[k] < L.min() else min(int(np.argmax(L)), nz - 1))
                mk_ = i == bot
            else:
                mk_ = z[k] > np.sort(L)[-2]
        want[k], mask[k] = val, mk_ or off[k]
    pts = np.column_stack((f.pts, z))
    kw = dict(bc)
    if ex:
        kw["extrapolate"] = True
    got = v.at(pts if r.random() < 0.7 or npt in (2, 3) else pts.tolist(), t, **kw)
    ctx.check(got.shape == (npt, 1), "shape", got=got.shape)
    g = np.ma.asarray(got).reshape(-1)
    gm = np.ma.getmaskarray(g)
    for k in range(npt):
        d = dict(grid=f.desc, depth=ddesc, z=z[k], col=cols[k], layers=on_layers, bc=dflt, timed=timed, depth_first=depth_first, deep=deep_masked)
        ctx.check(gm[k] == mask[k], "mask", got=gm[k], want=mask[k], **d)
        if not mask[k] and not gm[k]:
            ctx.check(abs(float(g[k]) - want[k]) <= 1e-5 * scale, "value", got=g[k], want=want[k], **d)
    ctx.sig(f.desc, ddesc, on_layers, tuple(dflt), timed, depth_first, z[:2].tolist())
    ctx.note(grid=f.desc, depth=ddesc, data_on="layers" if on_layers else "levels", timed=timed)


@C14.scenario(quick=400, thorough=5000, needs=["on_level", "next_missing", "with_others", "alone", "beside_one_on_a_level"])
def on_levels(ctx):
    """exactly at a level, the values at other levels (missing ones too) and other points do not matter"""
    r, rng = ctx.r, ctx.rng
    f = gen.field(ctx, nmax=6, npts=r.choice([1, 3, 6]))
    L, desc = levels(ctx, nmax=8)
    if len(L) < 3:
        raise Skip()
    timed = r.random() < 0.5
    ts, style = gen.time_axis(ctx, nmin=2, nmax=3, long=False)
    lead = (len(ts), len(L)) if timed else (len(L),)
    data = np.stack([f.layer() for _ in range(int(np.prod(lead)))]).reshape(lead + f.shape)
    scale = np.abs(data).max()
    bad = rng.random(len(L)) < 0.4
    mk = np.zeros(data.shape, bool)
    mk[(slice(None), bad) if timed else bad] = True
    nan = r.random() < 0.5
    arr = np.where(mk, np.nan, data) if nan else np.ma.MaskedArray(data, mask=mk)
    v = Variable(name="x", grid=f.make(), data=arr, depth=L_Depth(terms={"depth_levels": L.copy()}), location=f.loc, time=Time(ts) if timed else None)
    t = ts[0] + (ts[-1] - ts[0]) * r.random()
    w = gen.time_weights(ts, t) if timed else np.ones(1)
    D = data if timed else data[None]
    H = np.array([[f.ref(D[a, b])[0] for b in range(len(L))] for a in range(len(w))])
    off = f.ref(data.reshape((-1,) + f.shape)[0])[1]
    npt = len(f.pts)
    at = [r.randrange(len(L)) if r.random() < 0.6 else None for _ in range(npt)]
    z = np.array([L[k] if k is not None else r.uniform(L.min(), L.max()) for k in at])
    for n, k in enumerate(at):
        # others between that level and one of the next ones
        if k is None and r.random() < 0.6:
            on = r.choice([x for x in at if x is not None] or [0])
            to = min(max(on + r.choice([-1, 1]), 0), len(L) - 1)
            z[n] = L[on] + (L[to] - L[on]) * r.uniform(0.01, 0.99)
    pts = np.column_stack((f.pts, z))
    bc = {"bottom_boundary_condition": "extrapolate"}  # the deepest level counts as below or not
    got = np.ma.asarray(v.at(pts, t, **bc)).reshape(-1)
    for n, k in enumerate(at):
        if k is None:
            b = int(np.searchsorted(-L if L[0] > L[-1] else L, -z[n] if L[0] > L[-1] else z[n])) - 1
            if 0 <= b < len(L) - 1 and not bad[b : b + 2].any() and min(abs(z[n] - L[b]), abs(z[n] - L[b + 1])) > 1e-6 * abs(L[b + 1] - L[b]):
                if any(x in (b, b + 1) for x in at):
                    ctx.event("beside_one_on_a_level")
                a = (z[n] - L[b]) / (L[b + 1] - L[b])
                want = float(w @ ((1 - a) * H[:, b, n] + a * H[:, b + 1, n]))
                if ctx.check(bool(np.ma.getmaskarray(got)[n]) == bool(off[n]), "between_mask", b=b, bad=bad, L=L, grid=f.desc) and not off[n]:
                    ctx.check(abs(float(got[n]) - want) <= 1e-6 * scale, "between_value", got=got[n], want=want, b=b, L=L, z=z, grid=f.desc)
        if k is None or bad[k]:
            continue
        ctx.event("on_level")
        if bad[max(k - 1, 0) : k + 2].any():
            ctx.event("next_missing")
        want = float(w @ H[:, k, n])
        one = np.ma.asarray(v.at(pts[n : n + 1], t, **bc)).reshape(-1)
        for how, g in (("with_others", got[n]), ("alone", one[0])):
            ctx.event(how)
            if not ctx.check(bool(np.ma.getmaskarray(np.ma.asarray(g)).any()) == bool(off[n]), "on_level_mask:" + how, k=k, bad=bad, L=L, nan=nan, grid=f.desc) or off[n]:
                continue
            ctx.check(abs(float(g) - want) <= 1e-6 * scale, "on_level_value:" + how, got=g, want=want, k=k, bad=bad, L=L, nan=nan, grid=f.desc)
    ctx.sig(f.desc, desc, bad.tolist(), at, timed, nan)


@C14.scenario(quick=200, thorough=2500, needs=["surface_only"])
def surface_only(ctx):
    """a surface-only depth always answers from the surface index"""
    r, rng = ctx.r, ctx.rng
    f = gen.field(ctx)
    nz = r.randint(1, 4)
    si = r.choice([-1, 0, nz - 1])
    timed = r.random() < 0.6
    ts, style = gen.time_axis(ctx, nmin=2, nmax=3, long=False)
    lead = (len(ts), nz) if timed else (nz,)
    data = rng.normal(size=lead + f.shape)
    v = Variable(name="x", grid=f.make(), data=data, depth=Depth.surface_only(surface_index=si), time=ts if timed else None, location=f.loc)
    t = ts[0] + (ts[-1] - ts[0]) * r.random()
    w = gen.time_weights(ts, t) if timed else np.ones(1)
    D = data if timed else data[None]
    want = sum(wk * f.ref(D[k, si])[0] for k, wk in enumerate(w))
    pts = np.column_stack((f.pts, rng.uniform(-5, 50, len(f.pts))))
    ctx.event("surface_only")
    _cmp(ctx, v.at(pts, t), want, f.ref(D[0, 0])[1], np.abs(data).max(), "surface_only", grid=f.desc, si=si, nz=nz)
    ctx.sig(f.desc, nz, si, timed)
