"""How arrays are stored carries no meaning (C05..C09, C12, C14): same numbers, same answers.

Metamorphic: one object built from plain C-ordered double arrays, others from the same numbers stored in another order, byte order,
precision (only numbers that the precision holds exactly), read-only, masked without any mask; the answers must be the same.
"""

import numpy as np

from .. import gen
from ..gen import dyadic as _dyadic, restore
from ..core import PROPS, Skip
from . import p_field, p_sgrid, p_ugrid  # the properties
from .p_field import Variable
from gridded.grids import Grid_R, Grid_S, Grid_U
from gridded.depth import L_Depth
from gridded.time import Time
from datetime import datetime, timedelta

SMALL = ["i1", "u1", "i2", "u2"]


def _geometry(ctx, kind):
    """(args, make, data shape of each location, points inside)"""
    r, rng = ctx.r, ctx.rng
    whole = r.random() < 0.3
    if kind == "U":
        nodes, faces, _, desc = gen.tri_mesh(ctx, nmax=30)
        if len(nodes) == len(faces):
            nodes = np.vstack((nodes, nodes.max(0) + np.ptp(nodes, axis=0) * 3))
        if whole:
            nodes = np.round((nodes - nodes.min(0)) / np.ptp(nodes, axis=0) * 120)
        else:
            nodes = _dyadic(nodes)
        if nodes is None or gen.tri_quality(nodes, faces).min() < 1e-3:
            raise Skip()
        pts = [rng.dirichlet([2, 2, 2]) @ nodes[faces[r.randrange(len(faces))]] for _ in range(12)]
        args = {"nodes": nodes, "faces": faces}
        return args, Grid_U, {"node": (len(nodes),), "face": (len(faces),)}, pts, desc
    if kind == "S":
        lon, lat, desc = gen.quad_grid(ctx, nmax=7)
        if whole:
            s = 120 / max(np.ptp(lon), np.ptp(lat))
            lon, lat = np.round((lon - lon.min()) * s), np.round((lat - lat.min()) * s)
        else:
            xy = _dyadic(np.column_stack((lon.ravel(), lat.ravel())))
            if xy is None:
                raise Skip()
            lon, lat = xy[:, 0].reshape(lon.shape).copy(), xy[:, 1].reshape(lon.shape).copy()
        if not gen._convex_ok(lon, lat, 0.02):
            raise Skip()
        ny, nx = lon.shape
        pts = [gen.cell_point(lon, lat, r.randrange(ny - 1), r.randrange(nx - 1), r.uniform(0.05, 0.95), r.uniform(0.05, 0.95)) for _ in range(12)]
        args = {"node_lon": lon, "node_lat": lat}
        if r.random() < 0.6:
            args["center_mask"] = (rng.random((ny - 1, nx - 1)) < 0.3).astype(int)

        def make(**kw):
            return Grid_S(face_padding=("none", "none"), **kw)

        return args, make, {"node": (ny, nx), "center": (ny - 1, nx - 1), "edge1": (ny - 1, nx), "edge2": (ny, nx - 1)}, pts, desc
    x = np.cumsum(rng.integers(1, 30, r.randint(2, 8))).astype(float) - 60
    y = np.cumsum(rng.integers(1, 20, r.choice([k for k in range(2, 9) if k != len(x)]))).astype(float) - 80
    if not whole:
        x, y = x / 8, y / 8
    if r.random() < 0.4:
        y = y[::-1].copy()
    pts = [(r.uniform(x.min(), x.max()), r.uniform(y.min(), y.max())) for _ in range(12)]
    return {"node_lon": x, "node_lat": y}, Grid_R, {"node": (len(y), len(x))}, pts, ("R", len(y), len(x))


def _answers(g, kind, what, pts, data, loc, ts, t, near=True, levels=None):
    out = {}
    if what == "locate":
        out["locate_faces"] = g.locate_faces(pts)
        out["one"] = g.locate_faces(pts[0])
        if kind == "U" and near:
            out["locate_nodes"] = g.locate_nodes(pts)
        if kind == "S" and near:
            out["nearest"] = g.locate_nearest(pts, "node")
        if kind == "S":
            out["unmasked"] = g.locate_faces(pts, use_mask=False)
        return out
    v = Variable(name="x", data=data, grid=g, location=loc, time=None if ts is None else Time(list(ts)), fill_value=-7.0)
    if levels is not None:
        z = L_Depth(terms={"depth_levels": levels})
        v.depth = z
        out["depth_indices"], out["depth_alphas"] = z.interpolation_alphas(pts, t, (len(levels),))
        if what != "levels":
            out["at"] = v.at(pts, t)
        return out
    out["at"] = v.at(pts, t)
    out["grid"] = g.interpolate_var_to_points(pts, data if isinstance(data, np.ndarray) else np.asarray(data), location=loc, slices=None if ts is None else (0,))
    return out


def _plain(a):
    m = np.ma.getmaskarray(a)
    d = np.array(np.ma.getdata(a), dtype=float)
    d[m] = -9e9
    return d[:, 0] if d.ndim == 2 and d.shape[1] == 1 else d


def storage(ctx, kind, what):
    r, rng = ctx.r, ctx.rng
    args, make, shapes, pts, desc = _geometry(ctx, kind)
    pts = np.array(pts)
    sp = np.ptp(pts, axis=0) + 1e-3
    pts[r.randrange(len(pts))] = pts.max(0) + 9 * sp
    if r.random() < 0.6:
        p = np.round(pts) if r.random() < 0.3 else pts.astype("f4").astype("f8")
        pts = p
    loc = r.choice(sorted(shapes))
    timed = what == "time" or r.random() < 0.5 and what not in ("locate", "levels")
    ts = [datetime(2000, 1, 1) + timedelta(hours=h) for h in range(3)] if timed else None
    t = ts[0] + timedelta(minutes=r.choice([0, 30, 45, 77, 120])) if ts else None
    lev = None
    if what in ("levels", "depth"):
        lev = np.cumsum([0] + [r.choice([1, 2, 5, 10]) for _ in range(r.randint(1, 5))]).astype(float)
        if r.random() < 0.4:
            lev = lev[::-1].copy()
        z = np.array([r.choice([r.uniform(0, lev.max()), r.choice(list(lev)), r.uniform(-1, lev.max() + 2)]) for _ in pts])
        pts = np.column_stack((pts, z))
        if r.random() < 0.6:
            pts = pts.astype("f4").astype("f8")
    shape = (() if ts is None else (3,)) + (() if lev is None else (len(lev),)) + shapes[loc]
    scale = r.choice([1, 100])
    data = rng.integers(0, 120 if r.random() < 0.5 else 30000, shape).astype(float)
    if r.random() < 0.3:
        data = data / 16
    g0 = make(**{k: a.copy() for k, a in args.items()})
    ref = _answers(g0, kind, what, pts.copy(), data.copy(), loc, ts, t, levels=lev)
    ctx.sig((kind, what, desc, loc, ts is not None, pts.tobytes(), data.tobytes()))
    for _ in range(3):
        names = {}
        kw = {}
        for k, a in args.items():
            kw[k] = a.copy()
            if r.random() < 0.5:
                ints = ("i4", "i8", "i2") if a.dtype.kind == "f" else ("i4", "i8", "u4", "i2", "u1")
                if k == "center_mask":
                    ints += ("bool", "f4")
                try:
                    names[k], kw[k] = restore(r, a, ints=ints, lists=kind == "U", masked=k != "faces" or True)
                except (OverflowError, TypeError):
                    pass
        p, d = pts.copy(), data.copy()
        if r.random() < 0.5:
            names["points"], p = restore(r, pts, ints=("i4", "i8", "i2"), lists=True)
        if r.random() < 0.6 and what != "locate":
            fits = [x for x in SMALL + ["i4", "i8", "u4", "u8"] if np.array_equal(data.astype(x).astype(float), data)]
            if fits and r.random() < 0.4:
                k = r.choice(fits)
                names["data"], d = k, data.astype(k)
            else:
                names["data"], d = restore(r, data, ints=SMALL + ["i4", "i8"])
        z = None if lev is None else lev.copy()
        if lev is not None and r.random() < 0.6:
            names["levels"], z = restore(r, lev, ints=("i4", "i8", "i2", "u1"), lists=True)
        given = dict(kw, points=p, data=d, levels=z)
        snap = {k: None if a is None else np.array(a) for k, a in given.items()}
        try:
            got = _answers(make(**kw), kind, what, p, d, loc, ts, t, levels=z)
        except Exception as e:
            ctx.check(False, "storage_refused:%s" % type(e).__name__, storage=names, error=str(e)[:200], kind=kind)
            continue
        for q in ref:
            a, b = _plain(got[q]), _plain(ref[q])
            ok = a.shape == b.shape and (np.array_equal(a, b) if what == "locate" else np.allclose(a, b, rtol=1e-6, atol=1e-4 * scale * (np.abs(data).max() + 1) / 100, equal_nan=True))
            ctx.check(ok, "storage_matters:" + q, storage=names, loc=loc, kind=kind, got=a.ravel()[:8], want=b.ravel()[:8], time=t)
        ctx.check(all(np.array_equal(a, snap[k]) if a is not None else snap[k] is None for k, a in given.items()), "input_changed", storage=names)
        for k, n in names.items():
            ctx.event("stored_" + n if n in ("fortran", "strided", "reversed", "read_only", "swapped", "masked", "list", "plain") else "stored_other_precision")
            if k in ("data", "points", "levels"):
                ctx.event("stored_" + k)
    # rows that are no place, among others
    q = pts.copy()
    odd = rng.random(len(q)) < 0.3
    odd[r.randrange(len(q))] = True
    for i in np.where(odd)[0]:
        q[i, r.randrange(2)] = r.choice([np.nan, np.nan, np.inf, -np.inf, 1e300])
    got = _answers(g0 if r.random() < 0.5 else make(**{k: a.copy() for k, a in args.items()}), kind, what, q, data.copy(), loc, ts, t, near=False, levels=lev)
    for n in ref:
        if n in ("one", "locate_nodes", "nearest"):
            continue
        a, b = _plain(got[n]), _plain(ref[n])
        ctx.check(a.shape == b.shape and np.array_equal(a[~odd], b[~odd], equal_nan=True), "no_place_disturbs_others:" + n, kind=kind, q=q, got=a.ravel()[:12], want=b.ravel()[:12])
        if what == "locate":
            w = -9e9 if kind == "S" else -1
            ctx.check(np.all(a[odd] == w), "no_place_located:" + n, kind=kind, got=got[n])
        elif kind in "US" and not n.startswith("depth"):
            ctx.check(np.all((a[odd] == (0 if kind == "U" else -9e9)) | ((a[odd] == -9e9) if lev is not None else False)), "no_place_has_value:" + n, kind=kind, got=got[n])
    ctx.event("no_place")
    # many rows: each has the answer of its point
    k = r.choice([90, 180, 400])
    m = _answers(g0, kind, what, np.tile(pts, (k, 1)), data.copy(), loc, ts, t, levels=lev)
    for n in ref:
        if n != "one":
            a, b = _plain(m[n]), _plain(ref[n])
            ctx.check(a.shape == (k * len(b),) + b.shape[1:] and np.array_equal(a, np.tile(b, (k,) + (1,) * (b.ndim - 1)), equal_nan=True), "many_rows:" + n, kind=kind, k=k)
    ctx.event("many_rows")


NEEDS = ["stored_fortran", "stored_strided", "stored_read_only", "stored_swapped", "stored_other_precision", "stored_points", "no_place", "many_rows"]


def _add(pid, kind, what, quick):
    def fn(ctx):
        storage(ctx, kind or ctx.r.choice("USR"), what)

    fn.__name__ = "storage" if not (pid == "C09" and what == "values") else "storage_values"
    PROPS[pid].scenario(quick=quick, thorough=quick * 12, needs=NEEDS + {"locate": [], "levels": ["stored_levels"], "depth": ["stored_data", "stored_levels"]}.get(what, ["stored_data"]))(fn)


_add("C05", "U", "locate", 60)
_add("C06", "U", "values", 80)
_add("C07", "S", "locate", 60)
_add("C08", "S", "values", 100)
_add("C09", "R", "locate", 40)
_add("C09", "R", "values", 60)
_add("C12", None, "levels", 60)
_add("C14", None, "depth", 100)
_add("C04", None, "time", 80)
