"""C07 locating points on structured (curvilinear) grids, C08 interpolating on them."""

import numpy as np

from gridded.grids import Grid_S
from gridded.pysgrid.sgrid import SGrid
from gridded.variable import Variable

from .. import gen
from ..core import prop

C07 = prop(
    "C07",
    "seeded quadrilateral grids (rectilinear, rotated by any angle, sheared, polar, jittered, almost rectangular; any index "
    "direction) with and without cell masks (all paddings), node masks or masked coordinates; points built inside known cells and "
    "around the grid; non-trivial if a point is strictly inside a cell; distinct by (grid, masks, points)",
    ["convex, non-overlapping cells", "points closer than 1e-6 of a cell size to a cell border may be given to either side"],
)

EPS = 1e-6
PADS = ["none", "low", "high", "both"]
NPAD = {"none": 0, None: 0, "low": 1, "high": 1, "both": 2}
OFF = {"none": 0, None: 0, "low": 1, "high": 0, "both": 1}


def pad_into(core, padding, fill):
    """embed a cell array in one with ghost rows/columns"""
    out = np.full((core.shape[0] + NPAD[padding[0]], core.shape[1] + NPAD[padding[1]]), fill, dtype=core.dtype)
    o0, o1 = OFF[padding[0]], OFF[padding[1]]
    out[o0 : o0 + core.shape[0], o1 : o1 + core.shape[1]] = core
    return out


def _truth(lon, lat, spec, masked):
    """(admissible cells, none_ok): masked is a cell mask"""
    p, cell, l, m = spec
    mg = gen.cell_margins(lon, lat, p)
    inside = [tuple(c) for c in np.argwhere(mg > EPS)]
    touch = [tuple(c) for c in np.argwhere(mg > -EPS)]
    return inside, touch


def _decide(ctx, got, inside, touch, masked, kind, **d):
    got = tuple(int(x) for x in got)
    live = [c for c in inside if not masked[c]]
    if live:
        ctx.event("strictly_inside")
        return ctx.check(got in [c for c in touch if not masked[c]], kind + ":inside", got=got, want=live, **d)
    livet = [c for c in touch if not masked[c]]
    if not livet:
        ctx.event("in_masked_cell" if inside else "strictly_outside")
        return ctx.check(got == (-1, -1), kind + (":masked_cell" if inside else ":outside"), got=got, inside=inside, **d)
    ctx.event("on_border")
    return ctx.check(got == (-1, -1) or got in livet, kind + ":border", got=got, want=livet, **d)


def _rows(ctx, res, n, kind):
    ctx.check(res.shape == (n, 2), kind + ":shape", got=res.shape, want=(n, 2))
    a = np.ma.filled(np.ma.asarray(res), -1)
    mk = np.ma.getmaskarray(res)
    ctx.check(np.array_equal(mk, a < 0) and np.array_equal(mk[:, 0], mk[:, 1]), kind + ":mask_convention", mask=mk, val=a)
    return a


@C07.scenario(quick=900, thorough=15000,
              needs=["strictly_inside", "strictly_outside", "in_masked_cell", "center_mask", "node_mask", "masked_coords", "masked_in_one", "memo", "row_then_point"])
def locate(ctx):
    r, rng = ctx.r, ctx.rng
    lon, lat, desc = gen.quad_grid(ctx, nmax=25 if r.random() < 0.05 else 9)
    ny, nx = lon.shape
    cls = r.choice([SGrid, Grid_S])
    cm = np.zeros((ny - 1, nx - 1), bool)
    kw = {}
    how = r.choice(["none", "center", "center", "node", "coords", "center_clear", "center_and_node"])
    use_masked_boundary = False
    pad = ("none", "none")
    if how in ("center", "center_clear", "center_and_node"):
        if how != "center_clear":
            cm = rng.random(cm.shape) < r.choice([0.1, 0.5, 0.9])
        pad = (r.choice(PADS), r.choice(PADS))
        full = pad_into(cm, pad, r.random() < 0.5)
        kw["center_mask"] = full if r.random() < 0.7 else full.astype(int)
        if pad != ("none", "none") or r.random() < 0.5:
            kw["face_padding"] = pad
        ctx.event("center_mask")
        if how == "center_and_node":
            kw["node_mask"] = rng.random(lon.shape) < 0.5
    elif how in ("node", "coords"):
        nm = rng.random(lon.shape) < r.choice([0.05, 0.3])
        use_masked_boundary = r.random() < 0.2
        corners = np.stack([nm[:-1, :-1], nm[:-1, 1:], nm[1:, 1:], nm[1:, :-1]])
        cm = corners.all(0) if use_masked_boundary else corners.any(0)
        if use_masked_boundary:
            kw["use_masked_boundary"] = True
        if how == "node":
            kw["node_mask"] = nm
            ctx.event("node_mask")
        else:
            ctx.event("masked_coords")
    if cm.all():
        ctx.event("all_cells_masked")
    if cm.all() and r.random() < 0.7:
        cm[r.randrange(ny - 1), r.randrange(nx - 1)] = False
        if "center_mask" in kw:
            kw["center_mask"] = pad_into(cm, pad, True)
        elif how in ("node", "coords"):
            nm = np.zeros(lon.shape, bool)
            kw.pop("node_mask", None)
            if how == "node":
                kw["node_mask"] = nm
            cm[:] = False
    llon, llat = lon, lat
    if how == "coords":
        # masked in one of them is enough
        a, b = nm.copy(), nm.copy()
        if r.random() < 0.4:
            part = rng.random(nm.shape)
            a[part < 0.4], b[part > 0.6] = False, False
            ctx.event("masked_in_one")
        llon = np.ma.MaskedArray(lon.copy(), mask=a)
        llat = np.ma.MaskedArray(lat.copy(), mask=b)
    g = cls(node_lon=llon, node_lat=llat, **kw)
    specs = gen.grid_points(ctx, lon, lat, n=r.choice([1, 6, 30, 30, 100]))
    pts = np.array([s[0] for s in specs])
    truth = [_truth(lon, lat, s, cm) for s in specs]
    none = np.zeros_like(cm)
    # the same questions in any order, with and without masks, must not disturb each other
    order = [r.choice([True, True, False]) for _ in range(r.randint(1, 3))]
    if order.count(False) == len(order):
        order.append(True)
    for um in order:
        q = pts if r.random() < 0.6 else pts.tolist()
        if r.random() < 0.3:
            ctx.event("memo")
            ask = r.choice([g.locate_faces, g.index_of])
            res = ask(q, _memo=True, _copy=r.random() < 0.5, use_mask=um)
        else:
            res = g.locate_faces(q, use_mask=um) if (not um or r.random() < 0.5) else g.locate_faces(q)
        a = _rows(ctx, res, len(pts), "locate")
        for n in range(len(pts)):
            _decide(ctx, a[n], truth[n][0], truth[n][1], cm if um else none, "use_mask=%s" % um, how=how, desc=desc, order=order, pt=pts[n])
    a = np.ma.filled(g.locate_faces(pts), -1)
    for n in rng.permutation(len(pts))[:3]:
        kw = {"_memo": True} if r.random() < 0.5 else {}
        if kw and r.random() < 0.5:
            # the same numbers as a row, then as a point
            row = np.ma.filled(g.locate_faces(pts[n : n + 1], **kw), -1)
            ctx.check(row.shape == (1, 2) and tuple(row[0]) == tuple(a[n]), "single_row", got=row, want=a[n])
            ctx.event("row_then_point")
        s = np.asarray(g.locate_faces(pts[n], **kw))
        ctx.check(s.shape == (2,) and tuple(s) == tuple(a[n]), "single_point", got=s, want=a[n])
    io = np.ma.filled(g.index_of(pts), -1)
    ctx.check(np.array_equal(io, a), "index_of")
    ctx.sig(desc, lon.shape, how, pad, order, use_masked_boundary, pts[0].tolist())
    ctx.note(grid=desc, shape=lon.shape, masks=how, padding=pad)


@C07.scenario(quick=150, thorough=2000, needs=["nearest"])
def nearest(ctx):
    r, rng = ctx.r, ctx.rng
    lon, lat, desc = gen.quad_grid(ctx, nmax=8)
    kw = {}
    clon = 0.25 * (lon[:-1, :-1] + lon[1:, :-1] + lon[:-1, 1:] + lon[1:, 1:])
    clat = 0.25 * (lat[:-1, :-1] + lat[1:, :-1] + lat[:-1, 1:] + lat[1:, 1:])
    e1 = [0.5 * (x[:-1] + x[1:]) for x in (lon, lat)]
    e2 = [0.5 * (x[:, :-1] + x[:, 1:]) for x in (lon, lat)]
    g = SGrid(node_lon=lon, node_lat=lat, center_lon=clon, center_lat=clat, edge1_lon=e1[0], edge1_lat=e1[1], edge2_lon=e2[0], edge2_lat=e2[1])
    pts = np.array([s[0] for s in gen.grid_points(ctx, lon, lat, n=12)])
    for loc, (x, y) in {"node": (lon, lat), "center": (clon, clat), "edge1": e1, "edge2": e2}.items():
        ind = np.asarray(g.locate_nearest(pts, loc))
        ctx.check(ind.shape == (len(pts), 2), "nearest_shape", got=ind.shape)
        for n, p in enumerate(pts):
            d = np.hypot(x - p[0], y - p[1])
            ctx.check(d[tuple(ind[n])] <= d.min() * (1 + 1e-9) + 1e-12 * max(np.ptp(lon), np.ptp(lat)), "nearest_" + loc, got=ind[n])
            ctx.event("nearest")
    ctx.sig(desc, lon.shape)


def _big_points(ctx, lon, lat, n):
    rng = ctx.rng
    j, i = rng.integers(lon.shape[0] - 1, size=n), rng.integers(lon.shape[1] - 1, size=n)
    # the last cells have the largest numbers
    last = rng.random(n) < 0.3
    j[last], i[last] = lon.shape[0] - 2 - rng.integers(2, size=last.sum()), lon.shape[1] - 2 - rng.integers(2, size=last.sum())
    l, m = rng.uniform(0.02, 0.98, (2, n))
    return j, i, l, m, gen.cell_points(lon, lat, j, i, l, m)


@C07.scenario(quick=10, thorough=100, needs=["big", "big_masked", "many_points"])
def big_locate(ctx):
    """more cells than 16 bits can number, and many points at once"""
    r, rng = ctx.r, ctx.rng
    lon, lat, desc = gen.big_quad_grid(ctx)
    how = r.choice(["none", "center", "node", "coords"])
    cm = np.zeros((lon.shape[0] - 1, lon.shape[1] - 1), bool)
    kw, llon, llat = {}, lon, lat
    if how == "center":
        cm = rng.random(cm.shape) < r.choice([0.001, 0.3])
        kw["center_mask"] = cm
    elif how != "none":
        nm = rng.random(lon.shape) < r.choice([0.0005, 0.1])
        cm = nm[:-1, :-1] | nm[:-1, 1:] | nm[1:, 1:] | nm[1:, :-1]
        if how == "node":
            kw["node_mask"] = nm
        else:
            llon, llat = np.ma.MaskedArray(lon.copy(), mask=nm), np.ma.MaskedArray(lat.copy(), mask=nm)
    g = r.choice([SGrid, Grid_S])(node_lon=llon, node_lat=llat, **kw)
    n = r.choice([50, 5000])
    j, i, l, m, pts = _big_points(ctx, lon, lat, n)
    out = rng.random(n) < 0.2
    pts[out] = [lon.max() + np.ptp(lon), lat.max() + np.ptp(lat)]
    got = _rows(ctx, g.locate_faces(pts), n, "big")
    want = np.where((out | cm[j, i])[:, None], -1, np.stack((j, i), -1))
    ctx.check(np.array_equal(got, want), "big_grid", how=how, desc=desc, wrong=np.flatnonzero((got != want).any(1))[:5])
    ctx.event("big")
    ctx.event("strictly_inside")
    ctx.event("big_masked") if how != "none" else None
    ctx.event("many_points") if n > 1000 else None
    if r.random() < 0.5:
        ind = np.asarray(g.locate_nearest(pts[:40], "node"))
        d = np.hypot(lon[tuple(ind.T)] - pts[:40, 0], lat[tuple(ind.T)] - pts[:40, 1])
        best = np.array([np.hypot(lon - p[0], lat - p[1]).min() for p in pts[:40]])
        if how != "coords":
            ctx.check((d <= best * (1 + 1e-9)).all(), "big_nearest", desc=desc)
    ctx.sig("big", desc, how, n, pts.tobytes()[:64])


C08 = prop(
    "C08",
    "seeded quadrilateral grids x location (node, center, both edges) x padding x masks (cells, data) x masked-value policy, evaluated "
    "at points whose cell and fractional position are known by construction, through the grid and through a variable; non-trivial if a "
    "point is strictly inside an unmasked cell; distinct by (grid, location, padding, points)",
    ["convex, non-overlapping cells", "values compared to 1e-6 relative (geometry inversion)"],
)


def expected(lon, lat, cm_pad, pad, data, loc, dpad, spec, behavior="zero"):
    """value at a point known by construction; None = masked"""
    p, (j, i), l, m = spec
    o0, o1 = OFF[dpad[0]], OFF[dpad[1]]
    d = np.ma.asarray(data)
    mk = np.ma.getmaskarray(d)
    dv = np.asarray(d.filled(0.0)) if isinstance(d, np.ma.MaskedArray) else d
    if loc == "center":
        return None if mk[j + o0, i + o1] else float(dv[j + o0, i + o1])
    if loc == "node":
        c = [(j + o0, i + o1), (j + o0, i + 1 + o1), (j + 1 + o0, i + 1 + o1), (j + 1 + o0, i + o1)]
        w = [(1 - l) * (1 - m), l * (1 - m), l * m, (1 - l) * m]
        if all(mk[q] for q in c):
            return None
        return float(sum(a * dv[q] for a, q in zip(w, c) if not mk[q]))
    if loc == "edge1":
        c, f, step = [(j + o0, i + o1), (j + o0, i + 1 + o1)], l, (0, 1)
    else:
        c, f, step = [(j + o0, i + o1), (j + 1 + o0, i + o1)], m, (1, 0)
    a0, a1 = OFF[pad[0]], OFF[pad[1]]

    def cell_masked(jj, ii):
        if cm_pad is None:
            return False
        jj = min(max(jj + a0, 0), cm_pad.shape[0] - 1)
        ii = min(max(ii + a1, 0), cm_pad.shape[1] - 1)
        return bool(cm_pad[jj, ii])

    here = cell_masked(j, i)
    out = [mk[c[0]] or (here != cell_masked(j - step[0], i - step[1])), mk[c[1]] or (here != cell_masked(j + step[0], i + step[1]))]
    v = [float(dv[c[0]]), float(dv[c[1]])]
    if behavior == "mask" and any(out):
        return None
    if behavior == "mirror":
        if all(out):
            return "undefined"
        if out[0]:
            v[0] = -v[1]
        if out[1]:
            v[1] = -v[0]
    else:
        v = [0.0 if o else x for o, x in zip(out, v)]
    return (1 - f) * v[0] + f * v[1]


@C08.scenario(quick=1200, thorough=20000, needs=["loc_node", "loc_center", "loc_edge1", "loc_edge2", "padded", "wall_edge", "outside_masked", "filled", "indices_given"])
def interpolate(ctx):
    r, rng = ctx.r, ctx.rng
    lon, lat, desc = gen.quad_grid(ctx, nmax=8)
    ny, nx = lon.shape
    cls = r.choice([SGrid, Grid_S])
    pad = (r.choice(PADS), r.choice(PADS)) if r.random() < 0.6 else ("none", "none")
    kw = {"face_padding": pad}
    cm = np.zeros((ny - 1, nx - 1), bool)
    cmp_ = None
    if r.random() < 0.5:
        cm = rng.random(cm.shape) < 0.35
        if cm.all():
            cm[0, 0] = False
        cmp_ = pad_into(cm, pad, r.random() < 0.5)
        kw["center_mask"] = cmp_
    loc = r.choice(["node", "node", "center", "edge1", "edge2"])
    name = r.choice({"node": ["node", "nodes", "psi"], "center": ["center", "face", "cells"], "edge1": ["edge1", "u"], "edge2": ["edge2", "v"]}[loc])
    ctx.event("loc_" + loc)
    # padding of the data itself
    if loc == "node":
        dpad = (None, None)
        shape = (ny, nx)
    elif loc == "center":
        dpad = pad
        shape = (ny - 1 + NPAD[pad[0]], nx - 1 + NPAD[pad[1]])
    elif loc == "edge1":
        dpad = (pad[0], None)
        if r.random() < 0.4:
            dpad = kw["edge1_padding"] = (r.choice(PADS), r.choice(["none", "none", "both", "low"]))
        shape = (ny - 1 + NPAD[dpad[0]], nx + NPAD[dpad[1]])
    else:
        dpad = (None, pad[1])
        if r.random() < 0.4:
            dpad = kw["edge2_padding"] = (r.choice(["none", "none", "both", "low"]), r.choice(PADS))
        shape = (ny + NPAD[dpad[0]], nx - 1 + NPAD[dpad[1]])
    if any(NPAD[x] for x in dpad):
        ctx.event("padded")
    behavior = r.choice(["zero", "zero", "zero", "mask", "mirror"])
    if behavior != "zero":
        kw["masked_interpolant_behavior"] = behavior
    g = cls(node_lon=lon, node_lat=lat, **kw)
    data = rng.normal(size=shape) * 10 ** r.uniform(-2, 3)
    linear = loc == "node" and r.random() < 0.4
    if linear:
        f = gen.linear_field(ctx)
        data = f((lon - lon.mean()) / np.ptp(lon), (lat - lat.mean()) / np.ptp(lat))
    if r.random() < 0.15:
        data = np.round(data / np.abs(data).max() * 1000).astype(int)
    scale = float(np.abs(data).max()) + 1e-300
    if r.random() < 0.35:
        data = np.ma.MaskedArray(data, mask=rng.random(shape) < 0.25)
        if r.random() < 0.5:
            data.data[data.mask] = -9999
    specs = gen.grid_points(ctx, lon, lat, n=r.choice([1, 5, 25]))
    pts = np.array([s[0] for s in specs])
    keep = np.ma.array(data, copy=True)
    via = r.choice(["grid", "grid_slices", "variable", "filled", "indices"]) if cls is Grid_S else r.choice(["grid", "grid_slices", "filled", "indices"])
    if via == "grid":
        got = g.interpolate_var_to_points(pts if r.random() < 0.7 else pts.tolist(), data, location=name)
    elif via == "grid_slices":
        k = r.randrange(3)
        big = np.ma.stack([data * 7 + 1, data * 5 + 2, data * 3 - 3]) if np.ma.isMA(data) else np.stack([data * 7 + 1, data * 5 + 2, data * 3 - 3])
        big[k] = data
        got = g.interpolate_var_to_points(pts, big, location=name, slices=[k] if r.random() < 0.5 else (k,))
    elif via == "filled":
        # what would be masked is the given number instead
        fv = r.choice([-7e7, 12345.0, None])
        got = g.interpolate(pts, data, location=name, unmask=True, **({} if fv is None else {"fill_value": fv}))
        fv = 0 if fv is None else fv
        ctx.check(not np.ma.getmaskarray(np.ma.asarray(got)).any(), "filled_left_masked", n=len(pts))
        got = np.asarray(np.ma.getdata(got), float)
        if fv:
            got = np.ma.masked_equal(got, fv)
        else:
            other = np.ma.asarray(g.interpolate(pts, data, location=name))
            gm = np.ma.getmaskarray(other).reshape(-1)
            ctx.check(np.all(got.reshape(-1)[gm] == 0), "filled_with_zero")
            got = np.ma.array(got.reshape(-1), mask=gm)
        ctx.event("filled")
    elif via == "indices":
        ind = g.locate_faces(pts)
        kept = ind.copy()
        got = g.interpolate_var_to_points(pts, data, location=name, indices=ind)
        ctx.check(np.array_equal(np.ma.filled(kept, -1), np.ma.filled(ind, -1)), "indices_changed")
        ctx.event("indices_given")
    else:
        v = Variable(name="x", grid=g, data=data, location=loc)
        got = v.at(pts, None)
        ctx.check(got.shape == (len(pts), 1), "at_shape", got=got.shape)
    ctx.check(np.array_equal(np.ma.getmaskarray(keep), np.ma.getmaskarray(data)) and np.array_equal(np.ma.getdata(keep), np.ma.getdata(data)), "data_changed")
    ctx.check(np.size(got) == len(pts), "result_length", got=np.shape(got), want=len(pts))
    got = np.ma.asarray(got).reshape(-1)
    gm = np.ma.getmaskarray(got)
    for n, s in enumerate(specs):
        inside, touch = _truth(lon, lat, s, cm)
        if s[1] is not None and tuple(s[1]) in inside and not cm[s[1]]:
            ctx.event("strictly_inside")
            want = expected(lon, lat, cmp_, pad, data, loc, dpad, s, behavior)
            if want == "undefined":
                continue
            if loc.startswith("edge") and cmp_ is not None:
                ctx.event("wall_edge")
            if want is None:
                ctx.check(gm[n], loc + ":masked_data", got=got[n], desc=desc)
            else:
                ctx.check(not gm[n], loc + ":unexpected_mask", want=want, desc=desc, pad=pad, dpad=dpad)
                ok = not gm[n] and abs(float(got[n]) - want) <= 1e-6 * scale
                ctx.check(ok, loc + ":value", got=got[n], want=want, desc=desc, pad=pad, dpad=dpad, cell=s[1], lm=(s[2], s[3]), via=via, behavior=behavior)
            if linear and not np.ma.isMA(data) and data.dtype.kind == "f":
                want = f((s[0][0] - lon.mean()) / np.ptp(lon), (s[0][1] - lat.mean()) / np.ptp(lat))
                ctx.check(abs(float(got[n]) - want) <= 1e-6 * scale, "affine_not_reproduced", got=got[n], want=want, desc=desc)
        elif not [c for c in touch if not cm[c]]:
            ctx.event("outside_masked")
            ctx.check(gm[n], loc + ":outside_not_masked", got=got[n], desc=desc, inside=inside, via=via)
    ctx.sig(desc, lon.shape, loc, pad, dpad, behavior, via, pts[0].tolist())
    ctx.note(grid=desc, shape=lon.shape, location=loc, padding=dpad, via=via)


@C08.scenario(quick=8, thorough=80, needs=["big"])
def big_values(ctx):
    """more cells than 16 bits can number, and many points at once"""
    r, rng = ctx.r, ctx.rng
    lon, lat, desc = gen.big_quad_grid(ctx)
    g = r.choice([SGrid, Grid_S])(node_lon=lon, node_lat=lat)
    n = r.choice([20, 4000])
    j, i, l, m, pts = _big_points(ctx, lon, lat, n)
    out = rng.random(n) < 0.2
    pts[out] = [lon.max() + np.ptp(lon), lat.max() + np.ptp(lat)]
    loc = r.choice(["node", "center", "edge1", "edge2"])
    ny, nx = lon.shape
    a = rng.normal(size={"node": (ny, nx), "center": (ny - 1, nx - 1), "edge1": (ny - 1, nx), "edge2": (ny, nx - 1)}[loc])
    if loc == "node":
        want = (1 - l) * (1 - m) * a[j, i] + l * (1 - m) * a[j, i + 1] + l * m * a[j + 1, i + 1] + (1 - l) * m * a[j + 1, i]
    elif loc == "center":
        want = a[j, i]
    elif loc == "edge1":
        want = (1 - l) * a[j, i] + l * a[j, i + 1]
    else:
        want = (1 - m) * a[j, i] + m * a[j + 1, i]
    g.face_padding = ("none", "none")
    got = np.ma.asarray(g.interpolate_var_to_points(pts, a, location=loc)).reshape(-1)
    ctx.check(np.array_equal(np.ma.getmaskarray(got), out), "big_off_grid", desc=desc, loc=loc)
    ctx.close(np.ma.getdata(got)[~out], want[~out], "big_values", rtol=0, atol=1e-6, desc=desc, loc=loc)
    ctx.event("big")
    ctx.event("strictly_inside")
    ctx.sig("big", desc, loc, n, pts.tobytes()[:64])


@C08.scenario(quick=200, thorough=3000, needs=["inferred_padding"])
def inferred_padding(ctx):
    """without explicit padding, the shape of the center coordinates decides it"""
    r, rng = ctx.r, ctx.rng
    lon, lat, desc = gen.quad_grid(ctx, nmax=7, kinds=["rect", "rotated", "jitter"])
    ny, nx = lon.shape
    pad = r.choice([("none", "none"), ("both", "both"), ("low", "low"), ("both", "low"), ("none", "both")])
    shape = (ny - 1 + NPAD[pad[0]], nx - 1 + NPAD[pad[1]])
    g = Grid_S(node_lon=lon, node_lat=lat, center_lon=np.zeros(shape), center_lat=np.zeros(shape))
    ctx.event("inferred_padding")
    ctx.check(tuple(g.center_padding) == pad, "inferred_padding", got=g.center_padding, want=pad)
    loc = r.choice(["center", "edge1", "edge2"])
    dpad = {"center": pad, "edge1": (pad[0], None), "edge2": (None, pad[1])}[loc]
    base = {"center": (ny - 1, nx - 1), "edge1": (ny - 1, nx), "edge2": (ny, nx - 1)}[loc]
    data = rng.normal(size=(base[0] + NPAD[dpad[0]], base[1] + NPAD[dpad[1]]))
    specs = [s for s in gen.grid_points(ctx, lon, lat, n=12) if s[1] is not None]
    if not specs:
        return ctx.event("oracle_decisions")
    got = np.ma.asarray(g.interpolate_var_to_points(np.array([s[0] for s in specs]), data, location=loc)).reshape(-1)
    for n, s in enumerate(specs):
        if tuple(s[1]) not in _truth(lon, lat, s, None)[0]:
            continue
        want = expected(lon, lat, None, pad, data, loc, dpad, s)
        ctx.check(not np.ma.getmaskarray(got)[n] and abs(float(got[n]) - want) < 1e-6 * np.abs(data).max(), "value", got=got[n], want=want, loc=loc, pad=pad)
    ctx.sig(desc, lon.shape, loc, pad)


@C08.scenario(quick=300, thorough=3000, needs=["policy_mask", "policy_mirror", "policy_zero"])
def masked_value_policy(ctx):
    """zero / mask / mirror, for any number of rows"""
    r, rng = ctx.r, ctx.rng
    lon, lat, desc = gen.quad_grid(ctx, nmax=3, kinds=["rect"])
    g = SGrid(node_lon=lon, node_lat=lat)
    n = r.choice([1, 2, 3, 5, 17])
    k = r.choice([2, 4])
    beh = r.choice(["zero", "mask", "mirror"]) if k == 2 else r.choice(["zero", "mask"])
    ctx.event("policy_" + beh)
    v = rng.normal(size=(n, k))
    w = rng.dirichlet(np.ones(k), size=n)
    mk = rng.random((n, k)) < 0.35
    if beh == "mirror":
        mk[mk.all(1)] = False
    vals = np.ma.MaskedArray(v, mask=mk)
    aw = w if r.random() < 0.5 else np.ma.MaskedArray(w, mask=False)
    got = g.compute_interpolant(vals, aw, mask_behavior=beh)
    ctx.check(np.shape(got) == (n,), "policy_shape", got=np.shape(got))
    gm = np.ma.getmaskarray(np.ma.asarray(got))
    for a in range(n):
        if beh == "mask":
            ctx.check(gm[a] == mk[a].any(), "mask_rows", row=a, mask=mk)
            if mk[a].any():
                continue
        vv = np.where(mk[a], 0, v[a]) if beh != "mirror" else np.where(mk[a], -v[a][::-1], v[a])
        ctx.check(not gm[a] and abs(got[a] - (vv * w[a]).sum()) < 1e-9, "policy_value:" + beh, got=got[a], want=(vv * w[a]).sum())
    ctx.sig(n, k, beh, mk.tolist())
