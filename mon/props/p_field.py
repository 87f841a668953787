"""C04 values in time on every kind of grid, C09 rectangular grids, C10 query transparency, C11 point formats and results."""

from datetime import datetime, timedelta

import numpy as np

from gridded.grids import Grid_R, Grid_S, Grid_U
from gridded.time import OutOfTimeRangeError, Time
from gridded.variable import Variable, VectorVariable

from .. import gen, taps
from ..core import Skip, prop

C04 = prop(
    "C04",
    "seeded grids of the three kinds x data location x time axes (1 to 40 stamps, microseconds to years apart), queried at stamps, "
    "one microsecond around them, between and beyond them, with and without extrapolation, as scalar and vector variables; non-trivial "
    "if the axis has two or more stamps and a point lies on the grid; distinct by (grid, axis, instants)",
    ["points are well inside their cell", "values compared to 1e-6 of the field's amplitude"],
)


def _cmp(ctx, got, val, msk, scale, kind, /, **d):
    """compare an (N,1)/(N,) answer with reference values and mask"""
    g = np.ma.asarray(got).reshape(-1)
    gm = np.ma.getmaskarray(g)
    ctx.check(g.shape == val.shape, kind + ":length", got=g.shape, want=val.shape, **d)
    if g.shape != val.shape:
        return False
    ok = True
    ctx.event("oracle_decisions", len(val))
    if not np.array_equal(gm, msk):
        ctx.fail(kind + ":mask", got=gm, want=msk, **d)
        ok = False
    live = ~msk & ~gm
    gd = np.ma.getdata(g)
    bad = live & ~(np.abs(gd - val) <= 1e-6 * scale)
    if bad.any():
        n = int(np.flatnonzero(bad)[0])
        ctx.fail(kind + ":value", n=n, got=gd[n], want=val[n], scale=scale, **d)
        ok = False
    return ok


def _time_arg(ctx, ts):
    return ctx.r.choice([lambda: Time(list(ts)), lambda: list(ts), lambda: np.array(ts)])()


@C04.scenario(quick=1500, thorough=25000, needs=["grid_U", "grid_S", "grid_R", "refused", "clamped", "at_stamp", "between"])
def scalar(ctx):
    r, rng = ctx.r, ctx.rng
    f = gen.field(ctx)
    ts, style = gen.time_axis(ctx, nmax=12, long=r.random() < 0.2)
    if len(ts) > 40 and not ctx.big:
        ts = ts[:40]
    data = np.stack([f.layer() for _ in ts])
    scale = np.abs(data).max()
    v = Variable(name="x", units="m", grid=f.make(), data=data, time=_time_arg(ctx, ts), location=f.loc)
    ctx.event("grid_" + f.kind)
    refs = [f.ref(d) for d in data]
    V = np.array([a[0] for a in refs])
    msk = refs[0][1]
    for q in gen.time_queries(ctx, ts, n=6):
        inside = ts[0] <= q <= ts[-1] or len(ts) == 1
        w = gen.time_weights(ts, q)
        want = w @ V
        if inside:
            ctx.event("at_stamp" if q in ts else "between")
            _cmp(ctx, v.at(f.pts, q, extrapolate=r.random() < 0.3), want, msk, scale, "in_range", grid=f.desc, axis=style, q=q)
        else:
            # in either order: what was asked before does not change what is refused
            for ex in ([True, False] if r.random() < 0.5 else [False, True]):
                if ex:
                    ctx.event("clamped")
                    _cmp(ctx, v.at(f.pts, q, extrapolate=True), want, msk, scale, "clamped", grid=f.desc, axis=style, q=q)
                else:
                    ctx.event("refused")
                    with ctx.expect_raises(OutOfTimeRangeError, "out_of_range_answered", q=q, first=ts[0], last=ts[-1]):
                        v.at(f.pts, q, extrapolate=False) if r.random() < 0.5 else v.at(f.pts, q)
    ctx.sig(f.desc, style, len(ts), str(ts[0]))
    ctx.note(grid=f.desc, axis=style, stamps=len(ts), points=len(f.pts))


@C04.scenario(quick=400, thorough=5000, needs=["missing_before", "missing_after", "nan", "masked", "between_good"])
def gaps(ctx):
    """steps that are missing do not spoil the steps that are there"""
    r, rng = ctx.r, ctx.rng
    f = gen.field(ctx)
    ts, style = gen.time_axis(ctx, nmin=3, nmax=8, long=False)
    data = np.stack([f.layer() for _ in ts])
    scale = np.abs(data).max()
    bad = rng.random(len(ts)) < 0.5
    nan = r.random() < 0.5
    ctx.event("nan" if nan else "masked")
    if nan:
        arr = data.copy()
        arr[bad] = np.nan
    else:
        arr = np.ma.MaskedArray(data.copy(), mask=np.broadcast_to(bad.reshape((-1,) + (1,) * (data.ndim - 1)), data.shape).copy())
    v = Variable(name="x", grid=f.make(), data=arr, time=_time_arg(ctx, ts), location=f.loc)
    refs = [f.ref(d) for d in data]
    V, msk = np.array([a[0] for a in refs]), refs[0][1]
    for k in rng.permutation(len(ts)):
        if bad[k]:
            continue
        if k and bad[k - 1]:
            ctx.event("missing_before")
        if k < len(ts) - 1 and bad[k + 1]:
            ctx.event("missing_after")
        _cmp(ctx, v.at(f.pts, ts[k]), V[k], msk, scale, "at_step_next_to_gap", grid=f.desc, k=k, bad=bad, nan=nan)
        if k and not bad[k - 1]:
            q = ts[k - 1] + (ts[k] - ts[k - 1]) * r.uniform(0.1, 0.9)
            ctx.event("between_good")
            _cmp(ctx, v.at(f.pts, q), gen.time_weights(ts, q) @ V, msk, scale, "between_steps_near_gap", grid=f.desc, k=k, bad=bad)
    ctx.sig(f.desc, style, bad.tolist(), nan)


@C04.scenario(quick=300, thorough=4000, needs=["steady"])
def steady(ctx):
    """without a time axis the instant does not matter"""
    r = ctx.r
    f = gen.field(ctx)
    data = f.layer()
    v = Variable(name="x", grid=f.make(), data=data, location=f.loc)
    val, msk = f.ref(data)
    for t in (None, datetime(1800, 1, 1), datetime(2020, 5, 5, 1, 2, 3)):
        ctx.event("steady")
        _cmp(ctx, v.at(f.pts, t), val, msk, np.abs(data).max(), "steady", grid=f.desc)
    ctx.sig(f.desc, f.pts[0].tolist())


@C04.scenario(quick=300, thorough=4000, needs=["vector", "refused"])
def vector(ctx):
    """a vector is its components, each with its own data and location, at the same instant"""
    r, rng = ctx.r, ctx.rng
    f = gen.field(ctx)
    ts, style = gen.time_axis(ctx, nmin=2, nmax=5, long=False)
    g = f.make()
    m = r.choice([2, 2, 3])
    t = Time(ts)
    comps = [np.stack([f.layer() for _ in ts]) for _ in range(m)]
    vv = VectorVariable(name="v", units="m/s", grid=g, time=t,
                        variables=[Variable(name="c%d" % k, units="m/s", grid=g, data=c, time=t, location=f.loc) for k, c in enumerate(comps)])
    ctx.event("vector")
    for q in gen.time_queries(ctx, ts, n=4):
        w = gen.time_weights(ts, q)
        if not ts[0] <= q <= ts[-1]:
            ctx.event("refused")
            with ctx.expect_raises(OutOfTimeRangeError, "vector_out_of_range_answered", q=q):
                vv.at(f.pts, q)
        got = vv.at(f.pts, q, extrapolate=True)
        ctx.check(got.shape == (len(f.pts), m), "vector_shape", got=got.shape)
        for k, c in enumerate(comps):
            V = np.array([f.ref(d)[0] for d in c])
            _cmp(ctx, got[:, k], w @ V, f.ref(c[0])[1], np.abs(c).max(), "component", grid=f.desc, k=k)
    ctx.sig(f.desc, style, m, str(ts[0]))


C09 = prop(
    "C09",
    "seeded rectangular grids (2 to 12 nodes a side, irregular spacing, either direction of either axis) and data in (lat, lon) or "
    "(lon, lat) order, plain, masked, with leading dimensions or labelled dimensions; points inside known cells, and outside on every "
    "side; non-trivial if a point is strictly inside; distinct by (grid, order, points)",
    ["points are not on the outer border", "values compared to 1e-9 of the amplitude"],
)


class Labelled:
    """array-like with named dimensions, as a netCDF variable has"""

    def __init__(self, a, dims):
        self.a, self.dimensions, self.shape, self.dtype, self.ndim = a, dims, a.shape, a.dtype, a.ndim

    def __getitem__(self, k):
        return self.a[k]

    def __len__(self):
        return len(self.a)


@C09.scenario(quick=1500, thorough=20000, needs=["nearest", "inside", "outside", "lonlat_order", "descending_lat", "descending_lon", "masked", "labelled", "one_array_for_both_axes"])
def rectangular(ctx):
    r, rng = ctx.r, ctx.rng
    ny, nx = r.randint(2, 12), r.randint(2, 12)
    if "grid" in ctx.big:
        ny, nx = r.choice([(r.randint(130, 500), r.randint(2, 60)), (r.randint(2, 60), r.randint(130, 500))])
    x = np.cumsum(rng.uniform(0.05, 2, nx)) + r.uniform(-170, 150)
    y = np.cumsum(rng.uniform(0.05, 2, ny)) + r.uniform(-80, 50)
    dlat, dlon = r.random() < 0.35, r.random() < 0.15
    if dlat:
        y = y[::-1].copy()
        ctx.event("descending_lat")
    if dlon:
        x = x[::-1].copy()
        ctx.event("descending_lon")
    shared = "grid" not in ctx.big and r.random() < 0.06
    if shared:
        # one array is both axes
        ny = nx
        y = x = np.clip(x[0], -80, 50) + (x - x[0])
        dlat = dlon
        ctx.event("one_array_for_both_axes")
    topo = None
    labelled = nx == ny or r.random() < 0.3
    names = ("lat", "lon") if r.random() < 0.5 else ("ygrid", "xgrid")
    if names[0] != "lat":
        topo = {"node_lat": names[0], "node_lon": names[1]}
    xs = x.copy()
    g = Grid_R(node_lon=xs, node_lat=xs if shared else y.copy(), grid_topology=topo)
    lonlat = r.random() < 0.35
    lead = r.choice([(), (), (3,), (2, 3)])
    A = rng.normal(size=lead + (ny, nx)) * 10 ** r.uniform(-3, 3)
    scale = np.abs(A).max()
    mk = None
    if r.random() < 0.3:
        mk = rng.random(A.shape) < 0.25
        ctx.event("masked")
    B = np.where(mk, 9.9e20, A) if mk is not None else A
    Z = np.where(mk, 0.0, A) if mk is not None else A
    d = np.ma.MaskedArray(B.copy(), mask=mk) if mk is not None else B.copy()
    if lonlat:
        d = d.swapaxes(-1, -2)
        ctx.event("lonlat_order")
    sl = tuple(r.randrange(n) for n in lead)
    Z = Z[sl]
    arg = d
    if labelled:
        ctx.event("labelled")
        arg = Labelled(d, tuple("t%d" % k for k in range(len(lead))) + (names[::-1] if lonlat else names))
    slices = None
    if lead:
        slices = sl if r.random() < 0.7 else list(sl)
    elif r.random() < 0.5:
        slices = ()
    keep = np.ma.array(d, copy=True)
    n = r.choice([1, 5, 30])
    pts, want, cells = [], [], []
    for _ in range(n):
        j, i = r.randrange(ny - 1), r.randrange(nx - 1)
        l, m = r.uniform(0.001, 0.999), r.uniform(0.001, 0.999)
        p = np.array([(1 - l) * x[i] + l * x[i + 1], (1 - m) * y[j] + m * y[j + 1]])
        if r.random() < 0.3:
            k = r.randrange(4)
            far = r.choice([1e-3, 0.5, 30.0])
            if k == 0:
                p[0] = x.min() - far
            elif k == 1:
                p[0] = x.max() + far
            elif k == 2:
                p[1] = y.min() - far
            else:
                p[1] = y.max() + far
            ctx.event("outside")
            pts.append(p), want.append(0.0), cells.append((-1, -1))
        else:
            ctx.event("inside")
            pts.append(p)
            want.append((1 - l) * (1 - m) * Z[j, i] + l * (1 - m) * Z[j, i + 1] + l * m * Z[j + 1, i + 1] + (1 - l) * m * Z[j + 1, i])
            cells.append((i, j))
    pts = np.array(pts)
    loc = np.asarray(g.locate_faces(pts if r.random() < 0.5 else pts.tolist()))
    ctx.check(loc.shape == (n, 2), "locate_shape", got=loc.shape)
    for k in range(n):
        ctx.check(tuple(loc[k]) == cells[k], "locate", got=loc[k], want=cells[k], pt=pts[k], x=x, y=y)
    one = np.asarray(g.locate_faces(pts[0]))
    ctx.check(one.shape == (2,) and tuple(one) == cells[0], "locate_single", got=one, want=cells[0])
    got = np.asarray(g.interpolate_var_to_points(pts, arg, slices=slices), dtype=float)
    ctx.check(got.shape == (n,), "interp_shape", got=got.shape)
    for k in range(n):
        ctx.check(abs(got[k] - want[k]) <= 1e-9 * scale, "interp", got=got[k], want=want[k], lonlat=lonlat, dlat=dlat, dlon=dlon, labelled=labelled, masked=mk is not None)
    # on the lines and corners of the grid, also the outermost
    q, w = [], []
    for _ in range(4):
        j, i, l = r.randrange(ny), r.randrange(nx), r.uniform(0.01, 0.99)
        if r.random() < 0.4:
            q.append((x[i], y[j])), w.append(Z[j, i])
        elif r.random() < 0.5:
            j = min(j, ny - 2)
            q.append((x[i], (1 - l) * y[j] + l * y[j + 1])), w.append((1 - l) * Z[j, i] + l * Z[j + 1, i])
        else:
            i = min(i, nx - 2)
            q.append(((1 - l) * x[i] + l * x[i + 1], y[j])), w.append((1 - l) * Z[j, i] + l * Z[j, i + 1])
    ctx.close(g.interpolate_var_to_points(q, arg, slices=slices), w, "on_lines", rtol=0, atol=1e-9 * scale)
    if r.random() < 0.3:
        # the value of the nearest node instead
        q, w = [], []
        for _ in range(5):
            j, i = r.randrange(ny - 1), r.randrange(nx - 1)
            l, m = [r.choice([r.uniform(0, 0.499), r.uniform(0.501, 1)]) for _ in range(2)]
            q.append(((1 - l) * x[i] + l * x[i + 1], (1 - m) * y[j] + m * y[j + 1])), w.append(Z[j + (m > 0.5), i + (l > 0.5)])
        ctx.close(g.interpolate_var_to_points(q, arg, method="nearest", slices=slices), w, "nearest", rtol=0, atol=1e-9 * scale)
        ctx.event("nearest")
    s = g.interpolate_var_to_points(pts[0], arg, slices=slices)
    ctx.check(np.ndim(s) == 0 and abs(float(s) - want[0]) <= 1e-9 * scale, "interp_single", got=s, want=want[0])
    if not lead and not labelled and not lonlat:
        v = Variable(name="x", grid=g, data=d)
        ctx.check(v.location == "node", "location", got=v.location)
        _cmp(ctx, v.at(pts), np.array(want), np.zeros(n, bool), scale, "variable")
    ctx.check(np.array_equal(np.ma.getdata(keep), np.ma.getdata(d)) and np.array_equal(np.ma.getmaskarray(keep), np.ma.getmaskarray(d)), "data_changed")
    # derived coordinates
    ctx.close(g.center_lon, (x[:-1] + x[1:]) / 2, "center_lon")
    ctx.close(g.center_lat, (y[:-1] + y[1:]) / 2, "center_lat")
    nn = np.asarray(g.nodes)
    ctx.check(nn.shape == (ny, nx, 2) and np.array_equal(nn[..., 0], np.tile(x, (ny, 1))) and np.array_equal(nn[..., 1], np.tile(y[:, None], (1, nx))), "nodes")
    cc = np.asarray(g.centers)
    ctx.check(cc.shape == (ny - 1, nx - 1, 2), "centers", got=cc.shape)
    ctx.sig(ny, nx, dlat, dlon, lonlat, lead, labelled, pts[0].tolist())
    ctx.note(shape=(ny, nx), lonlat=lonlat, leading=lead)


@C09.scenario(quick=200, thorough=2000, needs=["refused"])
def refusals(ctx):
    """data that cannot be told apart or does not fit is refused, not guessed"""
    r, rng = ctx.r, ctx.rng
    ny = r.randint(2, 8)
    nx = r.choice([k for k in range(2, 12) if k != ny])
    x, y = np.arange(nx) * 1.0, np.arange(ny) * 1.0
    g = Grid_R(node_lon=x, node_lat=y)
    p = np.array([[0.5, 0.5]])
    ctx.event("refused")
    with ctx.expect_raises(ValueError, "misfit_answered"):
        g.interpolate_var_to_points(p, rng.random((ny + nx, nx)))
    sq = Grid_R(node_lon=np.arange(ny) * 1.0, node_lat=y)
    with ctx.expect_raises(ValueError, "square_unlabelled_answered"):
        sq.interpolate_var_to_points(p, rng.random((ny, ny)))
    with ctx.expect_raises(ValueError, "foreign_dimensions_answered"):
        g.interpolate_var_to_points(p, Labelled(rng.random((ny, nx)), ("foo", "bar")))
    own = list(g.dimensions)
    own[r.randrange(2)] = "member"
    lead = r.choice([(), (3,)])
    with ctx.expect_raises(ValueError, "foreign_dimension_answered", dims=own):
        g.interpolate_var_to_points(p, Labelled(rng.random(lead + (ny, nx)), tuple("time" for _ in lead) + tuple(own)))
    with ctx.expect_raises(ValueError, "variable_misfit_accepted"):
        Variable(name="x", grid=g, data=rng.random((ny + 2, nx + 3)))
    with ctx.expect_raises(ValueError, "variable_edge_accepted"):
        Variable(name="x", grid=g, data=rng.random((ny + 1, nx)))
    ctx.sig(ny, nx)


C10 = prop(
    "C10",
    "seeded histories of 8 to 25 operations on one variable or vector (queries with varying points, shapes, dtypes, instants and "
    "options, repeats, direct grid queries, edits of returned arrays, new data, new time axis), each query compared with the same "
    "single query on a freshly built object; non-trivial if a query repeats or follows a change; distinct by history",
    ["same process, one thread", "answers compared exactly (values, masks, shapes, kinds of error)"],
)


def _outcome(fn):
    try:
        return ("ok", fn())
    except OutOfTimeRangeError:
        return ("OutOfTimeRangeError", None)
    except (ValueError, IndexError, TypeError) as e:
        return (type(e).__name__, None)


def _eq(a, b):
    if np.ma.isMaskedArray(a) or np.ma.isMaskedArray(b):
        a, b = np.ma.asarray(a), np.ma.asarray(b)
        if a.shape != b.shape or not np.array_equal(np.ma.getmaskarray(a), np.ma.getmaskarray(b)):
            return False
        a, b = a.filled(0), b.filled(0)
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and np.array_equal(a, b, equal_nan=a.dtype.kind == "f")


def _vary(ctx, p, f):
    """points that differ a little from those asked before"""
    r, rng = ctx.r, ctx.rng
    p = p.copy()
    k = r.randrange(len(p))
    how = r.randrange(6)
    if how == 0:
        p[k, :2] = f.pts[r.randrange(len(f.pts))]
    elif how == 1:
        p[k] = p[r.randrange(len(p))]
    elif how == 2:
        p = p[rng.permutation(len(p))]
    elif how == 3:
        p[k, :2] += np.abs(p[k, :2]).max() * 10.0 ** r.randint(-14, -3)
    elif how == 4:
        p[:, -1] = p[::-1, -1]
    else:
        p[k] = np.nextafter(p[k], np.inf)
    return p


@C10.scenario(quick=500, thorough=8000, needs=["repeat", "almost_repeat", "after_new_data", "after_new_time", "result_edited", "options_varied", "vector", "settings_changed", "data_changed_in_place"])
def history(ctx):
    r, rng = ctx.r, ctx.rng
    f = gen.field(ctx, npts=r.choice([4, 6, 9]))
    depth_levels = None
    ts, style = gen.time_axis(ctx, nmin=2, nmax=5, long=False)
    is_vec = r.random() < 0.35
    ncomp = 2 if is_vec else 1
    with_mask = r.random() < 0.3
    nz = 0
    if r.random() < 0.35:
        nz = r.choice([2, 3, 4])
        depth_levels = np.cumsum(rng.uniform(0.5, 5, nz)) - 0.5

    def mkdata():
        lead = (len(ts), nz) if nz else (len(ts),)
        d = rng.normal(size=lead + f.shape)
        if with_mask:
            d = np.ma.MaskedArray(d, mask=rng.random(d.shape) < 0.15)
        return d

    state = {"data": [mkdata() for _ in range(ncomp)], "ts": list(ts)}
    settings = [{} for _ in range(ncomp)]

    def build():
        from gridded.depth import L_Depth

        g = f.make()
        dep = L_Depth(terms={"depth_levels": depth_levels.copy()}) if nz else None
        t = Time(list(state["ts"]))
        vs = [Variable(name="c%d" % k, units="m", grid=g, data=d.copy(), time=t, depth=dep, location=f.loc, fill_value=-7) for k, d in enumerate(state["data"])]
        for x, s in zip(vs, settings):
            for name, value in s.items():
                setattr(x, name, value)
        return VectorVariable(name="v", grid=g, time=t, units="m", variables=vs) if is_vec else vs[0]

    live = build()
    if is_vec:
        ctx.event("vector")
    taps.WATCH_ARGS[0] = True
    pool_t = gen.time_queries(ctx, ts, n=3)
    sets = []
    for _ in range(3):
        k = r.randint(1, len(f.pts))
        p = f.pts[rng.permutation(len(f.pts))[:k]]
        if nz:
            p = np.column_stack((p, rng.uniform(r.choice([-1, -1, -10]), depth_levels[-1] + 2, k)))
        elif r.random() < 0.3:
            p = np.column_stack((p, np.zeros(k)))
        if r.random() < 0.15:
            # many points
            p = p[rng.integers(len(p), size=r.choice([70, 150, 400]))]
            p[:, :2] = p[:, :2] * 0.9 + p[rng.permutation(len(p)), :2] * 0.1
        sets.append(p)
    hist = []
    asked = []
    last = None
    bare = False
    for step in range(r.randint(8, 25)):
        op = "repeat" if bare and asked and r.random() < 0.7 else r.choice(["at"] * 7 + ["repeat"] * 4 + ["grid", "edit", "edit", "data", "time", "float32", "zeros", "settings", "in_place"])
        if op == "repeat" and not asked:
            op = "at"
        if op in ("at", "float32", "zeros"):
            p = r.choice(sets)
            if op == "float32":
                p = p.astype(np.float32)
            elif op == "zeros":
                p = np.zeros((r.choice([1, 4, 8]), 3 if nz else 2), dtype=r.choice([np.float32, np.float64]))
            kw = {}
            if r.random() < 0.5:
                kw["extrapolate"] = r.random() < 0.6
            if r.random() < 0.3:
                kw["unmask"] = r.random() < 0.7
            if nz and r.random() < 0.5:
                kw["surface_boundary_condition"] = r.choice(["mask", "extrapolate"])
            if nz and r.random() < 0.5:
                kw["bottom_boundary_condition"] = r.choice(["mask", "extrapolate"])
            if r.random() < 0.1:
                kw["_mem"] = False
            q = (p, r.choice(pool_t), kw)
            if kw:
                ctx.event("options_varied")
        elif op == "repeat":
            q = r.choice(asked[-4:])
            if r.random() < 0.5:
                q = (q[0], q[1], {k: v for k, v in q[2].items() if r.random() < 0.5})
            if bare:
                q = (q[0], q[1], {k: v for k, v in q[2].items() if not k.endswith("condition")})
                if asked[-1][0].shape == q[0].shape and r.random() < 0.7:
                    q = (asked[-1][0], asked[-1][1], q[2])
                bare = False
            if r.random() < 0.2:
                q = (np.asarray(q[0])[:1], q[1], q[2])
            elif r.random() < 0.35:
                # almost the same points
                q = (_vary(ctx, np.array(q[0]), f), q[1], q[2])
                ctx.event("almost_repeat")
            ctx.event("repeat")
        if op in ("at", "repeat", "float32", "zeros"):
            asked.append(q)
            arg = q[0].copy()
            if r.random() < 0.3:
                arg = arg.tolist()
            got = _outcome(lambda: live.at(arg, q[1], **q[2]))
            fresh = build()
            want = _outcome(lambda: fresh.at(arg, q[1], **q[2]))
            hist.append((op, len(q[0]), str(q[1]), sorted(q[2].items())))
            ctx.check(got[0] == want[0], "outcome_depends_on_history", got=got[0], want=want[0], history=hist[-6:], grid=f.desc)
            if got[0] == want[0] == "ok":
                ctx.check(_eq(got[1], want[1]), "answer_depends_on_history", got=got[1], want=want[1], history=hist[-6:], grid=f.desc)
                last = got[1]
        elif op == "grid":
            p = np.ascontiguousarray(r.choice(sets)[:, :2])
            ways = [lambda g, p: g.locate_faces(p), lambda g, p: g.locate_faces(p[:1]), lambda g, p: g.locate_faces(p[0]), lambda g, p: getattr(g, "index_of", g.locate_faces)(p)]
            ask = r.choice(ways)
            a = ask(live.grid, p)
            b = ask(build().grid, p)
            ctx.check(_eq(a, b), "location_depends_on_history", got=a, want=b, history=hist[-6:])
            hist.append(("grid",))
        elif op == "edit" and last is not None:
            # the caller owns what it was given
            ctx.event("result_edited")
            try:
                if np.ma.isMaskedArray(last):
                    k = r.randrange(3)
                    if k == 0:
                        last[0] = np.ma.masked
                    elif k == 1:
                        last.mask = ~np.ma.getmaskarray(last)
                    else:
                        last[...] = 1e6
                else:
                    last[...] = -1e6
            except ValueError:
                pass  # read-only results are fine too
            hist.append(("edit",))
        elif op == "data":
            k = r.randrange(ncomp)
            d = mkdata()
            state["data"][k] = d
            tgt = live.variables[k] if is_vec else live
            tgt.data = d.copy()
            ctx.event("after_new_data")
            hist.append(("data", k))
        elif op == "in_place":
            # the same array with other numbers, assigned again
            k = r.randrange(ncomp)
            d = mkdata()
            tgt = live.variables[k] if is_vec else live
            a = tgt.data
            if np.ma.isMaskedArray(d) == np.ma.isMaskedArray(a) and isinstance(a, np.ndarray):
                state["data"][k] = d
                a[...] = d
                tgt.data = a
                ctx.event("data_changed_in_place")
                hist.append(("in_place", k))
        elif op == "settings":
            k = r.randrange(ncomp)
            name, value = r.choice([("fill_value", r.choice([0, -7, 1e20, 3])), ("surface_boundary_condition", r.choice(["mask", "extrapolate"])), ("bottom_boundary_condition", r.choice(["mask", "extrapolate"]))])
            settings[k][name] = value
            setattr(live.variables[k] if is_vec else live, name, value)
            ctx.event("settings_changed")
            bare = True
            hist.append(("settings", k, name, value))
        elif op == "time":
            sh = timedelta(seconds=r.choice([-3600, 1, 60, 86400]))
            state["ts"] = [t + sh for t in state["ts"]]
            if r.random() < 0.5:
                live.time = Time(list(state["ts"]))
            else:
                live.time = list(state["ts"])
            ctx.event("after_new_time")
            hist.append(("time", str(sh)))
    for m in taps.mutations():
        ctx.fail("argument_changed", what=m)
    ctx.event("oracle_decisions")
    taps.WATCH_ARGS[0] = False
    for k, d in enumerate(state["data"]):
        cur = (live.variables[k] if is_vec else live).data
        ctx.check(_eq(cur, d), "data_changed_by_queries")
    ctx.sig(f.desc, hist)
    ctx.note(grid=f.desc, history=hist[:6])


@C10.scenario(quick=200, thorough=3000, needs=["shared_grid"])
def shared_grid(ctx):
    """variables at different locations sharing one grid do not disturb each other"""
    r, rng = ctx.r, ctx.rng
    f = gen.field(ctx, kinds=("U", "S"), npts=6)
    g = f.make()
    if f.kind == "U":
        locs = {"node": (len(f.nodes),), "face": (len(f.faces),)}
    else:
        ny, nx = f.lon.shape
        locs = {"node": (ny, nx), "center": (ny - 1, nx - 1), "edge1": (ny - 1, nx), "edge2": (ny, nx - 1)}
    data = {k: rng.normal(size=s) for k, s in locs.items()}
    vs = {k: Variable(name=k, grid=g, data=d.copy(), location=k) for k, d in data.items()}
    p2 = f.pts[::-1].copy()
    for _ in range(8):
        k = r.choice(list(vs))
        p = r.choice([f.pts, p2, f.pts[:2], f.pts[:2, ::-1].copy()])
        got = vs[k].at(p)
        want = Variable(name=k, grid=f.make(), data=data[k].copy(), location=k).at(p)
        ctx.event("shared_grid")
        ctx.check(_eq(got, want), "shared_grid_answer", got=got, want=want, loc=k, grid=f.desc)
    ctx.sig(f.desc, f.pts[0].tolist())


@C10.scenario(quick=150, thorough=2500, needs=["refused_time", "refused_data", "constant_time", "steps_vector"])
def assignments(ctx):
    """data and time that do not go together are refused and change nothing; constant times take any data"""
    r, rng = ctx.r, ctx.rng
    f = gen.field(ctx, npts=4)
    g = f.make()
    nt = r.randint(2, 5)
    ts = [datetime(2001, 1, 1) + timedelta(hours=k) for k in range(nt)]
    mk = lambda n: np.stack([f.layer() for _ in range(n)])
    d = mk(nt)
    v = Variable(name="v", grid=g, data=d.copy(), time=r.choice([Time(list(ts)), list(ts), np.array(ts)]), location=f.loc)
    t = ts[0] + (ts[1] - ts[0]) * 0.25
    base = _outcome(lambda: v.at(f.pts, t))
    m = r.choice([k for k in range(2, 8) if k != nt])
    with ctx.expect_raises(ValueError, "time_of_other_length_accepted"):
        v.time = r.choice([Time, list])([datetime(2005, 1, 1) + timedelta(days=k) for k in range(m)])
    ctx.event("refused_time")
    ctx.check(list(v.time.data) == ts, "time_after_refusal")
    with ctx.expect_raises(ValueError, "data_of_other_length_accepted"):
        v.data = mk(r.choice([k for k in range(1, 8) if k != nt]))
    ctx.event("refused_data")
    ctx.check(_eq(v.data, d), "data_after_refusal")
    with ctx.expect_raises((ValueError, TypeError), "number_for_time_accepted"):
        v.time = r.choice([5, 3.5])
    now = _outcome(lambda: v.at(f.pts, t))
    ctx.check(now[0] == base[0] and (now[0] != "ok" or _eq(now[1], base[1])), "answer_after_refusals", got=now, want=base)
    # no time at all, or a constant one: any data of the right shape
    one = f.layer()
    w = Variable(name="w", grid=g, data=f.layer(), time=r.choice([Time.constant_time(), Time(), None]), location=f.loc)
    if r.random() < 0.5:
        w.at(f.pts, ts[0])
    w.data = one.copy()
    ref = Variable(name="w", grid=f.make(), data=one.copy(), location=f.loc)
    ctx.event("constant_time")
    for q in (None, ts[1]):
        x = r.choice([False, True])
        ctx.check(_eq(w.at(f.pts, q, extrapolate=x), ref.at(f.pts, q, extrapolate=x)), "new_data_at_constant_time")
    # vectors hand their time down, or refuse it
    c = [Variable(name=n, grid=g, data=mk(nt), time=Time(list(ts)), location=f.loc) for n in "ab"]
    V = VectorVariable(name="V", variables=list(c), **r.choice([{}, {"time": list(ts)}, {"time": Time(list(ts))}]))
    ctx.event("steps_vector")
    ctx.check(isinstance(V.time, Time) and list(V.time.data) == ts and V.grid is g and V.depth is None, "vector_defaults")
    with ctx.expect_raises(ValueError, "vector_time_of_other_length_accepted"):
        V.time = [datetime(2005, 1, 1) + timedelta(days=k) for k in range(m)]
    sh = [x + timedelta(days=2) for x in ts]
    V.time = r.choice([Time, list])(sh)
    ctx.check(list(V.time.data) == sh and all(list(x.time.data) == sh for x in c), "vector_time_handed_down")
    ahead = timedelta(days=r.randint(1, 9))
    own = [x + ahead for x in ts]
    W = VectorVariable(name="W", variables=list(c), time=r.choice([Time, list])(own))
    ctx.check(isinstance(W.time, Time) and list(W.time.data) == own, "time_of_vector_given", got=W.time.data[:2], want=own[:2])
    u = r.choice(["m/s", "knots"])
    V.units = u
    ctx.check(V.units == u and all(x.units == u for x in c), "vector_units_handed_down")
    with ctx.expect_raises(ValueError, "vector_of_one_accepted"):
        VectorVariable(name="V", variables=c[:1])
    ctx.sig(f.desc, nt, m, d.tobytes()[:16])


C11 = prop(
    "C11",
    "seeded fields on the three kinds of grid queried with one point set in every accepted form (array, list, tuples, float32, "
    "transposed, with a third column, separate coordinate lists, single point, one by one, permuted, duplicated); results of scalars, "
    "vectors, constants and filled answers; non-trivial if two forms of two or more points are compared; distinct by (grid, points)",
    ["a bare two- or three-row array is taken as rows (documented)"],
)


@C11.scenario(quick=600, thorough=8000, needs=["transposed", "lons_lats", "single", "one_by_one", "duplicated", "filled"])
def formats(ctx):
    r, rng = ctx.r, ctx.rng
    f = gen.field(ctx, npts=r.choice([1, 2, 3, 4, 5, 12]))
    data = f.layer()
    vec = r.random() < 0.4
    fv = r.choice([0, -999, np.nan, 3.5])

    def mk():
        g = f.make()
        a = Variable(name="a", units="m", grid=g, data=data, location=f.loc, fill_value=fv)
        if not vec:
            return a
        b = Variable(name="b", units="m", grid=g, data=data * 2 + 1, location=f.loc, fill_value=fv)
        return VectorVariable(name="v", units="m", grid=g, variables=[a, b])

    v = mk()
    p = f.pts
    n = len(p)
    base = v.at(p)
    cols = 2 if vec else 1
    ctx.check(base.shape == (n, cols), "shape", got=base.shape, want=(n, cols))
    val, msk = f.ref(data)
    _cmp(ctx, base[:, 0], val, msk, np.abs(data).max(), "base", grid=f.desc)
    if vec:
        val2, _ = f.ref(data * 2 + 1)
        _cmp(ctx, base[:, 1], val2, msk, np.abs(data).max() * 2 + 1, "second_component", grid=f.desc)

    def same(kind, q, sel=None, **kw):
        got = mk().at(q, **kw) if r.random() < 0.5 else v.at(q, **kw)
        want = base if sel is None else base[sel]
        ctx.check(got.shape == want.shape, kind + ":shape", got=got.shape, want=want.shape)
        if got.shape == want.shape:
            gm, wm = np.ma.getmaskarray(np.ma.asarray(got)), np.ma.getmaskarray(np.ma.asarray(want))
            ctx.check(np.array_equal(gm, wm), kind + ":mask", got=gm, want=wm)
            live = ~gm & ~wm
            ctx.check(np.allclose(np.ma.getdata(got)[live], np.ma.getdata(want)[live], rtol=1e-9, atol=1e-9 * np.abs(data).max()), kind + ":value", got=got, want=want)

    same("list", p.tolist())
    same("tuples", tuple(tuple(q) for q in p.tolist()))
    same("fortran", np.asfortranarray(p))
    same("third_column", np.column_stack((p, rng.normal(size=n))))
    ctx.event("lons_lats")
    same("lons_lats", None, lons=list(p[:, 0]), lats=p[:, 1] if r.random() < 0.5 else tuple(p[:, 1]))
    if n > 3:
        ctx.event("transposed")
        same("transposed", p.T.copy())
        same("transposed3", np.column_stack((p, np.zeros(n))).T.tolist())
    ctx.event("single")
    k = r.randrange(n)
    same("single", p[k].tolist(), [k])
    same("single_array", p[k].copy(), [k])
    same("single_3", [p[k][0], p[k][1], 0.0], [k])
    same("single_row", p[k : k + 1].copy(), [k])
    for k in range(min(n, 4)):
        ctx.event("one_by_one")
        same("one_by_one", p[k], [k])
    perm = rng.permutation(n)
    same("permuted", p[perm], perm)
    if n > 1:
        ctx.event("duplicated")
        dup = list(range(n)) + [0, n - 1, 0]
        same("duplicated", p[dup], dup)
    same("interpolate_alias", p)
    if vec is False:
        ctx.check(_eq(v.interpolate(p), base), "interpolate_alias")
    filled = v.at(p, unmask=True)
    ctx.event("filled")
    ctx.check(not np.ma.getmaskarray(np.ma.asarray(filled)).any(), "unmask_left_masked")
    ctx.check(vec or not np.ma.isMaskedArray(filled), "unmask_gave_masked_array", kind=type(filled).__name__)
    fl = np.asarray(np.ma.getdata(filled), dtype=float)
    for c in range(cols):
        w = np.where(msk, fv, np.ma.getdata(base)[:, c])
        ctx.check(np.array_equal(fl[:, c], w, equal_nan=True), "unmask_fill_value", got=fl[:, c], want=w, fill=fv)
    again = v.at(p)
    ctx.check(np.array_equal(np.ma.getmaskarray(np.ma.asarray(again)), np.ma.getmaskarray(np.ma.asarray(base))), "mask_lost_after_unmask")
    ctx.sig(f.desc, n, vec, p[0].tolist())
    ctx.note(grid=f.desc, points=n, vector=vec)


@C11.scenario(quick=150, thorough=2000, needs=["constant", "refused"])
def constants_and_refusals(ctx):
    r, rng = ctx.r, ctx.rng
    c = r.choice([0, 1, -3.25, 1e-8, 12345.678])
    n = r.randint(1, 10)
    p = np.column_stack((rng.uniform(-359, 359, n), rng.uniform(-89, 89, n)))
    got = Variable.constant(c).at(p, r.choice([None, datetime(1999, 1, 1)]))
    ctx.event("constant")
    ctx.check(got.shape == (n, 1) and not np.ma.getmaskarray(np.ma.asarray(got)).any() and np.allclose(np.ma.getdata(got), c, rtol=1e-12, atol=0), "constant", got=got, want=c)
    v = Variable.constant(1.0)
    ctx.event("refused")
    with ctx.expect_raises(ValueError, "four_numbers_accepted"):
        v.at([1.0, 2.0, 3.0, 4.0])
    with ctx.expect_raises(ValueError, "wide_points_accepted"):
        v.at(rng.random((r.randint(4, 7), r.randint(4, 7))))
    with ctx.expect_raises(ValueError, "no_points_accepted"):
        v.at()
    with ctx.expect_raises((TypeError, ValueError), "text_points_accepted"):
        v.at([["a", "b"], ["c", "d"]])
    ctx.sig(c, n, p[0].tolist())
