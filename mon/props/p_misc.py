"""C19 verdat files, C24 places and equality, C25 staggered numerics, C28 indexing of data wrappers."""

import os

import netCDF4 as nc4
import numpy as np

from gridded.gridded import Dataset
from gridded.grids import Grid_R, Grid_S, Grid_U
from gridded.io.verdat import load_verdat, order_boundary_segments, save_verdat
from gridded.pysgrid.processing_2d import avg_to_cell_center, rotate_vectors, vector_sum
from gridded.pysgrid.sgrid import SGrid, load_grid
from gridded.pysgrid.utils import calculate_angle_from_true_east, calculate_bearing, pair_arrays, points_in_polys
from gridded.pysgrid.variables import SGridVariable
from gridded.pyugrid.ugrid import UGrid
from gridded.pyugrid.uvar import UMVar, UVar
from gridded.variable import Variable

from .. import gen
from ..core import Skip, prop

C19 = prop(
    "C19",
    "seeded triangulations (any numbering, orientation, islands, separate parts) with depths, saved as verdat and loaded back, and saved again; "
    "boundary segments in any order and direction; broken files; non-trivial if the mesh has interior points or several boundaries; distinct by mesh",
    ["boundary loops do not touch each other", "nodes are farther apart than the printed precision"],
)


def _sides(faces):
    c = {}
    for f in faces:
        for a, b in zip(f, np.roll(f, -1)):
            k = (min(int(a), int(b)), max(int(a), int(b)))
            c[k] = c.get(k, 0) + 1
    return c


def _simple_boundary(faces):
    b = [s for s, n in _sides(faces).items() if n == 1]
    deg = {}
    for s in b:
        for p in s:
            deg[p] = deg.get(p, 0) + 1
    return b, all(v == 2 for v in deg.values())


def _loops(segs):
    """closed loops of a set of segments where every point has two"""
    nb = {}
    for a, b in segs:
        nb.setdefault(a, []).append(b)
        nb.setdefault(b, []).append(a)
    seen, out = set(), []
    for p in nb:
        if p in seen:
            continue
        st, n = [p], []
        while st:
            q = st.pop()
            if q in seen:
                continue
            seen.add(q)
            n.append(q)
            st += nb[q]
        out.append(frozenset(n))
    return out


@C19.scenario(quick=120, thorough=3000, needs=["islands", "interior", "given_boundaries", "feet", "all_zero_node", "stored"])
def roundtrip(ctx):
    r, rng = ctx.r, ctx.rng
    nodes, faces, dropped, desc = gen.tri_mesh(ctx, nmax=60)
    if desc[1] == "tiny":
        nodes = nodes * 50
    if np.ptp(nodes) > 9e4:
        nodes = nodes / 1e3
    b, ok = _simple_boundary(faces)
    if not ok:
        raise Skip()
    d = np.linalg.norm(nodes[:, None] - nodes[None], axis=-1)
    np.fill_diagonal(d, 9)
    if d.min() < 1e-3:
        raise Skip()
    n = len(nodes)
    depth = np.round(rng.uniform(-5, r.choice([300, 300, 9000]), n), r.choice([0, 2, 3]))
    depth[rng.random(n) < 0.05] = 0.0
    if r.random() < 0.3:
        # a dry node where the coordinates start
        k = r.randrange(n)
        nodes = nodes - nodes[k]
        depth[k] = 0.0
        ctx.event("all_zero_node")
    loops = _loops(b)
    if len(loops) > 1:
        ctx.event("islands")
    on = set(p for s in b for p in s)
    if len(on) < n:
        ctx.event("interior")
    units = r.choice(["m", "meters", "Meter", "metre", "ft", "FEET", "foot", " feet "])
    feet = units.strip().lower() in ("ft", "feet", "foot")
    if feet:
        ctx.event("feet")
    kw = {}
    if r.random() < 0.4:
        bb = np.array([s if r.random() < 0.5 else s[::-1] for s in r.sample(b, len(b))], dtype=np.int32)
        kw["boundaries"] = bb
        ctx.event("given_boundaries")
    stored = depth.copy()
    if r.random() < 0.3:
        # the same numbers stored in another way
        depth = np.round(depth) if r.random() < 0.5 else np.round(depth * 8) / 8
        _, stored = gen.restore(r, depth, ints=("i2", "i4", "i8"), lists=True)
        kw = {k: gen.restore(r, v, ints=("i2", "i8"), lists=True, masked=False)[1] for k, v in kw.items()}
        ctx.event("stored")
    g = Grid_U(nodes=nodes.copy(), faces=faces.copy(), **kw)
    name = r.choice(["depth", "h", "depth"])
    ds = Dataset(grid=g, variables={name: Variable(name=name, units=units, data=stored, location="node", grid=g),
                                    "other": Variable(name="other", units="m", data=depth * 2 + 1, location="node", grid=g)})
    path = os.path.join(ctx.tmp(), "a.verdat")
    save_verdat(ds, path, **({} if name == "depth" else {"depth_var": name}))
    ctx.check(np.array_equal(g.nodes, nodes) and np.array_equal(g.faces, faces) and np.array_equal(ds[name].data, depth), "dataset_changed")
    # the text
    lines = open(path).read().split("\n")
    ctx.check(lines[0].split() == ["DOGS", "FEET" if feet else "METERS"], "header", got=lines[0], units=units)
    rows = []
    k = 1
    while k < len(lines):
        v = [float(x) for x in lines[k].split(",")]
        k += 1
        if not any(v):
            break
        rows.append(v)
    ctx.check([int(v[0]) for v in rows] == list(range(1, len(rows) + 1)), "point_numbers")
    rest = [int(x) for x in lines[k:] if x.strip()]
    if not ctx.check(len(rows) == n and len(rest) == 1 + len(loops) and rest[0] == len(loops), "counts", got=(len(rows), rest), want=(n, len(loops))):
        return
    xy = np.array([v[1:3] for v in rows])
    which = np.argmin(np.linalg.norm(xy[:, None] - nodes[None], axis=-1), axis=1)
    ctx.check(sorted(which) == list(range(n)), "points")
    ctx.close(xy, nodes[which], "coordinates", rtol=0, atol=6e-7)
    ctx.close([v[3] for v in rows], depth[which], "depths", rtol=0, atol=6e-4)
    start = 0
    segs = set(b)
    for end in rest[1:]:
        lp = which[start:end]
        ctx.check(frozenset(map(int, lp)) in loops, "boundary_points", got=lp)
        ctx.check(all((min(a, c), max(a, c)) in segs for a, c in zip(map(int, lp), map(int, np.roll(lp, -1)))), "boundary_order", got=lp)
        start = end
    ctx.check(start == len(on), "boundary_total", got=start, want=len(on))
    ctx.check([int(p) for p in which[start:]] == [p for p in range(n) if p not in on], "field_points_in_order")
    # back again
    for again in range(2):
        new = load_verdat(path)
        ctx.close(new.grid.nodes, xy, "loaded_nodes", rtol=0, atol=1e-9)
        ctx.close(new["depth"].data, [v[3] for v in rows], "loaded_depths", rtol=0, atol=1e-9)
        ctx.check(new["depth"].units == ("feet" if feet else "meters") and new["depth"].location == "node", "loaded_units", got=new["depth"].units)
        got = [tuple(sorted((int(which[p]), int(which[q])))) for p, q in new.grid.boundaries]
        ctx.check(sorted(got) == sorted(segs), "loaded_boundaries", got=sorted(got)[:5], want=sorted(segs)[:5], desc=desc)
        if again:
            break
        # the same points are written, boundaries first
        p2 = os.path.join(ctx.tmp(), "b.verdat")
        save_verdat(new, p2)
        w = which
        path = p2
        new2 = load_verdat(p2)
        xy = new2.grid.nodes
        which = np.argmin(np.linalg.norm(xy[:, None] - nodes[None], axis=-1), axis=1)
        ctx.check(sorted(which) == list(range(n)), "second_points")
        rows = [[0, 0, 0, depth[k]] for k in which]
        ctx.check(set(map(int, which[: len(on)])) == on, "second_boundary_first")
        rows = [[0, 0, 0, float("%.3f" % depth[k])] for k in which]
    ctx.sig(desc, n, nodes.tobytes()[:64])
    ctx.note(mesh=desc, nodes=n, loops=len(loops), units=units)


@C19.scenario(quick=300, thorough=6000, needs=["open", "closed"])
def segments(ctx):
    """boundary segments put in order, whatever order and direction they come in"""
    r = ctx.r
    ids = r.sample(range(200), 60)
    chains, segs = [], []
    for _ in range(r.randint(0, 4)):
        k = r.randint(3, 9)
        pts, ids = ids[:k], ids[k:]
        closed = r.random() < 0.6
        ctx.event("closed" if closed else "open")
        chains.append((closed, pts))
        s = list(zip(pts, pts[1:])) + ([(pts[-1], pts[0])] if closed else [])
        flip = r.random() < 0.6
        segs += [x[::-1] if flip and r.random() < 0.5 else x for x in s]
    r.shuffle(segs)
    arr = np.array(segs, dtype=np.int32).reshape(-1, 2)
    keep = arr.copy()
    cl, op = order_boundary_segments(arr)
    ctx.check(np.array_equal(arr, keep), "segments_changed")
    want = {frozenset(map(frozenset, zip(p, p[1:] + p[:1]))) for c, p in chains if c}
    got = {frozenset(map(frozenset, zip(p, p[1:] + p[:1]))) for p in cl}
    ctx.check(got == want and len(cl) == len(want), "closed_boundaries", got=cl, want=chains)
    want = {frozenset(map(frozenset, zip(p, p[1:]))) for c, p in chains if not c}
    got = {frozenset(map(frozenset, zip(p, p[1:]))) for p in op}
    ctx.check(got == want and len(op) == len(want), "open_boundaries", got=op, want=chains)
    ctx.sig(sorted(map(tuple, segs)))


@C19.scenario(quick=60, thorough=600, needs=["refused", "no_boundaries", "no_depth", "again_with", "again_without"])
def files_by_hand(ctx):
    r, rng = ctx.r, ctx.rng
    n = r.randint(3, 12)
    xy = np.round(rng.uniform(-100, 100, (n, 2)), 4)
    z = np.round(rng.uniform(0, 50, n), 2)
    nb = r.choice([0, 1, 1, 2]) if n >= 6 else r.choice([0, 1])
    cuts = {0: [], 1: [r.randint(3, n)], 2: [3, r.randint(6, n)] if n >= 6 else []}[nb]
    head = r.choice(["DOGS", "DOGS METERS", "DOGS feet", "DOGS  METERS", "DOGS "])
    tail = [str(len(cuts))] + [str(c) for c in cuts]
    if nb == 0 and r.random() < 0.5:
        tail = []
        ctx.event("no_boundaries")
    sep = r.choice([",", ", ", " , "])
    body = [sep.join([str(k + 1), repr(float(a)), repr(float(b)), repr(float(c))]) for k, ((a, b), c) in enumerate(zip(xy, z))]
    path = os.path.join(ctx.tmp(), "h.verdat")
    open(path, "w").write("\n".join([head] + body + [sep.join(["0", "0.0", "0.0", "0.0"])] + tail) + "\n")
    ds = load_verdat(path)
    ctx.close(ds.grid.nodes, xy, "nodes", rtol=0, atol=1e-12)
    ctx.close(ds["depth"].data, z, "depths", rtol=0, atol=1e-12)
    ctx.check(ds["depth"].units == (head.split() + [""])[1].lower(), "units", got=ds["depth"].units, head=head)
    want, s = [], 0
    for c in cuts:
        want += [(k, k + 1) for k in range(s, c - 1)] + [(c - 1, s)]
        s = c
    got = [] if ds.grid.boundaries is None else [tuple(map(int, b)) for b in ds.grid.boundaries]
    ctx.check(got == want, "boundaries", got=got, want=want)
    # what was read can be written and read again, with boundaries or without
    out = os.path.join(ctx.tmp(), "again.verdat")
    unitless = not ds["depth"].units
    save_verdat(ds, out, **({"depth_var": None} if unitless else {}))
    new = load_verdat(out)
    if ctx.check(sorted(map(tuple, np.round(new.grid.nodes, 4))) == sorted(map(tuple, xy)), "again_nodes", got=new.grid.nodes, want=xy):
        which = [int(np.argmin(np.hypot(*(xy - p).T))) for p in new.grid.nodes]
        if len(set(which)) == n:
            ctx.check(np.allclose(new["depth"].data, np.ones(n) if unitless else z[which], rtol=0, atol=6e-4), "again_depths")
            got = sorted(tuple(sorted((which[int(a)], which[int(b)]))) for a, b in (new.grid.boundaries if new.grid.boundaries is not None else []))
            ctx.check(got == sorted(tuple(sorted(p)) for p in want), "again_boundaries", got=got, want=want)
            ctx.event("again_with" if cuts else "again_without")
    bad = os.path.join(ctx.tmp(), "bad.verdat")
    open(bad, "w").write("\n".join([head] + body + ["0,0,0,0", "what is this"]) + "\n")
    with ctx.expect_raises(ValueError, "broken_file_accepted"):
        load_verdat(bad)
    ctx.event("refused")
    if cuts:
        out = os.path.join(ctx.tmp(), "o.verdat")
        ds.variables["depth"].units = r.choice(["fathoms", "km"])
        with ctx.expect_raises((KeyError, ValueError), "unknown_units_accepted"):
            save_verdat(ds, out)
        ctx.check(not os.path.exists(out), "refused_but_written")
        save_verdat(ds, out, depth_var=None)
        new = load_verdat(out)
        ctx.check(np.array_equal(new["depth"].data, np.ones(n)), "depth_none_is_one")
        ctx.event("no_depth")
    ctx.sig(n, cuts, head, xy.tobytes()[:32])


C24 = prop(
    "C24",
    "seeded grids of all kinds and copies of them that differ in one thing; data arrays and variables of every shape that fits or does not fit the grid; "
    "non-trivial always; distinct by (grid, difference, shape)",
    ["meshes whose node, face and boundary counts differ for data placed by its size"],
)


@C24.scenario(quick=400, thorough=8000, needs=["mesh", "curvilinear", "same", "different", "padding_differs", "partly_masked", "mask_differs"])
def equality(ctx):
    r, rng = ctx.r, ctx.rng
    if r.random() < 0.5:
        ctx.event("mesh")
        nodes, faces, dropped, desc = gen.tri_mesh(ctx, nmax=40)
        b = np.array([s for s, n in _sides(faces).items() if n == 1], dtype=np.int32)
        base = {"nodes": nodes, "faces": faces}
        if r.random() < 0.3:
            # room for quads, with nothing there in most
            f = np.column_stack((faces, rng.integers(0, len(nodes), len(faces)))).astype(np.int32)
            hid = np.zeros(f.shape, bool)
            hid[:, 3] = rng.random(len(f)) < 0.8
            hid[r.randrange(len(f)), 3] = True
            base["faces"] = np.ma.array(f, mask=hid)
            ctx.event("partly_masked")
        if r.random() < 0.5:
            base["boundaries"] = b
        cls = r.choice([Grid_U, UGrid])
    else:
        ctx.event("curvilinear")
        lon, lat, desc = gen.quad_grid(ctx, nmax=6)
        base = {"node_lon": lon, "node_lat": lat}
        if r.random() < 0.5:
            base.update(center_lon=rng.normal(size=(lon.shape[0] + 1, lon.shape[1] + 1)), center_lat=rng.normal(size=(lon.shape[0] + 1, lon.shape[1] + 1)))
            if r.random() < 0.5:
                base["center_mask"] = rng.random((lon.shape[0] + 1, lon.shape[1] + 1)) < 0.3
        if r.random() < 0.4:
            base["node_mask"] = rng.random(lon.shape) < 0.3
        if r.random() < 0.4:
            base["face_padding"] = np.array([r.choice(["none", "low", "high", "both"]) for _ in range(2)])
        for p in ("node", "center"):
            if p + "_lon" in base and r.random() < 0.3:
                hid = rng.random(base[p + "_lon"].shape) < 0.3
                hid.flat[0], hid.flat[1] = True, False
                for q in ("_lon", "_lat"):
                    base[p + q] = np.ma.array(base[p + q], mask=hid)
                ctx.event("partly_masked")
        cls = r.choice([Grid_S, SGrid])
    copy = lambda d: {k: tuple(map(str, v)) if k == "face_padding" else v.copy() for k, v in d.items()}
    same = copy(base)
    for v in same.values():
        if np.ma.is_masked(v) and r.random() < 0.5:
            # what is under a mask is nothing
            v.data[v.mask] = r.randrange(4)
    a, c = cls(**copy(base)), cls(**same)
    ctx.check(a == a and a == c and c == a and not (a != c), "equal_grids_differ", what=sorted(base), desc=desc)
    ctx.event("same")
    other = {k: v.copy() for k, v in base.items()}
    k = r.choice(sorted(base))
    v = other[k]
    i = r.choice([tuple(map(int, q)) for q in np.argwhere(~np.ma.getmaskarray(v))])
    how = r.choice(["value", "value", "missing", "shape", "mask"])
    if how == "mask" and np.ma.is_masked(v):
        q = r.choice([tuple(map(int, q)) for q in np.argwhere(v.mask)]) if r.random() < 0.5 else i
        if k == "faces":
            q = r.choice([tuple(map(int, q)) for q in np.argwhere(v.mask)])
        other[k].mask[q] = not v.mask[q]
        ctx.event("mask_differs")
    elif how == "missing" and k in ("boundaries", "node_mask", "center_mask"):
        del other[k]
    elif how == "shape" and k in ("faces", "boundaries") and len(v) > 1:
        other[k] = v[:-1]
    elif k in ("faces", "boundaries"):
        other[k][i] = (v[i] + 1) % len(base["nodes"])
    elif v.dtype == bool:
        other[k][i] = not v[i]
    elif k == "face_padding":
        other[k][i] = r.choice([x for x in ["none", "low", "high", "both"] if x != v[i]])
        ctx.event("padding_differs")
    else:
        other[k][i] += (abs(v[i]) + 1) * r.choice([1e-3, 1e-9, 1])
    d = cls(**copy(other))
    ctx.event("different")
    ctx.check(a != d and d != a and not (a == d), "different_grids_equal", what=k, how=how, at=i)
    o = Grid_R(node_lon=np.arange(3.0), node_lat=np.arange(4.0))
    ctx.check(not (a == o) and not (a == 5) and not (a == None), "other_kind_equal")  # noqa: E711
    ctx.sig(desc, sorted(base), k, how, i)


@C24.scenario(quick=500, thorough=9000, needs=["U", "S", "R", "fits", "nowhere"])
def places(ctx):
    r, rng = ctx.r, ctx.rng
    kind = r.choice("USR")
    ctx.event(kind)
    lead = tuple(r.randint(1, 4) for _ in range(r.choice([0, 0, 1, 2])))
    if kind == "U":
        nodes, faces, dropped, desc = gen.tri_mesh(ctx, nmax=40)
        b = np.array([s for s, n in _sides(faces).items() if n == 1], dtype=np.int32)
        kw = {"boundaries": b} if r.random() < 0.6 else {}
        g = r.choice([Grid_U, UGrid])(nodes=nodes, faces=faces, **kw)
        sz = {"node": len(nodes), "face": len(faces)}
        if kw:
            sz["boundary"] = len(b)
        if len(set(sz.values())) < len(sz):
            raise Skip()
        shapes = {k: (v,) for k, v in sz.items()}
        odd = [(v,) for v in (1, len(nodes) + 1, len(nodes) - 1, 3, len(faces) + 1, 10**4) if v not in sz.values()]
    elif kind == "S":
        lon, lat, desc = gen.quad_grid(ctx, nmax=6)
        ny, nx = lon.shape
        kw, shapes = {}, {"node": (ny, nx)}
        for nm, s in (("center", (ny + 1, nx + 1)), ("edge1", (ny + 1, nx)), ("edge2", (ny, nx + 1))):
            if r.random() < 0.7:
                if nm == "center" and r.random() < 0.5:
                    s = (ny - 1, nx - 1)
                kw.update({nm + "_lon": np.zeros(s), nm + "_lat": np.zeros(s)})
                shapes[nm] = s
        g = r.choice([Grid_S, SGrid])(node_lon=lon, node_lat=lat, **kw)
        odd = [(ny + 2, nx), (ny, nx + 2), (ny - 1, nx), (ny, nx - 1), (ny + 1, nx - 1), (ny + 2, nx + 2)]
        for nm, s in (("edge1", (ny + 1, nx)), ("edge2", (ny, nx + 1)), ("center", (ny + 1, nx + 1))):
            if nm not in shapes:
                odd.append(s)
    else:
        nx, ny = r.randint(2, 7), r.randint(2, 7)
        if "grid" in ctx.big:
            nx, ny = r.choice([(r.randint(130, 300), r.randint(2, 7)), (r.randint(2, 7), r.randint(130, 300)), (r.randint(20, 70), r.randint(20, 70))])
        x, y = np.sort(rng.random(nx)), np.sort(rng.random(ny))
        g = Grid_R(node_lon=x, node_lat=y)
        shapes = {"node": (ny, nx), "center": (ny - 1, nx - 1)}
        odd = [(ny + 3, nx), (ny, nx + 3), (ny + 3, nx + 5), (ny + 1, nx), (ny, nx + 1), (ny - 1, nx), (ny, nx - 1), (ny - 1, nx + 1)]
        odd = [s for s in odd if s != (nx, ny)]
        desc = (nx, ny)
    where = r.choice(sorted(shapes))
    data = np.zeros(lead + shapes[where])
    if r.random() < 0.3:
        data = np.ma.array(data, mask=rng.random(data.shape) < 0.3)
    ctx.check(g.infer_location(data) == where, "place", got=g.infer_location(data), want=where, shape=data.shape, grid=desc)
    v = Variable(name="v", data=data, grid=g, time=None)
    ctx.event("fits")
    p = r.choice(odd)
    d2 = np.zeros(lead + p)
    if kind != "U" or p[-1] not in [s[-1] for s in shapes.values()]:
        ctx.check(g.infer_location(d2) is None, "place_of_misfit", got=g.infer_location(d2), shape=d2.shape, shapes=shapes)
        ctx.event("nowhere")
    declared = r.choice(["node", "center", "face", "edge1"])
    v = Variable(name="v", data=data, grid=g, location=declared)
    ctx.check(v.location == declared, "declared", got=v.location)
    with ctx.expect_raises(ValueError, "unknown_place_accepted"):
        v.location = r.choice(["nowhere", "Node", "nodes"])
    ctx.check(v.location == declared, "declared_after_refusal", got=v.location)
    ctx.sig(kind, desc, where, lead, p)


C25 = prop(
    "C25",
    "seeded staggered velocity fields with masks on grids anywhere, the SGRID files that describe them, rotation angles of any size; bearings between random "
    "and special points (poles, antimeridian, meridians, the equator); polygons of any shape and orientation with points in and around them; non-trivial always; "
    "distinct by values",
    ["polygon points are not within rounding of a side"],
)


@C25.scenario(quick=200, thorough=4000, needs=["masked", "file", "integers"])
def velocities(ctx):
    """from the faces of cells to their centers, east and north, and speed"""
    r, rng = ctx.r, ctx.rng
    ny, nx = r.randint(3, 8), r.randint(3, 8)  # nodes
    if "grid" in ctx.big:
        ny, nx = r.randint(20, 140), r.randint(20, 140)
    if ny == nx:
        nx += 1
    u, v = rng.normal(size=(ny + 1, nx)), rng.normal(size=(ny, nx + 1))
    dt, fill = "f8", 1e30
    if r.random() < 0.3:
        # stored as integers, of any size
        dt = r.choice(["i1", "i2", "i4", "f4"])
        if dt != "f4":
            top = min(np.iinfo(dt).max, 2000000000)
            u, v = rng.integers(-top, top, u.shape).astype(float), rng.integers(-top, top, v.shape).astype(float)
            fill = np.iinfo(dt).min
            ctx.event("integers")
        else:
            u, v = u.astype(dt).astype(float), v.astype(dt).astype(float)
    masked = r.random() < 0.5
    mu, mv = np.zeros(u.shape, bool), np.zeros(v.shape, bool)
    if masked:
        ctx.event("masked")
        mu, mv = rng.random(u.shape) < 0.2, rng.random(v.shape) < 0.2
    U, V = (np.ma.array(u, mask=mu), np.ma.array(v, mask=mv)) if masked else (u, v)
    ang = rng.uniform(-7, 7, (ny + 1, nx + 1))
    path = os.path.join(ctx.tmp(), "s.nc")
    with nc4.Dataset(path, "w") as nd:
        for n, k in (("eta_psi", ny), ("xi_psi", nx), ("eta_rho", ny + 1), ("xi_rho", nx + 1), ("eta_u", ny + 1), ("xi_u", nx), ("eta_v", ny), ("xi_v", nx + 1)):
            nd.createDimension(n, k)
        gv = nd.createVariable("grid", "i4")
        gv.setncatts({"cf_role": "grid_topology", "topology_dimension": np.int32(2), "node_dimensions": "xi_psi eta_psi",
                      "face_dimensions": "xi_rho: xi_psi (padding: both) eta_rho: eta_psi (padding: both)",
                      "edge1_dimensions": "xi_u: xi_psi eta_u: eta_psi (padding: both)", "edge2_dimensions": "xi_v: xi_psi (padding: both) eta_v: eta_psi",
                      "node_coordinates": "lon_psi lat_psi"})
        X, Y = np.meshgrid(np.arange(nx) * 1.0, np.arange(ny) * 1.0)
        nd.createVariable("lon_psi", "f8", ("eta_psi", "xi_psi"))[:] = X
        nd.createVariable("lat_psi", "f8", ("eta_psi", "xi_psi"))[:] = Y
        nd.createVariable("angle", "f8", ("eta_rho", "xi_rho"))[:] = ang
        for n, d, a in (("u", ("eta_u", "xi_u"), U), ("v", ("eta_v", "xi_v"), V)):
            w = nd.createVariable(n, dt, d, fill_value=fill)
            w.grid = "grid"
            w[:] = a
    with nc4.Dataset(path) as nd:
        ctx.event("file")
        g = load_grid(nd)
        uc = avg_to_cell_center(nd["u"][g.u.center_slicing], g.u.center_axis)
        vc = avg_to_cell_center(nd["v"][g.v.center_slicing], g.v.center_axis)
        ac = np.asarray(g.angles[:])[1:-1, 1:-1]
    ci = (ny - 1, nx - 1)
    wu, wv = np.zeros(ci), np.zeros(ci)
    mm, mn = np.zeros(ci, bool), np.zeros(ci, bool)
    for j in range(ny - 1):
        for i in range(nx - 1):
            wu[j, i], mm[j, i] = 0.5 * (u[j + 1, i] + u[j + 1, i + 1]), mu[j + 1, i] or mu[j + 1, i + 1]
            wv[j, i], mn[j, i] = 0.5 * (v[j, i + 1] + v[j + 1, i + 1]), mv[j, i + 1] or mv[j + 1, i + 1]
    at = max(np.abs(u).max(), np.abs(v).max())
    rt, at = (1e-5, 1e-5 * at) if dt == "f4" else (1e-9, 1e-12 * at)
    for got, want, m, k in ((uc, wu, mm, "u"), (vc, wv, mn, "v")):
        if not ctx.check(got.shape == ci, "center_shape", got=got.shape, want=ci, comp=k):
            return
        ctx.check(np.array_equal(np.ma.getmaskarray(got), m), "center_mask", comp=k)
        ctx.close(np.ma.filled(got, 0)[~m], want[~m], "center_mean", rtol=rt, atol=at, comp=k)
    keep = uc.copy(), vc.copy(), ac.copy()
    e, n = rotate_vectors(uc, vc, ac)
    m = mm | mn
    a = ang[1:-1, 1:-1]
    z = (wu + 1j * wv) * np.exp(1j * a)
    for got, want in ((e, z.real), (n, z.imag)):
        ctx.check(np.array_equal(np.ma.getmaskarray(got), m), "rotated_mask")
        ctx.close(np.ma.filled(got, 0)[~m], want[~m], "rotated", rtol=rt, atol=at)
    s = vector_sum(e, n)
    ctx.check(np.array_equal(np.ma.getmaskarray(s), m), "speed_mask")
    ctx.close(np.ma.filled(s, 0)[~m], np.hypot(wu, wv)[~m], "speed", rtol=rt, atol=at)
    x, y = u[:ny, :nx].astype(dt), v[:ny, :nx].astype(dt)
    if masked:
        x, y = np.ma.array(x, mask=mu[:ny, :nx]), np.ma.array(y, mask=mv[:ny, :nx])
    s = vector_sum(x, y)
    ok = ~np.ma.getmaskarray(x) & ~np.ma.getmaskarray(y)
    ctx.check(np.array_equal(~np.ma.getmaskarray(s), ok), "raw_speed_mask", dtype=dt)
    ctx.close(np.ma.filled(s, 0)[ok], np.hypot(u[:ny, :nx], v[:ny, :nx])[ok], "raw_speed", rtol=rt, atol=at, dtype=dt)
    back = rotate_vectors(e, n, -ac)
    ctx.close(np.ma.filled(back[0], 0)[~m], wu[~m], "rotated_back", rtol=rt, atol=at)
    ctx.close(np.ma.filled(back[1], 0)[~m], wv[~m], "rotated_back", rtol=rt, atol=at)
    ctx.check(all(np.array_equal(np.ma.filled(p, 0), np.ma.filled(q, 0)) for p, q in zip((uc, vc, ac), keep)), "arguments_changed")
    ctx.sig(ny, nx, masked, u.tobytes()[:16])


@C25.scenario(quick=300, thorough=6000, needs=["square", "f4", "integer", "masked", "one_row", "axis0", "axis1"])
def arrays(ctx):
    """the same rules on arrays of any shape, type and storage, and the input left alone"""
    r, rng = ctx.r, ctx.rng
    ny, nx = r.randint(2, 9), r.randint(2, 9)
    k = r.choice(["any", "square", "one_row", "one_column"])
    if k == "square":
        nx = ny
        ctx.event("square")
    elif k == "one_row":
        ny = 1
        ctx.event("one_row")
    elif k == "one_column":
        nx = 1
    t = r.choice(["f8", "f8", "f4", "i1", "u1", "i2", "i4", "i8", ">f8", ">f4", ">i2"])
    dt = np.dtype(t)
    at = 1e-12

    def some():
        if dt.kind == "f":
            return rng.normal(size=(ny, nx)).astype(dt) * r.choice([1, 100])
        i = np.iinfo(dt)
        lo, hi = max(i.min, -(2**50)), min(i.max, 2**50)
        return rng.integers(lo, hi, (ny, nx)).astype(dt)

    if dt.kind == "f" and dt.itemsize == 4:
        ctx.event("f4")
    if dt.kind != "f":
        ctx.event("integer")
    rt = 1e-5 if dt.kind == "f" and dt.itemsize == 4 else 1e-12
    x, y = some(), some()
    m = np.zeros((ny, nx), bool), np.zeros((ny, nx), bool)
    if r.random() < 0.4:
        m = tuple(rng.random((ny, nx)) < 0.3 for _ in range(2))
        ctx.event("masked")
    X, Y = (np.ma.array(a.copy(), mask=k.copy()) if k.any() else gen.restore(r, a, ints=(), floats=())[1] for a, k in zip((x, y), m))
    x, y = x.astype("f8"), y.astype("f8")
    keep = [np.array(np.ma.getdata(a)) for a in (X, Y)], [np.ma.getmaskarray(a).copy() for a in (X, Y)]

    def same(got, want, mask, what):
        if not ctx.check(np.shape(got) == want.shape, what + "_shape", got=np.shape(got), want=want.shape, dtype=t):
            return
        ctx.check(np.array_equal(np.ma.getmaskarray(got), mask), what + "_mask", dtype=t)
        s = max(1.0, np.abs(want).max(initial=0))
        ctx.close(np.ma.filled(np.ma.asarray(got).astype("f8"), 0)[~mask], want[~mask], what, rtol=rt, atol=max(at, rt) * s, dtype=t)

    for ax in (0, 1):
        ctx.event("axis%d" % ax)
        b, bm = (x, m[0]) if ax else (x.T, m[0].T)
        w, wm = 0.5 * b[:, 1:] + 0.5 * b[:, :-1], bm[:, 1:] | bm[:, :-1]
        same(avg_to_cell_center(X, ax), w if ax else w.T, wm if ax else wm.T, "average%d" % ax)
    same(vector_sum(X, Y), np.hypot(x, y), m[0] | m[1], "length")
    ang = rng.uniform(-9, 9, (ny, nx))
    A = gen.restore(r, ang, ints=(), floats=())[1]
    z = (x + 1j * y) * np.exp(1j * ang)
    e, n = rotate_vectors(X, Y, A)
    same(e, z.real, m[0] | m[1], "rotated_x")
    same(n, z.imag, m[0] | m[1], "rotated_y")
    ctx.check(all(np.array_equal(np.ma.getdata(a), b) for a, b in zip((X, Y), keep[0])) and np.array_equal(A, ang), "arguments_changed")
    ctx.check(all(np.array_equal(np.ma.getmaskarray(a), b) for a, b in zip((X, Y), keep[1])), "masks_changed")
    p = pair_arrays(np.asarray(np.ma.getdata(X)), np.asarray(np.ma.getdata(Y)))
    ctx.check(p.shape == (ny, nx, 2) and np.array_equal(p[..., 0], x) and np.array_equal(p[..., 1], y), "pairs", dtype=t)
    ctx.sig(t, ny, nx, x.tobytes()[:32])


def _ecef(p):
    lo, la = np.radians(p[..., 0]), np.radians(p[..., 1])
    return np.stack((np.cos(la) * np.cos(lo), np.cos(la) * np.sin(lo), np.sin(la)), -1)


@C25.scenario(quick=400, thorough=8000, needs=["rows", "antimeridian", "stored", "cardinal"])
def bearings(ctx):
    r, rng = ctx.r, ctx.rng
    shape = r.choice([(3,), (1,), (4, 3), (2, 5)])
    a = np.stack((rng.uniform(-180, 180, shape), rng.uniform(-89, 89, shape)), -1)
    how = r.choice(["near", "far", "meridian", "antimeridian", "parallel", "cardinal"])
    d = np.stack((rng.uniform(-1, 1, shape), rng.uniform(-0.9, 0.9, shape)), -1)
    if how == "near":
        b = a + d * 0.01
    elif how == "far":
        b = np.stack((rng.uniform(-180, 180, shape), rng.uniform(-89, 89, shape)), -1)
    elif how == "meridian":
        b = a.copy()
        b[..., 1] = np.clip(b[..., 1] + d[..., 1] * 10, -89.9, 89.9)
    elif how == "parallel":
        b = a.copy()
        b[..., 0] += d[..., 0] * 5
    elif how == "cardinal":
        # all of them close to due north, east, south or west
        t = np.radians(r.choice([0, 90, 180, 270]) + d[..., 0] * r.choice([1, 0.01]))
        a[..., 1] *= 0.6
        b = a + np.stack((np.sin(t) / np.cos(np.radians(a[..., 1])), np.cos(t)), -1) * r.choice([0.001, 0.05])
        ctx.event("cardinal")
    else:
        a[..., 0] = 179.5
        b = a + d
        b[..., 0] = np.where(b[..., 0] > 180, b[..., 0] - 360, b[..., 0])
        b[..., 1] = np.clip(b[..., 1], -89.9, 89.9)
        ctx.event("antimeridian")
    # direction of the great circle in the local frame of a
    p, q = _ecef(a), _ecef(b)
    lo, la = np.radians(a[..., 0]), np.radians(a[..., 1])
    east = np.stack((-np.sin(lo), np.cos(lo), np.zeros(shape)), -1)
    north = np.stack((-np.sin(la) * np.cos(lo), -np.sin(la) * np.sin(lo), np.cos(la)), -1)
    ce, cn = (q * east).sum(-1), (q * north).sum(-1)
    ok = np.hypot(ce, cn) > 1e-7
    keep = a.copy(), b.copy()
    tol = 1e-6
    if r.random() < 0.3 and how != "antimeridian":
        # whole degrees, or single precision, however stored
        if r.random() < 0.5:
            a, b = np.round(a), np.round(b)
        else:
            a, b = a.astype("f4").astype("f8"), b.astype("f4").astype("f8")
        keep = a.copy(), b.copy()
        p, q = _ecef(a), _ecef(b)
        lo, la = np.radians(a[..., 0]), np.radians(a[..., 1])
        east = np.stack((-np.sin(lo), np.cos(lo), np.zeros(shape)), -1)
        north = np.stack((-np.sin(la) * np.cos(lo), -np.sin(la) * np.sin(lo), np.cos(la)), -1)
        ce, cn = (q * east).sum(-1), (q * north).sum(-1)
        a, b = gen.restore(r, a)[1], gen.restore(r, b)[1]
        # single precision of the angles in radians
        single = any(v.dtype.kind == "f" and v.dtype.itemsize == 4 for v in (a, b))
        tol = 5e-5 if single else 1e-6
        ok = np.hypot(ce, cn) > (0.1 if single else 1e-7)
        ctx.event("stored")
    got = np.asarray(calculate_bearing(a, b))
    ctx.check(np.array_equal(a, keep[0]) and np.array_equal(b, keep[1]), "arguments_changed")
    ctx.check(got.shape == shape and (got >= 0).all() and (got <= 360).all(), "bearing_range", got=got)
    err = np.angle(np.exp(1j * (np.radians(got) - np.arctan2(ce, cn))))
    ctx.check((np.abs(err[ok]) < tol).all(), "bearing", how=how, got=got, want=np.degrees(np.arctan2(ce, cn)), a=a, b=b)
    ang = np.asarray(calculate_angle_from_true_east(a, b))
    ctx.event("rows")
    if ctx.check(ang.shape == shape[:-1] + (shape[-1] + 1,), "angle_shape", got=ang.shape):
        want = np.arctan2(cn, ce)
        err = np.angle(np.exp(1j * (ang[..., :-1] - want)))
        ctx.check((np.abs(err[ok]) < tol).all(), "angle_from_east", how=how)
        ctx.check(np.array_equal(ang[..., -1], ang[..., -2]), "last_angle_repeated")
    z = pair_arrays(a[..., 0], a[..., 1])
    ctx.check(z.shape == a.shape and np.array_equal(z, a), "pairs")
    # either of them in whole numbers
    w = np.round(a).astype(int)
    for p, q in ((w[..., 0], a[..., 1]), (a[..., 0], w[..., 1])):
        z = pair_arrays(p, q)
        ctx.check(z.shape == a.shape and np.array_equal(z[..., 0], p) and np.array_equal(z[..., 1], q), "mixed_pairs", got=z, want=(p, q))
    ctx.sig(how, shape, a.tobytes()[:16])


@C25.scenario(quick=400, thorough=8000, needs=["inside", "outside", "nonconvex", "stored", "many_corners"])
def polygons(ctx):
    r, rng = ctx.r, ctx.rng
    n, m = r.choice([1, 2, 5, 12, 30, 90]), r.randint(3, 9)
    polys, pts, want = [], [], []
    whole = r.random() < 0.2  # corners and points in whole numbers
    if not whole and r.random() < 0.2:
        m = r.choice([10, 12, 17, 40])
        ctx.event("many_corners")
    for _ in range(n):
        c = rng.uniform(-100, 100, 2)
        ang = np.sort(rng.uniform(0, 2 * np.pi, m))
        gaps = np.diff(np.append(ang, ang[0] + 2 * np.pi))
        if gaps.min() < 0.05 or gaps.max() > 3:
            ang = np.arange(m) * 2 * np.pi / m + rng.uniform(0, 1)
        rad = rng.uniform(0.3, 2, m)
        poly = c + np.column_stack((np.cos(ang), np.sin(ang))) * rad[:, None]
        if r.random() < 0.5:
            poly = poly[::-1]
        poly = np.roll(poly, r.randrange(m), axis=0)
        p = c + rng.uniform(-1.5, 1.5, 2)
        if whole:
            c, poly = np.round(c), np.round((poly - c) * 40) + np.round(c)
            p = np.round((p - c) * 40) + c
        # star shaped around c: inside iff on the near side of the edge in its direction
        d = p - c
        a0, b0 = poly, np.roll(poly, -1, axis=0)
        w = 0.0
        for s, t in zip(a0 - p, b0 - p):
            w += np.arctan2(s[0] * t[1] - s[1] * t[0], s @ t)
        # distance to the outline
        e = b0 - a0
        tt = np.clip(((p - a0) * e).sum(1) / (e * e).sum(1), 0, 1)
        if not (e * e).sum(1).all() or np.linalg.norm(a0 + tt[:, None] * e - p, axis=1).min() < 1e-6:
            continue
        ins = abs(w) > np.pi
        ctx.event("inside" if ins else "outside")
        cr = [np.cross(np.append(poly[(k + 1) % m] - poly[k], 0), np.append(poly[(k + 2) % m] - poly[(k + 1) % m], 0))[2] for k in range(m)]
        if min(cr) < 0 < max(cr):
            ctx.event("nonconvex")
        polys.append(poly)
        pts.append(p)
        want.append(ins)
    if not pts:
        raise Skip()
    polys, pts = np.array(polys), np.array(pts)
    if whole:
        polys, pts = gen.restore(r, polys)[1], gen.restore(r, pts)[1]
        ctx.event("stored")
    k = polys.copy(), pts.copy()
    got = points_in_polys(pts, polys)
    ctx.check(np.array_equal(got, want), "inside", got=got, want=want, pts=pts, polys=polys)
    if r.random() < 0.5:
        got = points_in_polys(np.ma.array(pts), np.ma.array(polys))
    else:
        got = points_in_polys(pts, polys[:, :, 0].copy(), polys[:, :, 1].copy())
    ctx.check(np.array_equal(got, want), "inside_other_form", got=got, want=want)
    ctx.check(np.array_equal(polys, k[0]) and np.array_equal(pts, k[1]), "arguments_changed")
    ctx.sig(n, m, pts.tobytes()[:16])


C28 = prop(
    "C28",
    "seeded histories of indexing (integers, slices, tuples, masks, short and very long index arrays) with new data in between, of wrapped arrays and of variables in files; "
    "non-trivial if an index was repeated; distinct by history",
    ["indices that the data itself accepts"],
)


def _index(ctx, shape, nc):
    r, rng = ctx.r, ctx.rng
    k = r.choice(["int", "slice", "array", "array", "tuple", "ellipsis", "mask", "step"])
    n = shape[0]
    if k == "int":
        return r.randrange(-n, n)
    if k == "slice":
        if r.random() < 0.3:
            return slice(None)
        a = r.randrange(n)
        return slice(a, r.randint(a + 1, n))
    if k == "step":
        return slice(r.randrange(n), None, r.choice([2, 3, 7]))
    if k == "array":
        m = r.choice([3, min(n, 1100)])
        i = np.sort(rng.choice(n, min(m, n), replace=False))
        return i
    if k == "mask":
        b = rng.random(n) < 0.5
        b[0] = True
        return b
    if k == "ellipsis":
        return Ellipsis
    if r.random() < 0.3:
        # a list of places along the first, whole along the others
        i = np.sort(rng.choice(n, min(n, r.choice([3, 1100])), replace=False))
        return (i,) + (slice(None),) * (len(shape) - 1)
    return tuple(slice(0, r.randint(1, s)) if r.random() < 0.6 else r.randrange(s) for s in shape)


def _moved(r, i):
    """The same places but for one somewhere in the middle."""
    j = i.copy()
    k = [k for k in range(1, len(i) - 1) if i[k + 1] - i[k] > 1]
    if not k:
        return np.delete(i, len(i) // 2)
    j[min(k, key=lambda v: abs(v - len(i) // 2))] += 1
    return j


def _twin(ctx, i, n):
    """Another index that is nearly the same."""
    r = ctx.r
    if isinstance(i, slice):
        a, b, s = i.start, i.stop, i.step
        return r.choice([slice(a, b, (s or 1) + 1), slice(a, b, None), slice(a, None, s), slice(None, b, s), slice(a, b, 1)])
    if isinstance(i, tuple) and isinstance(i[0], np.ndarray) and len(i[0]) > 3:
        return (_moved(r, i[0]),) + i[1:]
    if isinstance(i, tuple) and len(i) > 1:
        return i[:-1]
    if isinstance(i, np.ndarray) and i.dtype != bool and len(i) > 3:
        return r.choice([_moved(r, i), i.copy()])
    if isinstance(i, int):
        return slice(i, i + 1) if i >= 0 else i + n
    return None


def _key(i):
    return repr(i) if not isinstance(i, np.ndarray) else (i.dtype.str, i.tobytes())


@C28.scenario(quick=1200, thorough=12000, needs=["uvar", "umvar", "sgrid", "repeated", "long", "new_data", "from_file", "other_file_data", "masked", "other_type", "missing_in_file", "near_twin", "many_attributes", "described"])
def indexing(ctx):
    r, rng = ctx.r, ctx.rng
    what = r.choice(["uvar", "uvar", "umvar", "sgrid"])
    ctx.event(what)
    shape = r.choice([(1300,), (1500,), (30,), (1200, 2), (6, 7), (5, 5), (1,), (2, 3, 4)]) if what != "umvar" else (r.choice([1300, 25, 2, 1]),)
    dt = r.choice(["f8", "f8", "f4", "i4", "i2", "u1", ">f4", ">i4"])
    ctx.event("other_type") if dt != "f8" else None

    def make():
        return rng.normal(size=shape).astype(dt) if dt[-2] == "f" else rng.integers(0, 120, shape).astype(dt)

    nd = None
    comps = 1

    def in_file(name, d):
        v = nd.createVariable(name, dt, tuple("d%d" % k for k in range(len(shape))), fill_value=250 if dt == "u1" else -9)
        v[:] = d
        return v

    def missing(d):
        if d.size < 2 or r.random() < 0.5:
            return d
        m = rng.random(d.shape) < 0.3
        m.flat[r.randrange(d.size)] = False
        ctx.event("missing_in_file")
        return np.ma.array(d, mask=m)

    if what == "umvar":
        comps = r.choice([2, 3])
        data = [make() for _ in range(comps)]
        if r.random() < 0.4:
            ctx.event("masked")
            data = [np.ma.array(d, mask=rng.random(shape) < 0.3) for d in data]
        obj = UMVar("vel", "node", [UVar("c%d" % k, "node", d.copy()) for k, d in enumerate(data)])
        if r.random() < 0.4:
            data.append(make())
            obj.add_var(UVar(r.choice(["more", "a", "c00", "Z"]), "node", data[-1].copy()))
        ctx.check(obj.shape == shape, "shape")
        other = r.choice([(shape[0] + 1,), (shape[0], 2), (shape[0], 1), ()])
        with ctx.expect_raises(ValueError, "other_shapes_combined", shape=other):
            UMVar("vel", "node", [UVar("c0", "node", data[0]), UVar("c1", "node", np.zeros(other))])
        with ctx.expect_raises(ValueError, "other_shape_added", shape=other):
            obj.add_var(UVar("bad", "node", np.zeros(other)))
        with ctx.expect_raises(ValueError, "same_names_combined"):
            UMVar("vel", "node", [UVar("c0", "node", data[0]), UVar("c0", "node", data[1])])
        three = r.choice([("c0", "c1", "c0"), ("c1", "c0", "c0"), ("c0", "c0", "c1")])
        with ctx.expect_raises(ValueError, "same_names_of_three_combined", names=three):
            UMVar("vel", "node", [UVar(k, "node", data[0]) for k in three])
        with ctx.expect_raises(ValueError, "other_shape_accepted"):
            obj.add_var(UVar("bad", "node", np.zeros(shape[0] + 1)))
        with ctx.expect_raises(ValueError, "same_name_accepted"):
            obj.add_var(UVar("c0", "node", np.zeros(shape)))
        ref = lambda i: np.ma.column_stack([np.ma.asarray(d)[i] for d in data])
    else:
        data = [make()]
        src = data[0].copy()
        if r.random() < 0.4:
            ctx.event("from_file")
            nd = nc4.Dataset(os.path.join(ctx.tmp(), "x.nc"), "w")
            for k, s in enumerate(shape):
                nd.createDimension("d%d" % k, s)
            data[0] = missing(data[0])
            src = in_file("q", data[0])
            src.units = "m"
            attrs = {"units": "m"}
            for k in range(r.choice([0, 1, 3, 14])):
                attrs["a%d" % k] = r.choice(["words", "x y", str(k)])
                src.setncattr("a%d" % k, attrs["a%d" % k])
            ctx.event("many_attributes") if len(attrs) > 9 else None
        if what == "uvar":
            obj = UVar("q", r.choice(["node", "face", "edge", "boundary"]), src)
        elif nd is not None and r.random() < 0.5:
            names = {"long_name": "some long name", "standard_name": "sea_water_speed", "location": r.choice(["node", "face", "edge1"]), "coordinates": "lon lat", "grid": "grid"}
            for k in list(names):
                if r.random() < 0.4:
                    del names[k]
                else:
                    src.setncattr(k, names[k])
            obj = SGridVariable.create_var(src)
            ctx.event("described")
            for k in names:
                ctx.check(getattr(obj, k) == names[k], "described_" + k)
            ctx.check(obj.dimensions == src.dimensions and obj.dtype == src.dtype and obj.units == "m", "described")
        else:
            obj = SGridVariable(variable="q", data=src)
        ctx.check(obj.shape == shape and obj.ndim == len(shape), "shape")
        ctx.check(obj.max == data[0].max() and obj.min == data[0].min(), "extremes")
        if what == "uvar":
            ctx.check(len(obj) == shape[0] and (obj.dtype.kind, obj.dtype.itemsize) == (np.dtype(dt).kind, np.dtype(dt).itemsize), "length", got=obj.dtype, want=dt)
            if nd is not None:
                ctx.check(all(obj.attributes.get(k) == v for k, v in attrs.items()), "attributes", got=obj.attributes, want=attrs)
        ref = lambda i: data[0][i]
    past = []
    for step in range(r.randint(3, 12)):
        if past and r.random() < 0.4:
            i = r.choice(past)
            ctx.event("repeated")
        elif past and r.random() < 0.3 and any(isinstance(p, np.ndarray) and p.size > 1000 for p in past):
            # one that prints the same
            i = next(p for p in past if isinstance(p, np.ndarray) and p.size > 1000).copy()
            i[i.size // 2] = i[i.size // 2 - 1] if i.dtype != bool else not i[i.size // 2]
            if nd is not None and i.dtype != bool:
                continue
            ctx.event("long")
        elif past and r.random() < 0.3 and _twin(ctx, past[-1], shape[0]) is not None:
            i = _twin(ctx, past[-1], shape[0])
            ctx.event("near_twin")
        else:
            i = _index(ctx, shape, nd is not None)
        if what == "umvar" and (isinstance(i, (int, tuple))):
            continue
        if r.random() < 0.15 and what == "uvar":
            data[0] = make()
            if nd is not None and r.random() < 0.6:
                # another variable of the file
                data[0] = missing(data[0])
                obj.data = in_file("q%d" % step, data[0])
                ctx.event("other_file_data")
            else:
                if r.random() < 0.3:
                    del obj.data
                    ctx.check(len(obj) == 0 and obj[:].shape == (0,), "deleted_data")
                obj.data = data[0].copy()
                if nd is not None:
                    nd.close()
                    nd = None
            ctx.event("new_data")
            ctx.check(obj.max == data[0].max() and obj.min == data[0].min(), "extremes_of_new_data", got=(obj.min, obj.max), want=(data[0].min(), data[0].max()))
        past.append(i)
        got = np.ma.asarray(obj[i])
        want = ref(i)
        ctx.check(
            got.shape == np.shape(want) and np.array_equal(np.ma.getmaskarray(got), np.ma.getmaskarray(want)) and np.array_equal(np.ma.filled(got, 77), np.ma.filled(want, 77)), "indexed", what=what, index=i, step=step
        )
        if r.random() < 0.3 and isinstance(obj[i], np.ndarray) and obj[i].size and obj[i].flags.writeable and isinstance(i, np.ndarray):
            obj[i][...] = 99.0  # a result is the caller's
            ctx.event("result_edited")
    if nd is not None:
        nd.close()
    ctx.sig(what, shape, [str(_key(p))[:80] for p in past])
