"""C20 masks, C21 which grid and which depth a file holds."""

import os
import pathlib
import warnings

import netCDF4 as nc4
import numpy as np

from gridded.depth import Depth, DepthBase, FVCOM_Depth, L_Depth, ROMS_Depth
from gridded.grids import Grid, Grid_R, Grid_S, Grid_U
from gridded.utilities import convert_mask_to_numpy_mask, gen_celltree_mask_from_center_mask
from gridded.variable import Variable

from .. import gen
from ..core import Skip, prop
from ..models import STYLES, model

C20 = prop(
    "C20",
    "seeded mask variables: flag_values/flag_meanings as arrays or strings, any order and letter case, unused or unlisted values, missing "
    "values, the option_0 convention, or plain zero/non-zero masks, of any integer or float type, in memory or in a file; converted, and used by "
    "a structured grid to exclude cells; non-trivial if both water and land occur; distinct by (convention, values)",
    ["meanings that contain water, lake or river are water, all others are land"],
)

WATER = ["water", "sea_water", "lake", "river", "Water", "LAKE", "Open_Water", "River", "lake_water", "water_deep", "lakes", "riverbed", "Waterway", "inland.waters", "salt-water_1"]
LAND = ["land", "Land", "ice_shelf", "outside", "LAND", "dry", "boundary"]


def write_mask(ctx, nd, name, dims, shape):
    """returns (kind, expected mask)"""
    r, rng = ctx.r, ctx.rng
    kind = r.choice(["flags", "flags", "flags", "option", "plain"])
    dt = r.choice(["i1", "i2", "i4", "f8", "f4"])
    fill = r.random() < 0.3
    vals = r.sample(range(0, 9) if r.random() < 0.6 else range(-4, 6), r.randint(2, 5))
    if dt != "i1" and r.random() < 0.15:
        # flags larger than a byte holds
        vals = r.sample([0, 1, 127, 128, 200, 255, 256, 257, 1000, 1001, 32000], r.randint(2, 5))
        ctx.event("large_flags")
    nodata = -9
    if kind != "plain" and r.random() < 0.3:
        # the fill value is one of the flags: where it is stored, nothing is
        nodata = r.choice(vals if kind == "flags" else [0, 1])
    v = nd.createVariable(name, dt, dims, fill_value=nodata if fill else None)
    if kind == "flags":
        means = [r.choice(WATER if r.random() < 0.5 else LAND) for _ in vals]
        want = {a: not any(k in m.lower() for k in ("water", "lake", "river")) for a, m in zip(vals, means)}
        if r.random() < 0.6:
            v.flag_values = np.array(vals, dtype=dt)
        else:
            v.flag_values = r.choice([" ", "  "]).join(str(a) for a in vals)
            ctx.event("flag_values_string")
        v.flag_meanings = r.choice([" ", "  "]).join(means)
        data = rng.choice(vals, size=shape)
        if r.random() < 0.3:
            # a value nobody explains
            other = next(k for k in (7, 8, 9, 10, 11, 12, 13) if k not in vals)
            want[other] = True
            data.flat[r.randrange(data.size)] = other
            ctx.event("unlisted")
    elif kind == "option":
        v.option_0 = "land"
        v.option_1 = "water"
        data = rng.integers(0, 2, size=shape)
        want = {0: True, 1: False}
    else:
        some = r.choice([[0, 1, 2], [0, 1], [0, -1], [0, -1, 1], [0, -99, 3], [0, 100, -100]])
        if dt[0] == "f" and r.random() < 0.4:
            some = [0, r.choice([0.25, 0.5, -0.5, 1e-3]), 1]
        data = rng.choice(some, size=shape)
        want = {a: a != 0 for a in some}
        ctx.event("plain_negative" if min(some) < 0 else "plain_fraction" if 0 < some[1] < 1 else "plain_simple")
        k = r.random()
        if k < 0.2:  # half of a flag table is none
            v.flag_values = np.array([0, 1, 2], dtype=dt)
            ctx.event("half_table")
        elif k < 0.4:
            v.flag_meanings = "water land land"
            ctx.event("half_table")
    exp = np.vectorize(lambda k: want[k.item() if hasattr(k, "item") else k])(data)
    if fill and nodata != -9:
        exp[data == nodata] = True
        ctx.event("fill_is_flag")
    if fill and r.random() < 0.6:
        k = r.randrange(data.size)
        data = np.ma.array(data)
        data[np.unravel_index(k, shape)] = np.ma.masked
        exp.flat[k] = True
        ctx.event("missing")
    v[:] = data
    ctx.event("mask_" + kind)
    return kind, exp


@C20.scenario(quick=900, thorough=12000, needs=["mask_flags", "mask_option", "mask_plain", "flag_values_string", "unlisted", "missing", "half_table", "fill_is_flag", "large_flags", "plain_negative", "plain_fraction"])
def conversion(ctx):
    r = ctx.r
    shape = tuple(r.randint(1, 7) for _ in range(2))
    path = os.path.join(ctx.tmp(), "m.nc")
    with nc4.Dataset(path, "w") as nd:
        nd.createDimension("y", shape[0])
        nd.createDimension("x", shape[1])
        kind, exp = write_mask(ctx, nd, "mask", ("y", "x"), shape)
    with nc4.Dataset(path) as nd:
        before = np.ma.filled(nd["mask"][:], -77)
        got = convert_mask_to_numpy_mask(nd["mask"])
        ctx.check(got.dtype == bool and got.shape == shape, "dtype", got=(got.dtype, got.shape))
        atts = {k: nd["mask"].getncattr(k) for k in nd["mask"].ncattrs()}
        ctx.check(np.array_equal(got, exp), "converted", kind=kind, attrs=atts, data=before, got=got, want=exp)
        sl = tuple(slice(r.choice([None, 1]), r.choice([None, -1])) for _ in range(2))
        got = gen_celltree_mask_from_center_mask(nd["mask"], sl)
        ctx.check(np.array_equal(got, exp[sl]), "sliced", kind=kind, sl=sl)
        if kind == "plain":
            m = before.astype(r.choice(["f8", "bool"] + (["i4"] if np.array_equal(before, np.round(before)) else [])))
            ctx.check(np.array_equal(convert_mask_to_numpy_mask(m), exp), "array_mask")
    ctx.sig(kind, shape, sorted(map(str, atts.items())), exp.tobytes())
    ctx.note(kind=kind, attributes=atts)


@C20.scenario(quick=250, thorough=4000, needs=["in_water", "on_land", "roms_file", "topology_file", "objects"])
def masked_cells(ctx):
    """cells whose center is land are not water, however the mask is written and the grid made"""
    r, rng = ctx.r, ctx.rng
    lon, lat, desc = gen.quad_grid(ctx, nmax=7)
    ny, nx = lon.shape
    if min(ny, nx) < 3:
        raise Skip()
    how = r.choice(["roms_file", "topology_file", "objects"])
    ctx.event(how)
    path = os.path.join(ctx.tmp(), "m.nc")
    names = {"roms_file": ("lon_psi", "lat_psi", "lon_rho", "lat_rho", "mask_rho"), "topology_file": ("XN", "YN", "xc", "yc", "wet"), "objects": ("a", "b", "c", "d", "m")}[how]
    if how != "objects":
        names = tuple(r.choice([n, n, n.upper(), n.capitalize()]) for n in names)
    c = [np.pad(0.25 * (a[:-1, :-1] + a[1:, :-1] + a[:-1, 1:] + a[1:, 1:]), 1, mode="reflect", reflect_type="odd") for a in (lon, lat)]
    with nc4.Dataset(path, "w") as nd:
        for d, n in (("ep", ny), ("xp", nx), ("er", ny + 1), ("xr", nx + 1)):
            nd.createDimension(d, n)
        for n, a in ((names[0], lon), (names[1], lat)):
            nd.createVariable(n, "f8", ("ep", "xp"))[:] = a
        for n, a in ((names[2], c[0]), (names[3], c[1])):
            nd.createVariable(n, "f8", ("er", "xr"))[:] = a
        kind, exp = write_mask(ctx, nd, names[4], ("er", "xr"), (ny + 1, nx + 1))
    nd = nc4.Dataset(path)
    if how == "roms_file":
        g = Grid.from_netCDF(r.choice([path, pathlib.Path(path), nd]))
    elif how == "topology_file":
        gt = {k: r.choice([n, n, n.lower()]) for k, n in zip(("node_lon", "node_lat", "center_lon", "center_lat", "center_mask"), names)}
        g = Grid.from_netCDF(path, grid_topology=gt)
    else:
        g = Grid_S(node_lon=lon, node_lat=lat, center_lon=c[0], center_lat=c[1], center_mask=nd["m"])
    cm = exp[1:-1, 1:-1]
    specs = [s for s in gen.grid_points(ctx, lon, lat, n=25) if s[1] is not None and 0.02 < min(s[2], s[3]) and max(s[2], s[3]) < 0.98]
    if not specs:
        raise Skip()
    pts = np.array([s[0] for s in specs])
    ind = np.ma.filled(g.locate_faces(pts), -1)
    data = rng.normal(size=(ny - 1, nx - 1))
    v = Variable(name="q", grid=g, data=np.pad(data, 1), location="center")
    val = np.ma.asarray(v.at(pts, None)).reshape(-1) if r.random() < 0.5 else None
    for k, s in enumerate(specs):
        land = cm[s[1]]
        ctx.event("on_land" if land else "in_water")
        ctx.check(tuple(ind[k]) == ((-1, -1) if land else tuple(s[1])), "located", got=ind[k], want=s[1], land=land, kind=kind)
        if val is not None:
            gm = np.ma.getmaskarray(val)[k]
            ctx.check(gm == land and (land or abs(float(val[k]) - data[s[1]]) < 1e-9), "value", got=val[k], land=land, kind=kind)
    nd.close()
    ctx.sig(desc, lon.shape, how, kind)


C21 = prop(
    "C21",
    "seeded model files of all kinds read with the grid type given by class, by name (all aliases, any case), by a topology mapping, by the file's "
    "grid_type attribute, by a topology variable or by conventional names, alone and in conflict; files holding the terms of one, several or no "
    "depth system; non-trivial always; distinct by (kind of file, way, names)",
    ["precedence: type argument, topology mapping, grid_type attribute, topology variable, conventional names"],
)
ALIAS = {
    Grid_S: ["sgrid", "pygrid_s", "staggered", "curvilinear", "roms"],
    Grid_U: ["ugrid", "pygrid_u", "triangular", "unstructured"],
    Grid_R: ["rgrid", "regular", "rectangular", "rectilinear"],
}
CLS = {"rect": Grid_R, "fvcom": Grid_U, "ugrid": Grid_U, "roms": Grid_S, "sgrid": Grid_S}


def case(r, s):
    return r.choice([s, s.upper(), s.capitalize(), "".join(c.upper() if r.random() < 0.5 else c for c in s)])


def check_coords(ctx, g, cls, M, **d):
    f = M.f
    if not ctx.check(type(g) is cls, "grid_type", got=type(g).__name__, want=cls.__name__, lay=M.lay, **d):
        return
    if M.kind == "S":
        ctx.close(g.node_lon[:], f.lon, "node_lon", **d)
        ctx.close(g.node_lat[:], f.lat, "node_lat", **d)
        for loc, xy in getattr(M, "places", {}).items():
            for k, a in enumerate(xy):
                ctx.close(getattr(g, loc + "_" + ("lon", "lat")[k])[:], a, loc + "_coordinates", k=k, lay=M.lay, **d)
        for loc, n in getattr(M, "masks", {}).items():
            m = getattr(g, loc + "_mask")
            ctx.check(getattr(m, "name", None) == n, "mask_found", loc=loc, got=m, want=n, lay=M.lay)
            ctx.event("mask_" + loc)
    elif cls is Grid_R:
        x, y = (f.x, f.y) if M.kind == "R" else (f.nodes[:, 0], f.nodes[:, 1])
        ctx.close(g.node_lon, x, "node_lon", **d)
        ctx.close(g.node_lat, y, "node_lat", **d)
    else:
        ctx.close(g.nodes, f.nodes, "nodes", **d)
        ctx.check(np.array_equal(np.asarray(g.faces), f.faces), "faces", got=np.asarray(g.faces)[:3], want=f.faces[:3], lay=M.lay, **d)
        # and it works
        k = ctx.r.randrange(len(f.pts))
        ctx.check(int(g.locate_faces(f.pts[k])) == f.face_of[k], "located", **d)


@C21.scenario(quick=900, thorough=12000, needs=["class", "alias", "attribute", "ignored_attribute", "topology_var", "names", "conflict", "unknown", "other_source", "composite_nodes", "mask_node", "mask_center", "mask_edge1", "mask_edge2"])
def grid_types(ctx):
    r = ctx.r
    M = model(ctx)
    src = lambda: r.choice([M.path, pathlib.Path(M.path), nc4.Dataset(M.path)])
    nat = CLS[M.style]

    def load(**kw):
        w = r.random()
        if w < 0.6:
            return Grid.from_netCDF(src(), **kw)
        ctx.event("other_source")
        p = r.choice([M.path, nc4.Dataset(M.path)])
        if w < 0.75:
            return Grid.from_netCDF(filename=r.choice([None, "/nonexistent/file.nc"]), dataset=nc4.Dataset(M.path), **kw)
        other = os.path.join(ctx.tmp(), "other.nc")
        if not os.path.exists(other):
            with nc4.Dataset(other, "w") as nd:
                nd.createDimension("n", 3)
                nd.createVariable("x", "f8", ("n",))[:] = 1
        return Grid.from_netCDF(grid_file=p, **r.choice([{"filename": other}, {"data_file": other}, {"dataset": nc4.Dataset(other)}]), **kw)

    how = r.choice(["class", "alias", "attribute", "ignored_attribute", "natural", "conflict", "unknown"])
    cls = nat
    if how == "class":
        g = nat.from_netCDF(src())
    elif how == "alias":
        g = load(grid_type=case(r, r.choice(ALIAS[nat])))
    elif how in ("attribute", "ignored_attribute"):
        with nc4.Dataset(M.path, "a") as nd:
            nd.grid_type = case(r, r.choice(ALIAS[nat] if how == "attribute" else ["hexagonal", "swan", "model output", "sgrid-like", ""]))
        g = load()
    elif how == "conflict":
        # what is said about a grid overrides what it looks like: 1-D coordinates with a connectivity can be taken as axes
        if M.style != "fvcom" or M.gridvars & {"nodes", "Nodes", "NODES", "node"}:
            raise Skip()
        cls = Grid_R
        way = r.choice(["class", "alias", "attribute", "alias_over_attribute", "attribute_lost"])
        if way == "class":
            g = Grid_R.from_netCDF(src())
        elif way == "alias":
            g = load(grid_type=case(r, r.choice(ALIAS[Grid_R])))
        elif way == "attribute":
            with nc4.Dataset(M.path, "a") as nd:
                nd.grid_type = case(r, r.choice(ALIAS[Grid_R]))
            g = load()
        elif way == "alias_over_attribute":
            with nc4.Dataset(M.path, "a") as nd:
                nd.grid_type = r.choice(ALIAS[Grid_U] + ALIAS[Grid_S])
            g = load(grid_type=r.choice(ALIAS[Grid_R]))
        else:
            with nc4.Dataset(M.path, "a") as nd:
                nd.grid_type = r.choice(ALIAS[Grid_R] + ALIAS[Grid_S])
            cls = Grid_U
            g = load(grid_type=r.choice(ALIAS[Grid_U]))
        how += ":" + way
        ctx.event("conflict")
    elif how == "unknown":
        with ctx.expect_raises(ValueError, "unknown_type_accepted"):
            load(grid_type=r.choice(["hexagonal", "grid", "", "u", "sgrids"]))
        g = None
    else:
        g = load()
        how = "topology_var" if M.style in ("ugrid", "sgrid") else "names"
    ctx.event(how.split(":")[0])
    if g is not None:
        check_coords(ctx, g, cls, M, how=how)
    ctx.sig(M.f.desc, M.lay, how)
    ctx.note(layout=M.lay, how=how)


@C21.scenario(quick=500, thorough=8000, needs=["mapped_mask", "mapped_lon", "faces", "grid_type_key", "structured", "over_attribute", "over_topology_var", "composite"])
def topology_mappings(ctx):
    """any variable names, told by a mapping"""
    r = ctx.r
    f = gen.field(ctx, npts=3, nmax=6, locs=["node"])
    path = os.path.join(ctx.tmp(), "t.nc")
    nx = lambda s: r.choice([s, s.upper(), s.capitalize()])
    x, y, c, n = [nx(s) for s in ("east", "north", "conn", "pts")]
    low = lambda s: s if r.random() < 0.8 else s.lower()
    gt, more = {}, {}
    composite = False
    with nc4.Dataset(path, "w") as nd:
        if r.random() < 0.3:
            # decoys under the conventional names
            nd.createDimension("decoy", 4)
            more_names = r.choice([(), ("nv", "faces"), ("mask_rho", "center_lon", "center_lat", "center_mask", "edge1_lon", "edge1_lat")])
            for k in r.choice([("lon", "lat"), ("node_lon", "node_lat"), ("longitude", "latitude")]) + more_names:
                nd.createVariable(k, "f8", ("decoy",))[:] = [0, 1, 2, 3]
        if f.kind == "U":
            if len(f.faces) == 3:
                raise Skip()
            nd.createDimension("k", len(f.nodes))
            nd.createDimension("two", 2)
            nd.createDimension("e", len(f.faces))
            nd.createDimension("three", 3)
            composite = r.random() < 0.35
            if composite:
                nd.createVariable(n, "f8", ("k", "two"))[:] = f.nodes
                gt[r.choice(["nodes", "node"])] = low(n)
                ctx.event("composite")
            else:
                nd.createVariable(x, "f8", ("k",))[:] = f.nodes[:, 0]
                nd.createVariable(y, "f8", ("k",))[:] = f.nodes[:, 1]
                gt.update(node_lon=low(x), node_lat=low(y))
            one = r.random() < 0.5 and f.faces.max() == len(f.nodes) - 1
            tr = r.random() < 0.5
            a = f.faces + one
            nd.createVariable(c, r.choice(["i4", "i2"]), ("three", "e") if tr else ("e", "three"))[:] = a.T if tr else a
            gt["faces"] = low(c)
            cls = Grid_U
            ctx.event("faces")
        elif f.kind == "R":
            nd.createDimension("a", len(f.x))
            nd.createDimension("b", len(f.y))
            nd.createVariable(x, "f8", ("a",))[:] = f.x
            nd.createVariable(y, "f8", ("b",))[:] = f.y
            gt.update(node_lon=low(x), node_lat=low(y), grid_type=case(r, r.choice(ALIAS[Grid_R])))
            cls = Grid_R
            ctx.event("grid_type_key")
        else:
            nd.createDimension("a", f.lon.shape[0])
            nd.createDimension("b", f.lon.shape[1])
            nd.createVariable(x, "f8", ("a", "b"))[:] = f.lon
            nd.createVariable(y, "f8", ("a", "b"))[:] = f.lat
            gt.update(node_lon=low(x), node_lat=low(y))
            # what else there is to a staggered grid
            ny, nx_ = f.lon.shape
            shapes = {"node": (ny, nx_), "center": (ny - 1, nx_ - 1), "edge1": (ny - 1, nx_), "edge2": (ny, nx_ - 1)}
            for k, sh in shapes.items():
                for e, nn in zip("ab", sh):
                    if e + k not in nd.dimensions:
                        nd.createDimension(e + k, nn)
                for part in ("lon", "lat", "mask"):
                    if (k == "node" and part != "mask") or r.random() < 0.5:
                        continue
                    vn = "%s_of_%s" % (part.upper() if r.random() < 0.5 else part, k)
                    a = ctx.rng.normal(size=sh) if part != "mask" else np.ones(sh, "i1")
                    nd.createVariable(vn, a.dtype, ("a" + k, "b" + k))[:] = a
                    gt[k + "_" + part] = low(vn)
                    more[k + "_" + part] = a
            if r.random() < 0.4:
                gt["grid_type"] = case(r, r.choice(ALIAS[Grid_S]))
            cls = Grid_S
            ctx.event("structured")
        if r.random() < 0.3:
            nd.grid_type = r.choice(sum(ALIAS.values(), []))
            ctx.event("over_attribute")
        if r.random() < 0.3:
            v = nd.createVariable("topo", "i4")
            v.cf_role = "mesh_topology"
            v.node_coordinates = "lon lat"
            ctx.event("over_topology_var")
        dims = {"U": ("k",), "R": ("b", "a"), "S": ("a", "b")}[f.kind]
        data = f.layer()
        nd.createVariable("q", "f8", dims)[:] = data
    keys = list(gt)
    r.shuffle(keys)
    gt = {k: gt[k] for k in keys}
    keep = dict(gt)
    g = Grid.from_netCDF(r.choice([path, nc4.Dataset(path)]), grid_topology=gt)
    ctx.check(gt == keep, "mapping_changed", got=gt)

    class M:
        pass

    M.f, M.kind, M.lay = f, f.kind, (f.kind, sorted(gt))
    if f.kind == "U":
        f.face_of = [next(k for k, fc in enumerate(f.faces) if sorted(map(int, fc)) == sorted(i[0] for i, a in w)) if w else -1 for w in f.NW]
    check_coords(ctx, g, cls, M, topology=gt)
    for k, a in more.items():
        got = getattr(g, k)
        ctx.check(got is not None and np.array_equal(got[:], a), "mapped_part", what=k, got=got)
        ctx.event("mapped_" + k.split("_")[1])
    if f.kind == "S":
        for k in ("node_mask", "center_mask", "edge1_mask", "edge2_mask", "edge1_lon", "edge2_lat"):
            ctx.check(k in more or getattr(g, k) is None, "made_up_part", what=k)
    # a variable on it
    v = Variable.from_netCDF(path, varname="q", grid_topology=gt)
    on = [k for k, w in enumerate(f.W) if w is not None]
    if on and f.loc == "node" and not any(k.endswith("mask") for k in more):
        want = f.ref(data)[0][on]
        ctx.close(np.ma.asarray(v.at(f.pts[on], None)).reshape(-1), want, "value", rtol=0, atol=1e-6 * np.abs(data).max(), topology=gt)
    ctx.sig(f.desc, sorted(gt), composite)


@C21.scenario(quick=60, thorough=600, needs=["refused"])
def undecidable(ctx):
    r = ctx.r
    path = os.path.join(ctx.tmp(), "u.nc")
    with nc4.Dataset(path, "w") as nd:
        nd.createDimension("x", 4)
        nd.createDimension("y", 5)
        names = r.sample(["temp", "lon", "u", "lat_psi", "latitude", "easting", "node_lon", "nv"], r.randint(1, 5))
        for n in names:
            nd.createVariable(n, "f8", ("x",))[:] = range(4)
    with ctx.expect_raises(ValueError, "undecidable_accepted"):
        Grid.from_netCDF(path)
    # coordinates that are not vectors do not make a rectangular grid
    flat = r.choice([None, "lon", "lat"])
    other = os.path.join(ctx.tmp(), "v.nc")
    with nc4.Dataset(other, "w") as nd:
        nd.createDimension("x", 4)
        nd.createDimension("y", 4)
        for n in ("lon", "lat"):
            nd.createVariable(n, "f8", ("x",) if n == flat else ("y", "x"))[:] = np.arange(4.0)
    with ctx.expect_raises(ValueError, "tables_accepted_as_vectors", vector=flat):
        if r.random() < 0.5:
            Grid_R.from_netCDF(other)
        else:
            Grid.from_netCDF(other, grid_type=case(r, r.choice(ALIAS[Grid_R])))
    ctx.event("refused")
    ctx.sig(names)


@C21.scenario(quick=400, thorough=5000, needs=["roms", "fvcom", "levels", "ambiguous", "none", "in_grid_file", "by_description", "several_candidates"])
def depth_types(ctx):
    r, rng = ctx.r, ctx.rng
    f = gen.field(ctx, kinds=("S",), locs=["node"], npts=2, nmax=5)
    ny, nx = f.lon.shape
    want = [k for k in ("roms", "fvcom", "levels") if r.random() < 0.4]
    paths = [os.path.join(ctx.tmp(), n) for n in ("d.nc", "g.nc")]
    sep = r.random() < 0.4
    with nc4.Dataset(paths[0], "w") as d, nc4.Dataset(paths[1], "w") as g:
        for nd in (d, g):
            for k, n in (("a", ny), ("b", nx), ("n", 3), ("w", 4), ("lev", 5)):
                nd.createDimension(k, n)
        gridfile = g if sep else d
        gridfile.createVariable("lon", "f8", ("a", "b"))[:] = f.lon
        gridfile.createVariable("lat", "f8", ("a", "b"))[:] = f.lat
        put = lambda: g if sep and r.random() < 0.6 else d
        terms = {}
        if "roms" in want or "fvcom" in want or r.random() < 0.3:
            terms["h"] = (("a", "b"), rng.uniform(5, 9, (ny, nx)))
        if "roms" in want or r.random() < 0.2:
            T = {"s_rho": (("n",), [-0.8, -0.5, -0.2]), "s_w": (("w",), [-1, -0.7, -0.3, 0]), "Cs_r": (("n",), [-0.8, -0.5, -0.2]), "Cs_w": (("w",), [-1, -0.7, -0.3, 0]), "hc": ((), 2.0)}
            if "roms" not in want:
                del T[r.choice(sorted(T))]
            terms.update(T)
        if "fvcom" in want or r.random() < 0.2:
            T = {"siglay": (("n",), [-0.2, -0.5, -0.8]), "siglev": (("w",), [0, -0.3, -0.7, -1])}
            if "fvcom" not in want:
                del T[r.choice(sorted(T))]
            terms.update(T)
        if "levels" in want:
            terms[r.choice(["depth", "depth_levels", "Depth"])] = (("lev",), [0, 1, 2, 3, 4])
        # terms may go by other names, told by their description
        described = {}
        for k in terms:
            long = {**ROMS_Depth.cf_names, "h": ROMS_Depth.cf_names["bathymetry"]}.get(k)
            if long and "fvcom" not in want and not {"siglay", "siglev"} & set(terms) and r.random() < 0.25:
                described[k] = long
        keys = list(terms)
        r.shuffle(keys)
        for k in keys:
            nd = put()
            if nd is g:
                ctx.event("in_grid_file")
            if k not in described:
                nd.createVariable(k, "f8", terms[k][0])[...] = terms[k][1]
                continue
            ctx.event("by_description")
            cands = [(q, "first" if n == 0 else "other") for n, q in enumerate(described[k])]
            if len(cands) > 1:
                cands = r.choice([cands, cands, cands[:1], cands[1:]])
            best = min(cands, key=lambda c: described[k].index(c[0]))
            r.shuffle(cands)
            for n, (q, _) in enumerate(cands):
                v = nd.createVariable("term_%s_%d" % (k, n), "f8", terms[k][0])
                v.setncattr(r.choice(["long_name", "standard_name"]), q)
                v[...] = np.asarray(terms[k][1]) if q == best[0] else np.asarray(terms[k][1]) * 0.5
            if len(cands) > 1:
                ctx.event("several_candidates")
    kw = dict(data_file=paths[0], grid_file=paths[1]) if sep else dict(filename=paths[0])
    names = sorted(terms)
    if len(want) > 1:
        ctx.event("ambiguous")
        with ctx.expect_raises(ValueError, "ambiguous_depth_accepted", terms=names):
            Depth.from_netCDF(**kw)
    elif not want:
        ctx.event("none")
        si = r.choice([-1, 0, 3])
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            dep = Depth.from_netCDF(surface_index=si, **kw) if si != -1 else Depth.from_netCDF(**kw)
        ctx.check(type(dep) is DepthBase and dep.surface_index == si, "surface_only", got=type(dep).__name__, terms=names)
        ctx.check(any(issubclass(x.category, RuntimeWarning) for x in w), "no_warning")
    else:
        ctx.event(want[0])
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            dep = Depth.from_netCDF(**kw)
        cls = {"roms": ROMS_Depth, "fvcom": FVCOM_Depth, "levels": L_Depth}[want[0]]
        ctx.check(type(dep) is cls, "depth_type", got=type(dep).__name__, want=cls.__name__, terms=names)
        ctx.check(dep.num_levels == (5 if want == ["levels"] else 4), "num_levels", got=dep.num_levels)
        if want == ["roms"]:
            for k in ("s_rho", "s_w", "Cs_r", "Cs_w", "hc"):
                ctx.close(getattr(dep, k), np.asarray(terms[k][1], float), "term", rtol=0, atol=1e-12, term=k, described=sorted(described))
            ctx.close(dep.bathymetry.data[:], terms["h"][1], "bathymetry", rtol=0, atol=1e-12, described=sorted(described))
    ctx.sig(names, sep, sorted(want))
