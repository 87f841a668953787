"""Model files end to end: C13/C14 from files, C26 loading."""

import os
import pathlib
import shutil
from datetime import timedelta

import netCDF4 as nc4
import numpy as np

from gridded.depth import Depth, DepthBase, FVCOM_Depth, L_Depth, ROMS_Depth
from gridded.gridded import Dataset
from gridded.grids import Grid, Grid_R, Grid_S, Grid_U
from gridded.time import Time
from gridded.variable import Variable, VectorVariable

from .. import gen
from ..core import Skip, prop
from ..models import STYLES, model, profile
from .p_depth import C13, C14, _want_depth

GRIDS = {"rect": Grid_R, "fvcom": Grid_U, "ugrid": Grid_U, "roms": Grid_S, "sgrid": Grid_S}


def instant(ctx, ts):
    r = ctx.r
    k = r.random()
    if len(ts) == 1 or k < 0.3:
        return r.choice(ts)
    i = r.randrange(len(ts) - 1)
    return ts[i] + (ts[i + 1] - ts[i]) * r.choice([0.25, 0.5, 0.75])


@C13.scenario(quick=200, thorough=3000, needs=["fvcom_file", "roms_model"])
def model_file_profiles(ctx):
    """sigma levels and layers read from model files, whatever else shares their standard names"""
    r = ctx.r
    M = model(ctx, styles=("fvcom", "fvcom", "roms"), depth="sigma")
    cls = FVCOM_Depth if M.style == "fvcom" else ROMS_Depth
    ctx.event("fvcom_file" if cls is FVCOM_Depth else "roms_model")
    how = r.choice(["auto", "class", "dataset"])
    if how == "auto":
        dep = Depth.from_netCDF(filename=M.path)
    elif how == "class":
        dep = cls.from_netCDF(filename=M.path)
    else:
        dep = Depth.from_netCDF(dataset=nc4.Dataset(M.path))
    ctx.check(type(dep) is cls, "type", got=type(dep).__name__)
    ctx.check(dep.num_levels == M.n + 1 and dep.num_layers == M.n, "counts", got=(dep.num_levels, dep.num_layers))
    t = instant(ctx, M.ts)
    pts = np.column_stack((M.f.pts, np.zeros(len(M.f.pts))))
    got = dep.get_depth_profile(pts, t)
    for k in range(len(pts)):
        want = profile(M, k, t)
        ctx.close(got[k], want, "profile_from_file", rtol=0, atol=1e-6 * (np.abs(want).max() + 1), lay=M.lay)
    ctx.sig(M.f.desc, M.lay, how, M.n)


def _load(ctx, M, name):
    """one of the ways of getting at a variable of a file; returns (variable, description)"""
    r = ctx.r
    kw = {}
    if r.random() < 0.4:
        kw["load_all"] = True
    gt = {}
    if M.mapping:
        kw["grid_topology"] = dict(M.mapping)
        gt = {"grid_topology": dict(M.mapping)}
    if M.split == "grid":
        g, d = M.paths
        how = r.choice(["files", "datasets", "dataset_grid", "grid_object", "filename_grid", "filename_data", "all_of_them"])
        if how == "files":
            v = Variable.from_netCDF(data_file=d, grid_file=g, varname=name, **kw)
        elif how == "datasets":
            v = Variable.from_netCDF(data_file=nc4.Dataset(d), grid_file=nc4.Dataset(g), varname=name, **kw)
        elif how == "dataset_grid":
            v = Variable.from_netCDF(dataset=nc4.Dataset(d), grid_file=g, varname=name, **kw)
        elif how == "all_of_them":
            more = {k: x for k, x in (("data_file", d), ("filename", r.choice([g, d, "/nonexistent/file.nc"]))) if r.random() < 0.7}
            v = Variable.from_netCDF(dataset=nc4.Dataset(d), grid_file=r.choice([g, nc4.Dataset(g)]), varname=name, **more, **kw)
        elif how == "filename_grid":
            v = Variable.from_netCDF(filename=d, grid_file=g, varname=name, **kw)
        elif how == "filename_data":
            v = Variable.from_netCDF(filename=g, data_file=d, varname=name, **kw)
        else:
            z = {}
            if M.vars[name]["z"]:
                z["depth"] = Depth.from_netCDF(data_file=d, grid_file=g)
            v = Variable.from_netCDF(filename=d, grid=Grid.from_netCDF(g, **gt), varname=name, **z, **kw)
    elif M.split == "list":
        how = r.choice(["list", "mf", "tuple"])
        v = Variable.from_netCDF({"list": M.paths, "tuple": tuple(M.paths), "mf": None}[how] or nc4.MFDataset(M.paths), varname=name, **kw)
    else:
        how = r.choice(["str", "path", "dataset", "open", "one_list", "with_grid", "dataset_class", "other_filename"])
        p = M.path
        if how == "str":
            v = Variable.from_netCDF(p, varname=name, **kw)
        elif how == "path":
            v = Variable.from_netCDF(pathlib.Path(p), varname=name, **kw)
        elif how == "dataset":
            v = Variable.from_netCDF(dataset=nc4.Dataset(p), varname=name, **kw)
        elif how == "open":
            v = Variable.from_netCDF(nc4.Dataset(p), varname=name, **kw)
        elif how == "one_list":
            v = Variable.from_netCDF([p], varname=name, **kw)
        elif how == "other_filename":
            # a dataset takes precedence over a file name
            v = Variable.from_netCDF(filename="/nonexistent/file.nc", dataset=nc4.Dataset(p), varname=name, **kw)
        elif how == "with_grid":
            v = Variable.from_netCDF(p, varname=name, grid=Grid.from_netCDF(p, **gt), **kw)
        else:
            v = Dataset.from_netCDF(r.choice([p, nc4.Dataset(p), [p]]), **gt).variables[name]
    return v, (how, tuple(kw))


def _judge(ctx, M, v, name, how, kind="value"):
    r = ctx.r
    i = M.vars[name]
    npt = len(M.f.pts)
    scale = np.abs(i["data"]).max()
    for _ in range(2):
        t = instant(ctx, M.ts)
        ex = {}
        if i["timed"] and r.random() < 0.15:
            t, ex = M.ts[-1] + timedelta(hours=1), {"extrapolate": True}
        z = np.zeros(npt)
        want = np.zeros(npt)
        mask = np.zeros(npt, bool)
        for k in range(npt):
            c = M.column(name, k, t)
            if i["z"]:
                prof = profile(M, k, t)
                m = r.random()
                if m < 0.75:
                    a = r.randrange(len(prof) - 1)
                    z[k] = prof[a] + (prof[a + 1] - prof[a]) * r.uniform(0.02, 0.98)
                elif m < 0.88:
                    z[k] = prof.min() - 0.1
                else:
                    z[k] = prof.max() + 0.1
                want[k], mask[k] = _want_depth(prof, c, z[k], "extrapolate", "mask", i["z"] == "layers")
            else:
                want[k] = c
        pts = np.column_stack((M.f.pts, z))
        if not i["z"] and r.random() < 0.5:
            pts = pts[:, :2]
        got = np.ma.asarray(v.at(pts, t, **ex)).reshape(-1)
        gm = np.ma.getmaskarray(got)
        d = dict(lay=M.lay, var=name, dims=i["dims"], loc=i["loc"], how=how)
        for k in range(npt):
            ctx.check(gm[k] == mask[k], kind + ":mask", got=gm[k], want=mask[k], z=z[k], **d)
            if not mask[k] and not gm[k]:
                ctx.check(abs(float(got[k]) - want[k]) <= 1e-5 * scale, kind, got=got[k], want=want[k], **d)


@C14.scenario(quick=500, thorough=8000, needs=["levels_file", "sigma_file", "fvcom_values", "roms_values", "separate_files"])
def model_variables(ctx):
    """the depth axis of a file's variable is found and used"""
    r = ctx.r
    dk = r.choice(["levels", "sigma"])
    M = model(ctx, styles=STYLES if dk == "levels" else ("fvcom", "roms", "sgrid"), depth=dk, split=r.choice([None, None, "grid"]))
    zs = [n for n, i in M.vars.items() if i["z"]]
    if not zs:
        raise Skip()
    ctx.event(dk + "_file")
    if M.split:
        ctx.event("separate_files")
    if dk == "sigma":
        ctx.event(M.style + "_values")
    for name in zs:
        v, how = _load(ctx, M, name)
        want = {"levels": L_Depth}.get(dk) or {"fvcom": FVCOM_Depth, "roms": ROMS_Depth, "sgrid": ROMS_Depth}[M.style]
        ctx.check(type(v.depth) is want, "depth_type", got=type(v.depth).__name__, want=want.__name__)
        _judge(ctx, M, v, name, how)
    ctx.sig(M.f.desc, M.lay, [(M.vars[n]["dims"], M.vars[n]["loc"]) for n in zs])


@C14.scenario(quick=200, thorough=3000, needs=["vector_levels", "vector_sigma", "masked_rows"])
def model_vectors(ctx):
    """vectors with depth from files: each component as a scalar of its own"""
    r, rng = ctx.r, ctx.rng
    dk = r.choice(["levels", "sigma"])
    M = model(ctx, styles=STYLES if dk == "levels" else ("fvcom", "roms", "sgrid"), depth=dk, split=r.choice([None, None, "grid"]), names=["u", "v"])
    a, b = M.vars["u"], M.vars["v"]
    if not a["z"] or (a["timed"], a["z"]) != (b["timed"], b["z"]):
        raise Skip()
    ctx.event("vector_" + dk)
    src = {"filename": M.path} if not M.split else {"data_file": M.paths[1], "grid_file": M.paths[0]}
    bc = {}
    if r.random() < 0.5:
        bc = {"surface_boundary_condition": r.choice(["mask", "extrapolate"]), "bottom_boundary_condition": r.choice(["mask", "extrapolate"])}
    V = VectorVariable.from_netCDF(varnames=["u", "v"], **src)
    S = [Variable.from_netCDF(varname=n, **src) for n in ("u", "v")]
    ctx.check(V.depth is not None and type(V.depth) is type(S[0].depth), "vector_depth", got=V.depth)
    npt = len(M.f.pts)
    for _ in range(2):
        t = instant(ctx, M.ts)
        z = np.array([r.uniform(-3, 1.1 * np.abs(profile(M, k, t)).max()) for k in range(npt)])
        pts = np.column_stack((M.f.pts, z))
        got = np.ma.asarray(V.at(pts, t, **bc))
        if not ctx.check(got.shape == (npt, 2), "vector_shape", got=got.shape):
            return
        for c, v in enumerate(S):
            want = np.ma.asarray(v.at(pts, t, **bc)).reshape(-1)
            m = np.ma.getmaskarray(want)
            ctx.check(np.array_equal(np.ma.getmaskarray(got)[:, c], m), "vector_component_mask", comp=c, bc=bc, lay=M.lay)
            ctx.close(np.ma.filled(got, 0)[:, c][~m], np.ma.filled(want, 0)[~m], "vector_component", rtol=0, atol=1e-9 * np.abs(a["data"]).max(), lay=M.lay, comp=c)
            if m.any():
                ctx.event("masked_rows")
    ctx.sig(M.f.desc, M.lay, a["dims"], b["dims"], sorted(bc.items()))


@C13.scenario(quick=150, thorough=2000, needs=["surface_shifted", "given_surface", "named", "zone", "no_bathymetry"])
def depth_options(ctx):
    """the free surface moved in time, or given"""
    r, rng = ctx.r, ctx.rng
    M = model(ctx, styles=("fvcom", "roms"), depth="sigma")
    cls = FVCOM_Depth if M.style == "fvcom" else ROMS_Depth
    shift, kw = timedelta(0), {}
    k = r.randrange(4)
    if k == 0:
        kw["displacement"] = shift = timedelta(hours=r.choice([-30, 2, 7]))
    elif k == 1:
        kw["time_origin"] = M.ts[0] + timedelta(days=r.randint(-9, 9), minutes=7)
        shift = kw["time_origin"] - M.ts[0]
    elif k == 2:
        shift = timedelta(days=3)
        kw["time"] = Time([t + shift for t in M.ts])
    else:
        # another free surface, on the nodes
        g = Grid.from_netCDF(M.path)
        new = rng.uniform(-1, 1, (len(M.ts),) + ((len(M.f.nodes),) if M.style == "fvcom" else M.f.lon.shape))
        kw.update(grid=g, zeta=Variable(name="zeta", grid=g, data=new.copy(), time=Time(list(M.ts))))
        ctx.event("given_surface")
    if k < 3:
        ctx.event("surface_shifted")
    if k in (0, 1) and r.random() < 0.5:
        kw["tz_offset"] = r.choice([-7, 5.5, 3])
        ctx.event("zone")
    if r.random() < 0.5:
        kw["name"] = "my depth"
        ctx.event("named")
    dep = cls.from_netCDF(filename=M.path, **kw)
    if "name" in kw:
        ctx.check(dep.name == "my depth", "depth_name", got=dep.name)
    if "tz_offset" in kw:
        ctx.check(dep.time.tz_offset == kw["tz_offset"] == dep.zeta.time.tz_offset, "zone", got=(dep.time.tz_offset, dep.zeta.time.tz_offset), want=kw["tz_offset"])
    t = instant(ctx, M.ts)
    pts = np.column_stack((M.f.pts, np.zeros(len(M.f.pts))))
    if k == 3:
        if M.style == "fvcom":
            M.zeta = new
        else:
            # the nodal values are used as they are
            M.zeta_nodes = new
    got = dep.get_depth_profile(pts, t + shift)
    for i in range(len(pts)):
        want = profile(M, i, t)
        ctx.close(got[i], want, "profile_with_options", rtol=0, atol=1e-6 * (np.abs(want).max() + 1), lay=M.lay, kw=sorted(kw))
    if r.random() < 0.3:
        bare = os.path.join(ctx.tmp(), "bare.nc")
        shutil.copy(M.path, bare)
        with nc4.Dataset(bare, "a") as nd:
            nd.renameVariable("h", "topo")
            for a in ("standard_name", "long_name"):
                if a in nd["topo"].ncattrs():
                    nd["topo"].delncattr(a)
        ctx.event("no_bathymetry")
        with ctx.expect_raises(ValueError, "no_bathymetry_accepted"):
            cls.from_netCDF(filename=bare)
    ctx.sig(M.f.desc, M.lay, sorted(kw), M.n, str(shift))


C26 = prop(
    "C26",
    "seeded model files (rectangular, FVCOM, UGRID, ROMS, SGRID; netCDF 3 and 4), as one file, as several files along time, as separate grid "
    "and data files, given as paths, open datasets or combinations; scalar and vector variables, loaded at once or left in the file; "
    "non-trivial always; distinct by (grid, layout, variables, way of loading)",
    ["grids of at least two cells each way for structured grids", "points inside the grid"],
)


@C26.scenario(quick=900, thorough=12000, needs=["rect", "fvcom", "ugrid", "roms", "sgrid", "list", "grid", "single", "mapped", "only_attribute_tells"])
def variables_from_files(ctx):
    r = ctx.r
    if r.random() < 0.08:
        # as many nodes as faces
        M = model(ctx, styles=("ugrid",), split=r.choice([None, None, "grid", "list"]), even=True)
        ctx.event("only_attribute_tells")
    else:
        M = model(ctx, split=r.choice([None, None, "grid", "list"]), mapped=0.25)
    if M.mapping:
        ctx.event("mapped")
    ctx.event(M.style)
    ctx.event(M.split or "single")
    for name, i in M.vars.items():
        v, how = _load(ctx, M, name)
        ctx.check(type(v.grid) is GRIDS[M.style], "grid_type", got=type(v.grid).__name__, lay=M.lay)
        ctx.check(v.units == i["attrs"].get("units"), "units", got=v.units, how=how)
        ctx.check(v.varname == name, "varname", got=v.varname)
        ctx.check(tuple(v.data.shape) == i["data"].shape, "shape", got=v.data.shape)
        ctx.close(np.ma.asarray(v.data[:]), i["data"], "data", rtol=1e-6, atol=0)
        if i["timed"]:
            ctx.check(list(v.time.data) == M.ts, "time", got=v.time.data[:3], want=M.ts[:3], how=how)
        for a, val in i["attrs"].items():
            ctx.check(a in v.attributes and np.array_equal(v.attributes[a], val), "attribute", attr=a, got=v.attributes.get(a), want=val, how=how)
        loc = {"face": "center"}.get(v.location, v.location) if M.kind == "S" else v.location
        ctx.check(loc == i["loc"], "location", got=v.location, want=i["loc"], how=how, lay=M.lay)
        _judge(ctx, M, v, name, how)
    ctx.sig(M.f.desc, M.lay, [(i["dims"], i["dt"]) for i in M.vars.values()])
    ctx.note(layout=M.lay, variables={n: i["dims"] for n, i in M.vars.items()})


@C26.scenario(quick=300, thorough=4000, needs=["lazy", "loaded", "masked_answer", "rect", "fvcom", "ugrid", "roms", "sgrid"])
def missing_values(ctx):
    """missing values in a file are missing values of the variable, loaded or left in the file"""
    r, rng = ctx.r, ctx.rng
    M = model(ctx, split=r.choice([None, None, "grid", "list"]))
    holes = {}
    for n, i in M.vars.items():
        holes[n] = rng.random(i["data"].shape) < r.choice([0.1, 0.4, 0.7])
    for k, p in enumerate(M.paths):
        with nc4.Dataset(p, "a") as nd:
            for n, i in M.vars.items():
                if n in nd.variables:
                    h = holes[n]
                    if M.split == "list" and i["timed"]:
                        h = h[2 * k : 2 * k + 2]
                    a = nd[n][...]
                    nd[n][...] = np.ma.array(a, mask=h)
    npt = len(M.f.pts)
    pts = np.column_stack((M.f.pts, np.zeros(npt)))
    for n, i in M.vars.items():
        v, how = _load(ctx, M, n)
        ctx.event("loaded" if "load_all" in how[1] else "lazy")
        ctx.event(M.style)
        ctx.check(np.array_equal(np.ma.getmaskarray(np.ma.asarray(v.data[:])), holes[n]), "missing_data", how=how, lay=M.lay)
        ref = Variable(name=n, data=np.ma.array(i["data"], mask=holes[n]), grid=v.grid, location=v.location, time=v.time if i["timed"] else None)
        if M.style == "rect":
            ref.dimension_ordering = None if not hasattr(v, "dimension_ordering") else v.dimension_ordering
        if M.style == "rect" and i["swap"] and len(M.f.x) == len(M.f.y):
            continue
        for _ in range(2):
            t = instant(ctx, M.ts)
            a, b = v.at(pts, t), ref.at(pts, t)
            am, bm = np.ma.getmaskarray(a), np.ma.getmaskarray(b)
            ctx.check(np.array_equal(am, bm), "missing_mask", how=how, lay=M.lay, var=n, dims=i["dims"])
            ctx.close(np.ma.filled(a, 0)[~am & ~bm], np.ma.filled(b, 0)[~am & ~bm], "missing_value", rtol=0, atol=1e-5 * np.abs(i["data"]).max(), how=how, lay=M.lay)
            if bm.any():
                ctx.event("masked_answer")
    ctx.sig(M.f.desc, M.lay, [(i["dims"], i["dt"]) for i in M.vars.values()])


@C26.scenario(quick=250, thorough=4000, needs=["vector"])
def vectors_from_files(ctx):
    r = ctx.r
    M = model(ctx, split=r.choice([None, None, "grid", "list"]), names=["u", "v"], mapped=0.25)
    a, b = M.vars["u"], M.vars["v"]
    if a["timed"] != b["timed"]:
        raise Skip()
    ctx.event("vector")
    names = ["u", "v"] if r.random() < 0.7 else ["v", "u"]
    kw = {"load_all": True} if r.random() < 0.4 else {}
    if M.mapping:
        kw["grid_topology"] = dict(M.mapping)
    if M.split == "grid":
        V = VectorVariable.from_netCDF(data_file=M.paths[1], grid_file=M.paths[0], varnames=names, **kw)
    elif M.split == "list":
        V = VectorVariable.from_netCDF(M.paths, varnames=names, **kw)
    else:
        V = VectorVariable.from_netCDF(r.choice([M.path, nc4.Dataset(M.path), [M.path]]), varnames=names, **kw)
    ua, ub = [M.vars[n]["attrs"].get("units") for n in names]
    ctx.check(V.units == (ua if ua == ub else [ua, ub]), "units", got=V.units, want=(ua, ub))
    ctx.check(list(V.varnames) == names, "varnames")
    npt = len(M.f.pts)
    t = instant(ctx, M.ts)
    pts = np.column_stack((M.f.pts, np.zeros(npt)))
    got = np.ma.asarray(V.at(pts, t))
    if ctx.check(got.shape == (npt, 2), "shape", got=got.shape):
        for c, n in enumerate(names):
            want = np.array([M.column(n, k, t) for k in range(npt)])
            ctx.close(got[:, c], want, "value", rtol=0, atol=1e-5 * np.abs(M.vars[n]["data"]).max(), lay=M.lay, dims=M.vars[n]["dims"])
    ctx.sig(M.f.desc, M.lay, names, a["dims"], b["dims"])


@C26.scenario(quick=300, thorough=5000, needs=["shifted", "given_time", "given_units", "given_grid", "given_depth", "given_place", "zone", "given_fill", "vector_options", "unnamed", "moving_levels_shifted"])
def options(ctx):
    """what is asked for goes before what the file says"""
    r, rng = ctx.r, ctx.rng
    vec = r.random() < 0.4
    dk = r.choice([None, None, "levels", "sigma"])
    kinds = {"styles": ("fvcom", "roms", "sgrid")} if dk == "sigma" else {}
    M = model(ctx, split=r.choice([None, None, "grid", "list"] if dk != "sigma" else [None, "list"]), names=["u", "v"], depth=dk, **kinds)
    iu, iv = M.vars["u"], M.vars["v"]
    if vec and (iu["timed"], iu["z"], iu["swap"], iu["loc"]) != (iv["timed"], iv["z"], iv["swap"], iv["loc"]):
        vec = False
    kw, shift = {}, timedelta(0)
    first = M.ts[0]
    units = iu["attrs"].get("units")
    vunits = [x["attrs"].get("units") for x in (iu, iv)]
    if r.random() < 0.5:
        units = kw["units"] = r.choice(["knots", "furlong", "m"])
        vunits = [units, units]
        ctx.event("given_units")
    if r.random() < 0.5:
        kw["name"] = r.choice(["mine", "u", "wind"])
    else:
        ctx.event("unnamed")
    tz = 0
    if iu["timed"]:
        k = r.random()
        if k < 0.25:
            kw["time_origin"] = first + timedelta(days=r.randint(-400, 400), seconds=r.randint(0, 4000))
            shift = kw["time_origin"] - first
            ctx.event("shifted")
        elif k < 0.5:
            shift = kw["displacement"] = timedelta(hours=r.choice([-5, 1, 100]), seconds=r.choice([0, 1]))
            ctx.event("shifted")
        elif k < 0.65:
            tz = kw["tz_offset"] = r.choice([-7, 5.5, 3])
            ctx.event("zone")
        elif k < 0.8:
            shift = timedelta(days=r.randint(1, 50))
            kw["time"] = Time([t + shift for t in M.ts], tz_offset=r.choice([None, 2]))
            tz = kw["time"].tz_offset
            ctx.event("given_time")
    g = None
    if r.random() < 0.3:
        g = kw["grid"] = Grid.from_netCDF(M.paths[0])
        ctx.event("given_grid")
    L = M.L
    if iu["z"] and dk == "sigma":
        ctx.event("moving_levels_shifted" if shift else "moving_levels")
    elif iu["z"] and r.random() < 0.6:
        L = np.cumsum(rng.uniform(1, 9, len(M.L)))
        kw["depth"] = L_Depth(bathymetry=None, terms={"depth_levels": L})
        ctx.event("given_depth")
    elif iu["z"] and M.split == "grid":
        raise Skip()
    if r.random() < 0.4:
        kw["load_all"] = True
    fill = None
    if not vec:
        if r.random() < 0.3:
            fill = kw["fill_value"] = r.choice([-999.0, 7])
            ctx.event("given_fill")
        if r.random() < 0.4:
            kw["location"] = iu["loc"]
            ctx.event("given_place")
    names = ["u", "v"]
    cls = VectorVariable if vec else Variable
    src = {"varnames": names} if vec else {"varname": "u"}
    if M.split == "grid":
        src.update(r.choice([{"data_file": M.paths[1], "grid_file": M.paths[0]}, {"dataset": nc4.Dataset(M.paths[1]), "grid_file": M.paths[0]}, {"filename": M.paths[1], "grid_file": M.paths[0]}, {"filename": M.paths[0], "data_file": M.paths[1]}]))
    elif M.split == "list":
        src["filename"] = M.paths
    else:
        src.update(r.choice([{"filename": M.path}, {"dataset": nc4.Dataset(M.path)}, {"data_file": M.path, "grid_file": M.path}]))
    v = cls.from_netCDF(**src, **kw)
    ctx.event("vector_options" if vec else "scalar_options")
    d = dict(kw={k: str(x)[:40] for k, x in kw.items()}, src=sorted(src), lay=M.lay)
    if vec:
        ctx.check(v.units == (vunits[0] if vunits[0] == vunits[1] else vunits), "vector_units", got=v.units, want=vunits, **d)
        parts = list(v.variables)
        ctx.check(len(parts) == 2 and [p.varname for p in parts] == names, "components")
    else:
        parts = [v]
    if "name" in kw:
        ctx.check(v.name == kw["name"], "name", got=v.name, **d)
    else:
        w = cls.from_netCDF(**src, **kw)
        ctx.check(isinstance(v.name, str) and v.name != w.name, "default_names_differ", got=(v.name, w.name))
    for p, nm, un in zip(parts, names, vunits if vec else [units]):
        i = M.vars[nm]
        ctx.check(p.units == un, "units_given", got=p.units, want=un, **d)
        if i["timed"]:
            ctx.check(list(p.time.data) == [t + shift for t in M.ts], "times", got=p.time.data[:2], want=M.ts[0] + shift, **d)
            ctx.check(p.time.tz_offset == tz, "zone", got=p.time.tz_offset, want=tz, **d)
            ctx.check(v.time == p.time, "same_time")
        if g is not None:
            ctx.check(p.grid is g and v.grid is g, "grid_given", **d)
        if "depth" in kw:
            ctx.check(p.depth is kw["depth"] and v.depth is p.depth, "depth_given", **d)
        if fill is not None:
            ctx.check(p.fill_value == fill, "fill_given", got=p.fill_value)
        ctx.check(isinstance(p.data, np.ndarray) == bool(kw.get("load_all")), "load_all", got=type(p.data).__name__, **d)
    npt = len(M.f.pts)
    z = np.zeros(npt)
    t = instant(ctx, M.ts)
    want = np.zeros((npt, len(parts)))
    for k in range(npt):
        for c, nm in enumerate(names[: len(parts)]):
            col = M.column(nm, k, t)
            if M.vars[nm]["z"]:
                if dk == "sigma":
                    L = profile(M, k, t)
                a = r.randrange(len(L) - 1) if c == 0 else a  # noqa: F821
                al = r.uniform(0.02, 0.98) if c == 0 else al  # noqa: F821
                z[k] = L[a] + (L[a + 1] - L[a]) * al
                want[k, c] = col[a] if M.vars[nm]["z"] == "layers" else col[a] * (1 - al) + col[a + 1] * al
            else:
                want[k, c] = col
    got = np.ma.asarray(v.at(np.column_stack((M.f.pts, z)), t + shift))
    if ctx.check(got.shape == want.shape and not np.ma.getmaskarray(got).any(), "answer", got=got, **d):
        ctx.close(got, want, "value_with_options", rtol=0, atol=1e-5 * max(np.abs(M.vars[n]["data"]).max() for n in names), **d)
    ctx.sig(M.f.desc, M.lay, sorted(kw), sorted(src), vec)


@C26.scenario(quick=150, thorough=2500, needs=["by_name", "by_standard_name", "by_long_name", "refused", "vector_by_name", "preferred"])
def default_names(ctx):
    """classes that know the names of their variables find them"""
    r, rng = ctx.r, ctx.rng
    M = model(ctx, names=["u", "v", "w_speed", "zz"], split=r.choice([None, None, "grid", "list"]))
    for i in M.vars.values():
        i["attrs"].pop("standard_name", None)
    how = {}
    for n in ("u", "v"):
        how[n] = r.choice(["name", "standard_name", "long_name"])
    for p in M.paths:
        with nc4.Dataset(p, "a") as nd:
            for n in M.vars:
                if n in nd.variables:
                    for a in ("standard_name", "long_name"):
                        if a in nd[n].ncattrs():
                            nd[n].delncattr(a)
                    if n in how and how[n] != "name":
                        nd[n].setncattr(how[n], "the " + n)
                    elif r.random() < 0.5 and n not in how:
                        nd[n].standard_name = "the other"
            # of two that match the first in the file is taken
            order = list(nd.variables)
            for n in how:
                if how[n] != "name" and {n, "zz"} <= set(order) and order.index(n) < order.index("zz") and r.random() < 0.3:
                    nd["zz"].setncattr(how[n], "the " + n)
                    ctx.event("two_match")
    listed = lambda n: [x for x in ["nope", n if how[n] == "name" else "NOPE", "nothing"]]
    cf = lambda n: ["the unknown", "the " + n if how[n] != "name" else "the none"]
    if M.split == "grid":
        src = r.choice([{"data_file": M.paths[1], "grid_file": M.paths[0]}, {"dataset": nc4.Dataset(M.paths[1]), "grid_file": M.paths[0]}])
    elif M.split == "list":
        src = {"filename": M.paths}
    else:
        src = r.choice([{"filename": M.path}, {"dataset": nc4.Dataset(M.path)}])
    npt = len(M.f.pts)
    pts = np.column_stack((M.f.pts, np.zeros(npt)))
    t = instant(ctx, M.ts)
    for n in how:
        ctx.event("by_" + how[n])
        dn = listed(n)
        if r.random() < 0.4 and how[n] == "name":
            dn.insert(r.choice([2, 3]), "zz")  # a name further down the list is not preferred
            ctx.event("preferred")
        S = type("S", (Variable,), {"default_names": dn, "cf_names": cf(n) + ["the other"]})
        v = S.from_netCDF(**src)
        ctx.check(type(v) is S and v.varname == n, "found", got=v.varname, want=n, how=how[n], names=dn)
        got = np.ma.asarray(v.at(pts, t)).reshape(-1)
        ctx.close(got, [M.column(n, k, t) for k in range(npt)], "value_of_found", rtol=0, atol=1e-5 * np.abs(M.vars[n]["data"]).max())
    a, b = M.vars["u"], M.vars["v"]
    if a["timed"] == b["timed"]:
        comps = r.choice([("u", "v"), ("v", "u")])
        lab = r.choice([("u", "v"), ("east", "north")])
        dn = {x: listed(c) for x, c in zip(lab, comps)}
        for x, c in zip(lab, comps):
            if how[c] == "name" and r.random() < 0.4:
                dn[x].append("zz")
        V = type("V", (VectorVariable,), {"default_names": dn, "cf_names": {x: cf(c) + ["the other"] for x, c in zip(lab, comps)}, "comp_order": list(lab)})
        v = V.from_netCDF(**src)
        ctx.event("vector_by_name")
        ctx.check(list(v.varnames) == list(comps), "components_found", got=v.varnames, want=comps, how=how, names=dn)
        ctx.check(getattr(v, lab[0]) is v.variables[0] and getattr(v, lab[1]) is v.variables[1], "components_by_label")
        got = np.ma.asarray(v.at(pts, t))
        ctx.close(got, np.array([[M.column(c, k, t) for c in comps] for k in range(npt)]), "value_of_components", rtol=0, atol=1e-5 * max(np.abs(M.vars[c]["data"]).max() for c in comps))
    N = type("N", (Variable,), {"default_names": ["nope"], "cf_names": ["the unknown"]})
    with ctx.expect_raises((ValueError, NameError), "unknown_names_accepted"):
        N.from_netCDF(**src)
    N = type("N", (VectorVariable,), {"default_names": {"u": ["nope"]}, "cf_names": {"v": ["the unknown"]}, "comp_order": ["u", "v"]})
    with ctx.expect_raises(ValueError, "unknown_component_names_accepted"):
        N.from_netCDF(**src)
    ctx.event("refused")
    ctx.sig(M.f.desc, M.lay, sorted(how.items()))


C22 = prop(
    "C22",
    "seeded model files of all five kinds with data variables, auxiliary variables, attributes of any type, and variables that have nothing to "
    "do with the grid, loaded as a Dataset from a path, an open dataset, a list of files or with an explicit topology; datasets built by hand; "
    "non-trivial always; distinct by (grid, layout, variables)",
    ["no dimension outside the grid has the length of one of the grid's"],
)


def _same_attrs(a, b):
    return set(a) == set(b) and all(np.array_equal(a[k], b[k]) for k in a)


@C22.scenario(quick=700, thorough=10000, needs=["rect", "fvcom", "ugrid", "roms", "sgrid", "list", "single", "not_on_grid", "aux_on_grid", "edge_variable", "by_attribute", "deprecated", "mapped", "odd_location", "turned", "near_name", "mask_variable"])
def datasets(ctx):
    r = ctx.r
    M = model(ctx, split=r.choice([None, None, None, "list"]), junk=r.random() < 0.7, depth=r.choice([None, None, "levels", "sigma"]), styles=STYLES, mapped=0.25)
    gt = {}
    if M.mapping:
        ctx.event("mapped")
        gt["grid_topology"] = dict(M.mapping)
    ctx.event(M.style)
    ctx.event(M.split or "single")
    src = M.paths if M.split else r.choice([M.path, pathlib.Path(M.path), nc4.Dataset(M.path), [M.path]])
    if r.random() < 0.15:
        ctx.event("deprecated")
        import warnings

        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            ds = Dataset(src, **gt)
        ctx.check(any(issubclass(x.category, DeprecationWarning) for x in w), "deprecation_warning")
    else:
        ds = Dataset.from_netCDF(src, **gt)
    ctx.check(type(ds.grid) is GRIDS[M.style], "grid_type", got=type(ds.grid).__name__, lay=M.lay)
    # every variable that lies on the grid, under its own name, and nothing else
    where = {}
    for n, dt, dims, a, at in M.G + M.D:
        if n in M.gridvars:
            continue
        for loc, ld in M.extra_locs.items():
            if tuple(dims) == ld:
                where[n] = loc
        for loc, ld in M.locdims.items():
            if tuple(dims[-len(ld):]) == ld or (M.style == "rect" and tuple(dims[-2:]) == ld[::-1]):
                where[n] = loc
    ctx.check(set(ds.variables) == set(where), "variables", got=sorted(ds.variables), want=sorted(where), lay=M.lay)
    if M.junk:
        ctx.event("not_on_grid")
    if set(where.values()) & set(M.extra_locs):
        ctx.event("edge_variable")
    if set(where) - set(M.vars):
        ctx.event("aux_on_grid")
    attrs = {e[0]: e[4] for e in M.G + M.D}
    for n in where:
        if n not in ds.variables:
            continue
        v = ds[n]
        ctx.check(v is ds.variables[n] and v.grid is ds.grid, "shared_grid", name=n)
        loc = {"face": "center"}.get(v.location, v.location) if M.kind == "S" else v.location
        ctx.check(loc == where[n], "location", got=v.location, want=where[n], name=n, lay=M.lay)
        ctx.check(v.varname == n and v.name == attrs[n].get("long_name", n), "name", got=(v.varname, v.name), want=n)
        ctx.check(_same_attrs(v.attributes, attrs[n]), "attributes", got=v.attributes, want=attrs[n])
        ctx.check(v.units == attrs[n].get("units"), "units", got=v.units)
    ctx.check(_same_attrs(ds.attributes, M.atts), "global_attributes", got=ds.attributes, want=M.atts)
    ctx.check(all(n in str(ds) for n in where) and all(n in ds.info for n in where), "info")
    # look up by attribute
    for _ in range(4):
        n = r.choice(sorted(where))
        if attrs[n]:
            k, val = r.choice(sorted(attrs[n].items(), key=lambda kv: kv[0]))
        else:
            k, val = r.choice([("units", "furlong"), ("nothing", "at all"), ("units", None)])
        if r.random() < 0.2:
            val = "something else"
        got = ds.get_variables_by_attribute(k, val)
        want = [m for m in where if k in attrs[m] and np.array_equal(attrs[m][k], val)]
        ctx.event("by_attribute")
        ctx.check(sorted(v.varname for v in got) == sorted(want), "by_attribute", got=[v.varname for v in got], want=want, attr=(k, val))
    for name in M.vars:
        if name in ds.variables:
            _judge(ctx, M, ds[name], name, "dataset")
    ctx.sig(M.f.desc, M.lay, sorted(where))
    ctx.note(layout=M.lay, variables=sorted(where))


@C22.scenario(quick=60, thorough=1000, needs=["both_refused", "made_by_hand"])
def datasets_by_hand(ctx):
    """datasets put together from objects, and refusals"""
    r = ctx.r
    f = gen.field(ctx, npts=3, nmax=5, locs=["node"])
    g = f.make()
    atts = {k: v for k, v in (("title", "mine"), ("n", 3), ("empty", "")) if r.random() < 0.6}
    vs = {}
    for n in r.sample(["a", "b", "c", "temp"], r.randint(1, 3)):
        at = {k: v for k, v in (("standard_name", r.choice(["x", "y"])), ("level", r.choice([1, 2]))) if r.random() < 0.7}
        vs[n] = Variable(name=n, data=f.layer(), grid=g, units="m", attributes=at)
    ds = Dataset(grid=g, variables=dict(vs), attributes=dict(atts))
    ctx.event("made_by_hand")
    ctx.check(ds.grid is g and set(ds.variables) == set(vs) and all(ds[n] is vs[n] for n in vs), "by_hand")
    ctx.check(_same_attrs(ds.attributes, atts), "by_hand_attributes")
    for k, val in (("standard_name", "x"), ("level", 2), ("nothing", 1)):
        got = ds.get_variables_by_attribute(k, val)
        ctx.check(sorted(v.name for v in got) == sorted(n for n in vs if k in vs[n].attributes and vs[n].attributes[k] == val), "by_attribute", attr=(k, val), got=[v.name for v in got])
    ctx.check(isinstance(ds.info, str) and all(n in str(ds) for n in vs), "info")
    with ctx.expect_raises(KeyError, "missing_variable_answered"):
        ds["not there"]
    # datasets do not share what they were not given
    a, b = Dataset(), Dataset(grid=g)
    a.variables["q"] = 1
    a.attributes["q"] = 1
    ctx.check(not b.variables and not b.attributes and not Dataset().variables and not Dataset().attributes, "shared_defaults")
    p = ctx.tmp() + "/x.nc"
    with nc4.Dataset(p, "w") as nd:
        nd.createDimension("lon", 3)
        nd.createDimension("lat", 3)
        nd.createVariable("lon", "f8", ("lon",))[:] = [0, 1, 2]
        nd.createVariable("lat", "f8", ("lat",))[:] = [0, 1, 2]
    kw = r.choice([{"grid": g}, {"variables": vs}, {"attributes": atts or {"a": 1}}])
    with ctx.expect_raises(ValueError, "file_and_raw_data_accepted", given=list(kw)):
        Dataset(p, **kw)
    ctx.event("both_refused")
    with ctx.expect_raises(NotImplementedError, "separate_files_accepted"):
        Dataset.from_netCDF(p, **r.choice([{"grid_file": p}, {"variable_files": [p]}, {"grid_file": p, "variable_files": [p]}]))
    ctx.sig(f.desc, sorted(vs), sorted(atts))
