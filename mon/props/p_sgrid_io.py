"""C17 structured grids described by an SGRID topology variable: reading, what is derived, saving."""

import os
import pathlib

import netCDF4 as nc4
import numpy as np

from gridded.grids import Grid, Grid_S
from gridded.pysgrid.read_netcdf import parse_axes, parse_padding, parse_vector_axis
from gridded.pysgrid.sgrid import SGrid, load_grid

from .. import gen
from ..core import prop
from .p_sgrid import NPAD, OFF, PADS, expected, pad_into

C17 = prop(
    "C17",
    "seeded SGRID files written with netCDF4 directly: any grid shape, any padding per dimension and location, dimension and variable "
    "names, order of the topology attributes, coordinates named or to be discovered, masks, angle, vertical dimensions, data variables "
    "with and without location; non-trivial when something is optional, discovered or padded; distinct by (shape, layout)",
    ["arrays stored y-first (rows along the second node dimension)", "mask and coordinate names contain the conventional words and no data variable does"],
)

SLC = {"both": slice(1, -1), "none": slice(None, None), "low": slice(1, None), "high": slice(None, -1)}
NAMES = {
    "roms": dict(node=("eta_psi", "xi_psi"), center=("eta_rho", "xi_rho"), edge1=("eta_u", "xi_u"), edge2=("eta_v", "xi_v"), suf=("psi", "rho", "u", "v")),
    "plain": dict(node=("jn", "in"), center=("jc", "ic"), edge1=("j_1", "i_1"), edge2=("j_2", "i_2"), suf=("node", "center", "edge1", "edge2")),
    "digits": dict(node=("j_00", "i2_00"), center=("j_11", "i2_11"), edge1=("j_12", "i2_12"), edge2=("j_21", "i2_21"), suf=("00", "11", "12", "21")),
    "shared": dict(node=("NN", "MM"), center=("NNZ", "MMZ"), edge1=("NNZ", "MM"), edge2=("NN", "MMZ"), suf=("n", "c", "a", "b")),
}


def bearing_from_east(lon1, lat1, lon2, lat2):
    """angle of the initial great-circle direction, from east, via 3-D vectors"""
    r = np.pi / 180
    p1 = np.array([np.cos(lat1 * r) * np.cos(lon1 * r), np.cos(lat1 * r) * np.sin(lon1 * r), np.sin(lat1 * r)])
    p2 = np.array([np.cos(lat2 * r) * np.cos(lon2 * r), np.cos(lat2 * r) * np.sin(lon2 * r), np.sin(lat2 * r)])
    e = np.array([-np.sin(lon1 * r), np.cos(lon1 * r), 0 * lat1])
    n = np.array([-np.sin(lat1 * r) * np.cos(lon1 * r), -np.sin(lat1 * r) * np.sin(lon1 * r), np.cos(lat1 * r)])
    d = p2 - p1 * (p1 * p2).sum(0)
    return np.arctan2((d * n).sum(0), (d * e).sum(0))


def write_sgrid(ctx, nd, lon, lat, simple=False):
    """returns everything a reader should find"""
    r, rng = ctx.r, ctx.rng
    w = {"lay": {}}
    style = r.choice(sorted(NAMES))
    N = NAMES[style]
    ny, nx = lon.shape
    pad = (r.choice(PADS), r.choice(PADS))
    if style == "shared":
        e1, e2 = pad[0], pad[1]
    else:
        e1, e2 = (pad[0], pad[1]) if r.random() < 0.6 else (r.choice(PADS), r.choice(PADS))
    pads = {"node": ("none", "none"), "center": pad, "edge1": (e1, "none"), "edge2": ("none", e2)}
    shape = {
        "node": (ny, nx),
        "center": (ny - 1 + NPAD[pad[0]], nx - 1 + NPAD[pad[1]]),
        "edge1": (ny - 1 + NPAD[e1], nx),
        "edge2": (ny, nx - 1 + NPAD[e2]),
    }
    w["pads"], w["shape"], w["style"], w["pad"] = pads, shape, style, pad
    dims = []
    sizes = {}
    if r.random() < 0.5:
        sizes["time"] = 2
    vertical = r.random() < 0.5
    if vertical:
        sizes["s_rho"], sizes["s_w"] = 3, 4
    for loc in ("node", "center", "edge1", "edge2"):
        for k in (0, 1):
            assert sizes.get(N[loc][k], shape[loc][k]) == shape[loc][k]
            sizes[N[loc][k]] = shape[loc][k]
    order = list(sizes)
    r.shuffle(order)
    for d in order:
        nd.createDimension(d, sizes[d])
    w["dimensions"] = [(d, sizes[d]) for d in order]
    top = r.choice(["grid", "SGRID", "Grid_topology"])
    w["top"] = top
    topfirst = r.random() < 0.5
    if topfirst:
        g = nd.createVariable(top, "i2")
    cdt = r.choice(["f8", "f8", "f4"])

    # coordinates of all locations: the nodes given, the others averaged then extended over the padding
    def mean(a, loc):
        if loc == "node":
            return a
        if loc == "center":
            c = 0.25 * (a[:-1, :-1] + a[1:, :-1] + a[:-1, 1:] + a[1:, 1:])
        elif loc == "edge1":
            c = 0.5 * (a[:-1] + a[1:])
        else:
            c = 0.5 * (a[:, :-1] + a[:, 1:])
        p = pads[loc]
        return np.pad(c, [({"low": 1, "both": 1}.get(x, 0), {"high": 1, "both": 1}.get(x, 0)) for x in p], mode="reflect", reflect_type="odd") if min(c.shape) > 1 else pad_into(c, p, c.ravel()[0])

    coords = {}
    opaque = r.random() < 0.2  # names that say nothing: the standard name tells
    present = ["node", "center"] + [e for e in ("edge1", "edge2") if r.random() < 0.7]
    if not simple and r.random() < 0.15:
        present.remove("center")
    w["present"] = present
    locs = present[:]
    r.shuffle(locs)
    if r.random() < 0.3:
        # neither longitude nor latitude
        nd.createVariable("bed", "f8", N["node"])[:] = rng.random(lon.shape)
    if "time" in sizes and r.random() < 0.4:
        # named like coordinates of the nodes, but changing in time
        for n in r.sample(["lonely", "latent"], r.choice([1, 2])):
            nd.createVariable(n, "f8", ("time",) + N["node"])[:] = rng.random((sizes["time"],) + lon.shape)
        ctx.event("moving_decoy")
    if r.random() < 0.2:
        # one number, named like a coordinate
        nd.createVariable(r.choice(["xoffset", "lon0", "y_shift"]), "f8", ())[...] = 1.0
    prefix = r.choice(["", "", "", "geo_"])
    w["described"] = set()
    for loc in locs:
        s = N["suf"][("node", "center", "edge1", "edge2").index(loc)]
        x, y = (prefix + "lon_" + s, prefix + "lat_" + s)
        if r.random() < 0.25:
            x, y = x.upper(), y.upper()
        if opaque:
            x, y = "c1_" + s, "c2_" + s
        told = "standard_name"
        if opaque and loc != "node" and r.random() < 0.4:
            told = "description"
            w["described"].add(loc)
        pair = [(x, mean(lon, loc)), (y, mean(lat, loc))]
        if r.random() < 0.3:
            pair = pair[::-1]
        for n, a in pair:
            v = nd.createVariable(n, cdt, N[loc])
            v[:] = a
            if opaque or r.random() < 0.4:
                v.setncattr(told, r.choice([str, str.capitalize])("longitude" if n == x else "latitude") + (" of the points" if told == "description" else ""))
            coords[n] = np.asarray(a).astype(cdt).astype("f8")
        w[loc] = (x, y)
    w["coords"] = coords
    # masks, when the shape says what they are for
    w["masks"], w["maskdata"], w["maskatts"], w["masked"] = {}, {}, {}, {}
    for loc in present:
        if list(shape.values()).count(shape[loc]) == 1 and r.random() < 0.4:
            n = "mask_" + N["suf"][("node", "center", "edge1", "edge2").index(loc)]
            kw = {}
            if r.random() < 0.3:
                n = "wet_" + n[5:]
                kw["long_name"] = "mask of the points"
            v = nd.createVariable(n, "i4", N[loc])
            md = (rng.random(shape[loc]) < r.choice([0.2, 0.5, 0.0])).astype(int)  # 1: masked
            if r.random() < 0.5:
                kw["flag_values"] = np.array([0, 1], np.int32)
                kw["flag_meanings"] = "land water"
                md = 1 - md
            v[:] = md
            w["masked"][loc] = md == (0 if "flag_values" in kw else 1)
            v.setncatts(kw)
            w["masks"][loc] = n
            w["maskdata"][loc] = md
            w["maskatts"][loc] = kw
    w["angle"] = None
    if r.random() < 0.4 and "center" in present:
        v = nd.createVariable("angle", "f8", N["center"])
        w["angle"] = rng.uniform(-3, 3, shape["center"])
        v[:] = w["angle"]
    # data variables
    w["vars"] = {}
    nvars = r.randint(1, 4)
    for n in range(nvars):
        loc = r.choice(present)
        if style == "shared" and r.random() < 0.3:
            pass
        lead = tuple(d for d in ("time", "s_rho") if d in sizes and r.random() < 0.5)
        name = "q%d" % n
        if loc == "node" and lead and r.random() < 0.5:
            # named like a coordinate, but no such thing
            name = r.choice(["lonely%d", "flatness%d", "longwave%d", "latent%d"]) % n
            ctx.event("named_like_a_coordinate")
        elif loc != "node" and nvars == 1 and r.random() < 0.3:
            name = r.choice(["flux%d", "max_speed%d", "velocity%d"]) % n
        v = nd.createVariable(name, "f8", lead + N[loc])
        data = rng.normal(size=tuple(sizes[d] for d in lead) + shape[loc])
        v[:] = data
        info = {"loc": loc, "lead": lead, "data": data, "grid": r.random() < 0.7, "attr": {}}
        if info["grid"]:
            v.grid = top
        info["explicit"] = r.random() < 0.5
        if info["explicit"]:
            v.location = {"center": "face"}.get(loc, loc)
        if r.random() < 0.5:
            ax = r.choice("xyz")
            sn = r.choice(["sea_water_%s_velocity", "baroclinic_%s_flow_of_water", "wind_%s_stress"]) % ax
            v.standard_name = sn
            info["attr"]["standard_name"] = sn
            info["vector"] = ax.upper()
        elif r.random() < 0.5:
            v.standard_name = "sea_water_salinity"
            info["attr"]["standard_name"] = "sea_water_salinity"
            info["vector"] = None
        if r.random() < 0.4:
            v.axes = r.choice(["", "Z: depth_level "]) + "X: %s Y: %s" % (r.choice(["xi_u", "ax2", "M1_z", "along"]), r.choice(["eta_u", "across"])) + r.choice(["", " Z: depth_level"])
            if v.axes.count("Z:") > 1:
                v.axes = v.axes[: -len(" Z: depth_level")]
            info["axes"] = v.axes
            if r.random() < 0.4:
                v.axes = v.axes.replace("X:", "x:").replace("Y:", "y:").replace("Z:", "z:")
                ctx.event("lower_case_axes")
        if r.random() < 0.5:
            v.coordinates = r.choice(["%s %s", "%s %s ", "%s  %s"]) % w[loc]
            info["coordinates"] = w[loc]
        w["vars"][name] = info
    if not topfirst:
        g = nd.createVariable(top, "i2")
    g.cf_role = "grid_topology"
    g.topology_dimension = r.choice([np.int32(2), "2"])
    w["node_dimensions"] = r.choice(["%s %s" % (N["node"][1], N["node"][0])])
    g.node_dimensions = w["node_dimensions"]

    def part(loc, k):
        return "%s: %s (padding: %s)" % (N[loc][k], N["node"][k], pads[loc][k])

    order = [part("center", 1), part("center", 0)]
    if r.random() < 0.3:
        order = order[::-1]
    w["face_dimensions"] = " ".join(order)
    g.face_dimensions = w["face_dimensions"]
    w["edge_declared"] = {}
    for e, (plain, padded) in {"edge1": (1, 0), "edge2": (0, 1)}.items():
        if e in present and (style == "shared" or r.random() < 0.85 or e1 != pad[0] or e2 != pad[1]):
            a = "%s: %s" % (N[e][plain], N["node"][plain]) if style != "shared" else N["node"][plain]
            b = part(e, padded)
            g.setncattr(e + "_dimensions", " ".join((a, b) if r.random() < 0.5 else (b, a)))
            w["edge_declared"][e] = g.getncattr(e + "_dimensions")
    if vertical and r.random() < 0.7:
        w["vertical"] = r.choice(PADS)
        g.vertical_dimensions = "s_rho: s_w (padding: %s)" % w["vertical"]
    # coordinates: named, or left to be discovered
    w["named"] = {}
    for loc in present:
        att = {"node": "node_coordinates", "center": "face_coordinates"}.get(loc, loc + "_coordinates")
        lname = {"center": "face"}.get(loc, loc)
        found = [i for i in w["vars"].values() if i["loc"] == loc and i["explicit"]]
        clean = all("coordinates" in i for i in found) or not any("standard_name" in i["attr"] for i in w["vars"].values())
        if loc in w["described"]:
            clean = all("coordinates" in i for i in found)
        leave = (loc == "node" or (found and clean)) and r.random() < (0.7 if loc in w["described"] else 0.4)
        if leave and loc in w["described"]:
            ctx.event("discovered_by_description")
        if not leave:
            g.setncattr(att, "%s %s" % w[loc])
        w["named"][loc] = not leave
        if leave:
            ctx.event("discovered_" + loc)
            if opaque:
                ctx.event("discovered_by_standard_name")
    w["all"] = [v for v in nd.variables]
    w["lay"] = (style, pad, e1, e2, sorted(present), w["face_dimensions"], sorted(w["named"].items()), sorted(w["edge_declared"]), cdt, "vertical" in w)
    return w


def _same(ctx, got, want, kind, **d):
    if want is None:
        return ctx.check(got is None, kind, got=got, want=None, **d)
    if not ctx.check(got is not None, kind + ":missing", **d):
        return False
    return ctx.close(np.ma.asarray(got[:]), want, kind, rtol=1e-7, atol=1e-12, **d)


def check_grid(ctx, g, w, vars_too=True, saved=False):
    lay = w["lay"]
    C = w["coords"]
    for loc in ("node", "center", "edge1", "edge2"):
        x, y = w.get(loc, (None, None))
        _same(ctx, getattr(g, loc + "_lon"), C.get(x), loc + "_lon", lay=lay)
        _same(ctx, getattr(g, loc + "_lat"), C.get(y), loc + "_lat", lay=lay)
        att = {"center": "face"}.get(loc, loc) + "_coordinates"
        ctx.check(getattr(g, att) == w.get(loc), att, got=getattr(g, att), want=w.get(loc), lay=lay)
    ctx.check(g.grid_topology_var == w["top"], "topology_var", got=g.grid_topology_var)
    ctx.check(g.topology_dimension == 2, "topology_dimension")
    ctx.check(sorted(g.dimensions) == sorted(w["dimensions"]), "dimensions", got=g.dimensions, want=w["dimensions"])
    ctx.check(g.node_dimensions == w["node_dimensions"] and g.face_dimensions == w["face_dimensions"], "dimension_attributes")
    def norm(p):
        return tuple(x or "none" for x in p)

    vp = w.get("vertical")
    ctx.check(g.vertical_dimensions == (("s_rho: s_w (padding: %s)" % vp) if vp else None), "vertical_dimensions", got=g.vertical_dimensions, want=vp, saved=saved)
    if vp:
        ctx.check(norm(g.vertical_padding) == ("none", vp), "vertical_padding", got=g.vertical_padding, want=vp, saved=saved)
    if vp:
        ctx.event("vertical_saved" if saved else "vertical_read")
    for e in ("edge1", "edge2"):
        ctx.check(getattr(g, e + "_dimensions") == w["edge_declared"].get(e), e + "_dimensions", got=getattr(g, e + "_dimensions"))

    ctx.check(norm(g.center_padding) == w["pad"] and norm(g.face_padding) == w["pad"], "face_padding", got=g.face_padding, want=w["pad"], lay=lay)
    ctx.check(norm(g.node_padding) == ("none", "none"), "node_padding")
    for e in ("edge1", "edge2"):
        if e in w["present"]:
            ctx.check(norm(getattr(g, e + "_padding")) == w["pads"][e], e + "_padding", got=getattr(g, e + "_padding"), want=w["pads"][e], lay=lay)
            ctx.event("padding_" + w["pads"][e][0 if e == "edge1" else 1])
    for loc in ("node", "center", "edge1", "edge2"):
        for alt in {"node": ["node", "psi", "vertices"], "center": ["center", "face", "cells"], "edge1": ["edge1", "u"], "edge2": ["edge2", "v"]}[loc]:
            if loc in w["present"]:
                ctx.check(norm(g.get_padding_by_location(alt)) == w["pads"][loc], "padding_by_location", loc=alt)
    if "center" in w["present"]:
        want = w["angle"]
        if want is None:
            x, y = C[w["center"][0]], C[w["center"][1]]
            if x.shape[1] > 1:
                a = bearing_from_east(x[:, :-1], y[:, :-1], x[:, 1:], y[:, 1:])
                want = np.concatenate((a, a[:, -1:]), axis=1)
                ctx.event("angle_computed")
        else:
            ctx.event("angle_read")
        if want is not None and np.abs(C[w["center"][1]]).max() < 89 and np.abs(C[w["center"][0]]).max() < 361:
            got = np.ma.filled(np.ma.asarray(g.angles[:], dtype=float), np.nan)
            if ctx.check(got.shape == want.shape, "angle_shape", got=got.shape, want=want.shape):
                d = (got - want + np.pi) % (2 * np.pi) - np.pi
                # two neighboring centers at the same spot have no direction; single precision centers have a rough one
                if w["angle"] is not None:
                    ok = np.ones(d.shape, bool)
                else:
                    x, y = C[w["center"][0]], C[w["center"][1]]
                    far = np.hypot(np.diff(x, axis=1) * np.cos(y[:, 1:] * np.pi / 180), np.diff(y, axis=1)) > 1e-5
                    ok = np.concatenate((far, far[:, -1:]), axis=1)
                ctx.check(np.all(np.abs(d[ok]) < 1e-5), "angles", got=got[ok][:4], want=want[ok][:4])
    for loc in ("node", "center", "edge1", "edge2"):
        m = getattr(g, loc + "_mask")
        n = w["masks"].get(loc)
        ctx.check((m.name if m is not None else None) == n, loc + "_mask", got=getattr(m, "name", None), want=n)
        if n and m is not None:
            ctx.check(np.array_equal(np.ma.filled(m[:], -99), w["maskdata"][loc]), loc + "_mask_values")
            ctx.event("mask_found")
            for a, val in w["maskatts"][loc].items():
                ctx.check(hasattr(m, a) and np.all(getattr(m, a) == val), "mask_attribute", attr=a, saved=saved)
    ctx.check(sorted(g.variables) == sorted(w["all"]), "variables", got=sorted(g.variables), want=sorted(w["all"]))
    gv = sorted(n for n, i in w["vars"].items() if i["grid"])
    ctx.check(sorted(g.grid_variables) == gv, "grid_variables", got=g.grid_variables, want=gv)
    ctx.check(sorted(g.non_grid_variables) == sorted(set(w["all"]) - set(gv)), "non_grid_variables")
    N = NAMES[w["style"]]
    for n, i in w["vars"].items():
        v = getattr(g, n)
        loc = i["loc"]
        ctx.check(v.variable == n and tuple(v.dimensions) == i["lead"] + N[loc], "variable_dims", name=n)
        ctx.check(v.standard_name == i["attr"].get("standard_name"), "standard_name", got=v.standard_name)
        ctx.check(v.coordinates == i.get("coordinates"), "coordinates", got=v.coordinates, want=i.get("coordinates"))
        ctx.check(v.vector_axis == i.get("vector"), "vector_axis", got=v.vector_axis, want=i.get("vector"))
        ax = dict(p.split(":") for p in i["axes"].replace(": ", ":").split()) if "axes" in i else {}
        ctx.check((v.x_axis, v.y_axis, v.z_axis) == (ax.get("X"), ax.get("Y"), ax.get("Z")), "axes", got=(v.x_axis, v.y_axis, v.z_axis), want=ax)
        ctx.check((v.grid == w["top"]) == i["grid"] if i["grid"] else v.grid is None, "grid_attr", got=v.grid)
        ctx.check(tuple(v.shape) == i["data"].shape and v.ndim == i["data"].ndim, "variable_shape")
        ctx.event("var_" + loc)
        if saved:
            continue
        ctx.check(np.array_equal(np.asarray(v[:]), i["data"]), "variable_data")
        # the ghost rows and columns of the padded dimensions, and nothing else, are sliced away
        if loc == "center" or (loc in w["edge_declared"]):
            want = tuple(SLC[w["vertical"]] if (d == "s_rho" and "vertical" in w and loc_all(w, N, loc)) else slice(None, None) for d in i["lead"])
            want += tuple(SLC[w["pads"][loc][k]] if w["pads"][loc][k] != "none" else slice(None, None) for k in (0, 1))
            ctx.check(tuple(v.center_slicing) == want, "center_slicing", got=v.center_slicing, want=want, loc=loc, lay=lay)
            ctx.event("slicing")
        want = {"center": "face"}.get(loc, loc)
        if i["explicit"] or loc == "center":
            ctx.check(v.location == want, "location", got=v.location, want=want)
        elif loc in w["edge_declared"] and i["grid"]:
            ctx.check(v.location == want, "inferred_location", got=v.location, want=want, lay=lay)
            ctx.event("location_inferred")
        elif loc == "node":
            ctx.check(v.location in (None, "node"), "location_of_node_variable", got=v.location)
        if loc in w["edge_declared"] and i["grid"]:
            ctx.check((v.center_axis, v.node_axis) == ((1, 0) if loc == "edge1" else (0, 1)), "averaging_axis", got=(v.center_axis, v.node_axis), loc=loc)


def loc_all(w, N, loc):
    """vertical padding is considered when no dimension is shared with the nodes"""
    return not set(N[loc]) & set(N["node"])


@C17.scenario(quick=350, thorough=6000, needs=["padding_low", "padding_high", "padding_both", "padding_none", "angle_computed", "angle_read", "mask_found",
              "discovered_node", "discovered_center", "discovered_edge1", "discovered_by_standard_name", "discovered_by_description", "location_inferred", "slicing", "resaved", "named_like_a_coordinate", "lower_case_axes", "moving_decoy"])
def sgrid_files(ctx):
    r = ctx.r
    lon, lat, desc = gen.quad_grid(ctx, nmax=7)
    path = os.path.join(ctx.tmp(), "s.nc")
    with nc4.Dataset(path, "w") as nd:
        w = write_sgrid(ctx, nd, lon, lat)
    how = r.choice(["path", "str", "dataset", "cls", "Grid_S"])
    nd = nc4.Dataset(path)
    if how == "path":
        g = load_grid(pathlib.Path(path))
    elif how == "str":
        g = SGrid.load_grid(path)
    elif how == "dataset":
        g = load_grid(nd)
    elif how == "cls":
        g = SGrid.load_grid(nd)
    else:
        g = Grid_S.load_grid(nd)
        ctx.check(isinstance(g, Grid_S), "loaded_type")
    check_grid(ctx, g, w)
    if r.random() < 0.6:
        p2 = os.path.join(ctx.tmp(), "again.nc")
        g.save_as_netcdf(p2)
        h = load_grid(p2)
        w2 = dict(w)
        # what was discovered is named now
        check_grid(ctx, h, w2, saved=True)
        ctx.event("resaved")
    nd.close()
    ctx.sig(desc, lon.shape, w["lay"], how)
    ctx.note(shape=lon.shape, layout=w["lay"])


@C17.scenario(quick=200, thorough=4000, needs=["interp_node", "interp_center", "interp_edge1", "interp_edge2", "in_masked_cell"])
def loaded_grid_answers(ctx):
    """locate and interpolate on a grid that came from a file: masks and padding are applied to the right dimension"""
    r = ctx.r
    lon, lat, desc = gen.quad_grid(ctx, nmax=7)
    path = os.path.join(ctx.tmp(), "s.nc")
    with nc4.Dataset(path, "w") as nd:
        w = write_sgrid(ctx, nd, lon, lat, simple=True)
    if "f4" in w["lay"]:
        lon, lat = w["coords"][w["node"][0]], w["coords"][w["node"][1]]
        if not gen._convex_ok(lon, lat):
            return
    ny, nx = lon.shape
    nd = nc4.Dataset(path)
    g = r.choice([load_grid, Grid_S.load_grid])(nd)
    p0, p1 = [OFF[p] for p in w["pad"]]
    cm = np.zeros((ny - 1, nx - 1), bool)
    full = None
    if "center" in w["masks"]:
        full = w["masked"]["center"]
        cm = full[p0 : p0 + ny - 1, p1 : p1 + nx - 1]
    elif "node" in w["masks"]:
        nm = w["masked"]["node"]
        cm = nm[:-1, :-1] | nm[1:, :-1] | nm[:-1, 1:] | nm[1:, 1:]
    specs = gen.grid_points(ctx, lon, lat, n=15)
    specs = [s for s in specs if s[1] is not None and 0.02 < min(s[2], s[3]) and max(s[2], s[3]) < 0.98]
    if not specs:
        return
    pts = np.array([s[0] for s in specs])
    ind = np.ma.filled(g.locate_faces(pts), -1)
    for n, s in enumerate(specs):
        masked = cm[s[1]]
        ctx.event("in_masked_cell" if masked else "in_cell")
        ctx.check(tuple(ind[n]) == ((-1, -1) if masked else tuple(s[1])), "located", got=ind[n], want=s[1], masked=masked, lay=w["lay"])
    for n, i in w["vars"].items():
        loc = i["loc"]
        if loc == "node" and "node" in w["masks"]:
            continue
        sl = tuple(r.randrange(k) for k in i["data"].shape[:-2])
        data = i["data"][sl]
        got = np.ma.asarray(g.interpolate_var_to_points(pts, data, location=loc)).reshape(-1)
        for k, s in enumerate(specs):
            if cm[s[1]]:
                ctx.check(np.ma.getmaskarray(got)[k], "masked_cell_value", loc=loc)
                continue
            want = expected(lon, lat, full, w["pad"], data, loc, w["pads"][loc], s)
            ctx.close(got[k], want if want is not None else np.nan, "value", rtol=1e-5, atol=1e-5 * np.abs(data).max(), loc=loc, lay=w["lay"])
            ctx.event("interp_" + loc)
    nd.close()
    ctx.sig(desc, lon.shape, w["lay"], sorted(w["masks"]))


@C17.scenario(quick=40, thorough=500, needs=["refused"])
def not_sgrid(ctx):
    r = ctx.r
    lon, lat, desc = gen.quad_grid(ctx, nmax=5)
    path = os.path.join(ctx.tmp(), "s.nc")
    kind = r.choice(["no_role", "two", "dim1", "dim3", "no_dim", "no_padding"])
    with nc4.Dataset(path, "w") as nd:
        w = write_sgrid(ctx, nd, lon, lat)
        t = nd[w["top"]]
        if kind == "no_role":
            t.delncattr("cf_role")
        elif kind == "two":
            nd.createVariable("another", "i4").cf_role = "grid_topology"
        elif kind in ("dim1", "dim3"):
            t.topology_dimension = np.int32(int(kind[-1]))
        elif kind == "no_dim":
            t.delncattr("topology_dimension")
        else:
            t.face_dimensions = "a: b c: d"
    with ctx.expect_raises(ValueError, "not_sgrid_accepted", how=kind):
        r.choice([load_grid, SGrid.load_grid])(path)
    ctx.event("refused")
    ctx.sig(kind, desc)
