"""Files like those ocean models write, made with netCDF4 directly, with everything needed to judge what is read from them."""

import os
from datetime import datetime, timedelta

import netCDF4 as nc4
import numpy as np

from . import gen
from .core import Skip

STYLES = ("rect", "fvcom", "ugrid", "roms", "sgrid")


class Model:
    """grid, time, depth and data of a generated file; value() is the reference"""

    def w_space(self, k, loc):
        """[(index into the stored array of that location, weight)] for point k"""
        f = self.f
        nw = f.NW[k]
        if f.kind in ("U",):
            return nw if loc == "node" else [((f.face_of[k],), 1.0)]
        if f.kind == "R":
            return nw
        (j, i) = nw[0][0]
        l = nw[1][1] + nw[2][1]
        m = nw[2][1] + nw[3][1]
        o = self.offset[loc]
        if loc == "node":
            return nw
        if loc == "center":
            return [((j + o[0], i + o[1]), 1.0)]
        if loc == "edge1":
            return [((j + o[0], i), 1 - l), ((j + o[0], i + 1), l)]
        return [((j, i + o[1]), 1 - m), ((j + 1, i + o[1]), m)]

    def column(self, name, k, t=None):
        """values of one variable above point k: scalar or along depth"""
        v = self.vars[name]
        d = v["data"]
        if v["timed"]:
            d = np.tensordot(gen.time_weights(self.ts, t), d, 1)
        if v["swap"]:
            d = np.swapaxes(d, -1, -2)
        return sum(a * d[(Ellipsis,) + idx] for idx, a in self.w_space(k, v["loc"]))


def fix_points(ctx, f):
    on = [i for i, w in enumerate(f.NW) if w is not None]
    if not on:
        raise Skip()
    return f.take(on)


def model(ctx, styles=STYLES, depth=None, nmax=6, split=None, names=None, junk=False, mapped=0.0, even=False):
    """write the file(s); depth: None, 'levels', 'sigma' (roms/fvcom); junk: also variables that are not on the grid;
    mapped: how often the grid's variables have names that only a mapping explains"""
    r, rng = ctx.r, ctx.rng
    M = Model()
    M.style = r.choice(list(styles))
    map_it = M.style in ("rect", "fvcom", "roms") and r.random() < mapped
    kind = {"rect": "R", "fvcom": "U", "ugrid": "U"}.get(M.style, "S")
    f = gen.field(ctx, kinds=(kind,), locs=["node"], npts=r.choice([1, 3, 8]), nmax=nmax, even=even)
    same = even  # only the location attribute can tell
    if kind == "U" and (len(f.faces) == 3 or len(f.faces) == len(f.nodes) and not even):
        raise Skip()
    f = fix_points(ctx, f)
    if kind == "S" and min(f.lon.shape) < 3:
        raise Skip()
    if kind == "U":
        f.face_of = []
        for w in f.NW:
            key = sorted(i[0] for i, a in w)
            f.face_of.append(next(n for n, fc in enumerate(f.faces) if sorted(int(x) for x in fc) == key))
    M.f, M.kind = f, kind
    nt = r.choice([1, 2, 4]) if split is None else 4
    if "time" in ctx.big and split != "list":
        nt = r.randint(50, 300)
    t0 = datetime(2000, 1, 1) + timedelta(hours=r.randint(0, 5000))
    M.ts = [t0 + timedelta(minutes=30 * k) for k in range(nt)]
    M.tname = r.choice(["time", "ocean_time", "time"])
    d = ctx.tmp()
    fmt = "NETCDF3_CLASSIC" if split == "list" else r.choice(["NETCDF4", "NETCDF3_CLASSIC", "NETCDF4_CLASSIC"])
    M.fmt = fmt
    M.split = split
    if split == "list":
        # the order of the list counts, not that of the names
        M.paths = [os.path.join(d, n + ".nc") for n in r.choice([("m0", "m1"), ("z", "a"), ("run2", "run10"), ("m1", "m0")])]
        parts = [([0, 1], p) for p in M.paths]
        parts[1] = ([2, 3], M.paths[1])
    elif split == "grid":
        M.paths = [os.path.join(d, "grid.nc"), os.path.join(d, "data.nc")]
        parts = [(None, M.paths[0]), (list(range(nt)), M.paths[1])]
    else:
        M.paths = [os.path.join(d, "m.nc")]
        parts = [(list(range(nt)), M.paths[0])]
    M.path = M.paths[0]
    M.atts = {}
    for n, v in (("title", "model run"), ("Conventions", "CF-1.8"), ("history", "made\nby hand"), ("version", 3.5), ("_CoordSysBuilder", "ucar.nc2.CF")):
        if r.random() < 0.5:
            M.atts[n] = v
    # what the grid looks like in the file: [(name, dtype, dims, data, attrs)], all from one table so that several files agree
    G = []
    sizes = {}
    up = M.style == "rect" and r.random() < 0.3
    M.lay = [M.style, fmt]
    if M.style == "rect":
        x, y = r.choice([("lon", "lat"), ("longitude", "latitude"), ("node_lon", "node_lat")])
        if up:
            x, y = x.upper(), y.upper()
        dx, dy = (x, y) if r.random() < 0.6 else r.choice([("x", "y"), ("xi", "eta"), ("nlon", "nlat")])
        sizes.update({dx: len(f.x), dy: len(f.y)})
        G += [(x, "f8", (dx,), f.x, {"units": "degrees_east"}), (y, "f8", (dy,), f.y, {"units": "degrees_north"})]
        M.locdims = {"node": (dy, dx)}
        M.gridvars = {x, y}
        M.lay += [x, dx]
    elif M.style == "fvcom":
        sizes.update({"node": len(f.nodes), "nele": len(f.faces), "three": 3})
        x, y = r.choice([("lon", "lat"), ("longitude", "latitude"), ("LON", "LAT")])
        nv = r.choice(["nv", "nv", "ele", "tris", "faces", "NV", "Faces"])
        # a mesh whose last node is unused says nothing about its base
        zero = r.random() < 0.4
        if not zero and f.faces.max() != len(f.nodes) - 1:
            zero = True
        tr = r.random() < 0.6
        a = f.faces + (0 if zero else 1)
        if not map_it and r.random() < 0.15:
            # both coordinates in one variable
            x = y = r.choice(["nodes", "Nodes", "NODES", "node"])
            sizes["two"] = 2
            G.append((x, "f8", ("node", "two"), f.nodes, {}))
            ctx.event("composite_nodes")
        else:
            G += [(x, "f8", ("node",), f.nodes[:, 0], {}), (y, "f8", ("node",), f.nodes[:, 1], {})]
        G += [(nv, "i4", ("three", "nele") if tr else ("nele", "three"), a.T if tr else a, {})]
        M.locdims = {"node": ("node",), "face": ("nele",)}
        M.gridvars = {x, y, nv}
        M.lay += [x, nv, zero, tr]
    elif M.style == "ugrid":
        nm = r.choice(["Mesh2", "mesh", "fvcom_mesh"])
        sizes.update({"nMesh2_node": len(f.nodes), "nMesh2_face": len(f.faces), "Three": 3})
        base = r.choice([0, 1])
        G += [(nm, "i4", (), None, {"cf_role": "mesh_topology", "topology_dimension": np.int32(2), "node_coordinates": nm + "_node_x " + nm + "_node_y", "face_node_connectivity": nm + "_face_nodes"}),
              (nm + "_node_x", "f8", ("nMesh2_node",), f.nodes[:, 0], {"standard_name": "longitude"}),
              (nm + "_node_y", "f8", ("nMesh2_node",), f.nodes[:, 1], {"standard_name": "latitude"}),
              (nm + "_face_nodes", "i4", ("nMesh2_face", "Three"), f.faces + base, {"start_index": np.int32(base), "cf_role": "face_node_connectivity"})]
        M.locdims = {"node": ("nMesh2_node",), "face": ("nMesh2_face",)}
        M.gridvars = {nm, nm + "_node_x", nm + "_node_y", nm + "_face_nodes"}
        M.mesh_name = nm
        M.lay += [nm, base]
    else:
        ny, nx = f.lon.shape
        shp = {"node": (ny, nx), "center": (ny + 1, nx + 1), "edge1": (ny + 1, nx), "edge2": (ny, nx + 1)}
        suf = {"node": "psi", "center": "rho", "edge1": "u", "edge2": "v"}
        M.locdims = {k: ("eta_" + s, "xi_" + s) for k, s in suf.items()}
        M.offset = {"node": (0, 0), "center": (1, 1), "edge1": (1, 0), "edge2": (0, 1)}

        def ext(a, loc):
            if loc == "node":
                return a
            c = {"center": lambda: 0.25 * (a[:-1, :-1] + a[1:, :-1] + a[:-1, 1:] + a[1:, 1:]), "edge1": lambda: 0.5 * (a[:-1] + a[1:]), "edge2": lambda: 0.5 * (a[:, :-1] + a[:, 1:])}[loc]()
            return np.pad(c, {"center": ((1, 1), (1, 1)), "edge1": ((1, 1), (0, 0)), "edge2": ((0, 0), (1, 1))}[loc], mode="reflect", reflect_type="odd")

        M.gridvars = set()
        case = str.upper if M.style == "roms" and not map_it and r.random() < 0.2 else str
        M.places = {loc: (ext(f.lon, loc), ext(f.lat, loc)) for loc in suf}
        M.masks = {}
        for loc, s in suf.items():
            sizes.update(dict(zip(M.locdims[loc], shp[loc])))
            for n, a in (("lon_", f.lon), ("lat_", f.lat)):
                G.append((case(n + s), "f8", M.locdims[loc], ext(a, loc), {}))
                M.gridvars.add(case(n + s))
        if M.style == "roms" and not map_it and r.random() < 0.5:
            for loc, sx in suf.items():
                if r.random() < 0.7:
                    # water everywhere
                    how = r.choice([{"option_0": "land", "option_1": "water"}, {"flag_values": np.array([0, 1], "i4"), "flag_meanings": "land water"}])
                    G.append((case("mask_" + sx), r.choice(["i4", "f8"]), M.locdims[loc], np.ones(shp[loc]), how))
                    M.gridvars.add(case("mask_" + sx))
                    M.masks[loc] = case("mask_" + sx)
                    ctx.event("mask_variable")
        if M.style == "sgrid":
            G.append(("grid", "i4", (), None, {
                "cf_role": "grid_topology", "topology_dimension": np.int32(2), "node_dimensions": "xi_psi eta_psi",
                "face_dimensions": "xi_rho: xi_psi (padding: both) eta_rho: eta_psi (padding: both)",
                "edge1_dimensions": "xi_u: xi_psi eta_u: eta_psi (padding: both)",
                "edge2_dimensions": "xi_v: xi_psi (padding: both) eta_v: eta_psi",
                "node_coordinates": "lon_psi lat_psi", "face_coordinates": "lon_rho lat_rho", "edge1_coordinates": "lon_u lat_u", "edge2_coordinates": "lon_v lat_v"}))
            M.gridvars.add("grid")
    M.mapping = None
    if map_it:
        new = {}
        M.mapping = {}
        for k, e in enumerate(G):
            nn = r.choice(["Coord%d", "g%d", "GRID_%d", "axis_%d_of_grid"]) % k
            role = {"rect": ("node_lon", "node_lat"), "fvcom": ("node_lon", "node_lat", "faces")}.get(M.style)
            if M.style == "roms":
                role = [a + b for a in ("node", "center", "edge1", "edge2") for b in ("_lon", "_lat")]
            new[e[0]] = nn
            M.mapping[role[k]] = nn
        G = [(new[e[0]],) + e[1:] for e in G]
        M.gridvars = set(new.values())
        if M.style == "rect":
            M.mapping["grid_type"] = r.choice(["rgrid", "Rectangular"])
        keys = sorted(M.mapping)
        r.shuffle(keys)
        M.mapping = {k: M.mapping[k] for k in keys}
        M.lay.append("mapped")
    # depth
    M.L = None
    if depth == "sigma" and M.style in ("rect", "ugrid"):
        depth = "levels"
    M.depth = depth
    if depth == "levels":
        n = r.randint(2, 5)
        L = np.cumsum(rng.uniform(0.5, 20, n))
        L -= L[0]
        if r.random() < 0.5:
            L = L[::-1].copy()
        zn = r.choice(["depth", "depth_levels", "Depth"])
        zd = r.choice([zn, "lev"])
        sizes[zd] = n
        G.append((zn, "f8", (zd,), L, {}))
        M.L, M.zdims = L, {"levels": zd}
    elif depth == "sigma":
        n = r.randint(2, 5)
        M.n = n
        if M.style == "fvcom":
            sizes.update({"siglay": n, "siglev": n + 1})
            ex = rng.uniform(0.7, 1.5, len(f.nodes)) if r.random() < 0.5 else np.full(len(f.nodes), r.uniform(0.7, 1.5))
            lev = np.array([-((k / n) ** ex) for k in range(n + 1)])
            lay = 0.5 * (lev[1:] + lev[:-1])
            M.h = rng.uniform(5, 100, len(f.nodes))
            std = {"standard_name": "ocean_sigma/general_coordinate"} if r.random() < 0.7 else {}
            hs = {"standard_name": "sea_floor_depth_below_geoid"} if r.random() < 0.7 else {}
            P = [("siglay", "f8", ("siglay", "node"), lay, std), ("siglev", "f8", ("siglev", "node"), lev, std), ("h", "f8", ("node",), M.h, hs)]
            if r.random() < 0.7:
                P += [("siglay_center", "f8", ("siglay", "nele"), lay[:, f.faces].mean(2) * 0.9, std), ("siglev_center", "f8", ("siglev", "nele"), lev[:, f.faces].mean(2) * 0.9, std),
                      ("h_center", "f8", ("nele",), M.h[f.faces].mean(1) + 7, hs)]
            r.shuffle(P)
            G += P
            M.sig = {"levels": lev, "layers": lay}
            M.zdims = {"levels": "siglev", "layers": "siglay"}
            M.zdim_space = ("node",)
        else:
            sizes.update({"s_rho": n, "s_w": n + 1})
            sw = np.linspace(-1, 0, n + 1)
            sr = 0.5 * (sw[1:] + sw[:-1])
            th = r.uniform(0.1, 4)
            C = lambda s: np.sinh(th * s) / np.sinh(th)
            M.hc = r.choice([r.uniform(0.1, 4.9), r.uniform(0.1, 4.9), r.uniform(20, 150)])
            M.h = rng.uniform(5, 100, shp["center"])
            P = [("s_w", "f8", ("s_w",), sw, {}), ("s_rho", "f8", ("s_rho",), sr, {}), ("Cs_w", "f8", ("s_w",), C(sw), {}), ("Cs_r", "f8", ("s_rho",), C(sr), {}),
                 ("hc", "f8", (), M.hc, {}), ("h", "f8", M.locdims["center"], M.h, {})]
            r.shuffle(P)
            G += P
            M.s = {"levels": (sw, C(sw)), "layers": (sr, C(sr))}
            M.zdims = {"levels": "s_w", "layers": "s_rho"}
            M.zdim_space = M.locdims["center"]
    M.junk = []
    if junk:
        used = set(sizes.values()) | {nt}
        free = [k for k in range(2, 60) if k not in used and not any(abs(k - u) <= 1 for u in used)]
        a, b = r.sample(free, 2) if len(free) > 1 else (61, 64)
        sizes.update({"station": a, "namelen": b})
        J = [("crs", "i4", (), 0, {"grid_mapping_name": "latitude_longitude"}), ("station_names", "S1", ("station", "namelen"), np.full((a, b), b"x"), {}),
             ("station_depth", "f8", ("station",), np.arange(a), {"units": "m"}), ("flag", "i4", (), 3, {})]
        J = [e for e in J if r.random() < 0.7]
        G += J
        M.junk = [e[0] for e in J]
    if junk and r.random() < 0.4:
        # on the grid, but the attribute does not say where on the grid
        ld = M.locdims[r.choice(sorted(M.locdims))]
        G.append(("survey", "f8", ld, rng.normal(size=tuple(sizes[k] for k in ld)), {"location": r.choice(["Monterey Bay", "offshore", "", "Node", "nodes"])}))
        ctx.event("odd_location")
    if junk and r.random() < 0.5:
        # the dimensions of a place on the grid, in an order that is not
        ld = M.locdims[r.choice(sorted(M.locdims))]
        places = [tuple(sizes[k] for k in v) for v in M.locdims.values()]
        if kind == "U":
            ld = ld + (next(k for k in sizes if k.lower() == "three"),)
            ok = 3 not in [q[0] for q in places]
        else:
            ld = ld[::-1]
            ok = kind == "S" and tuple(sizes[k] for k in ld) not in places
        if ok:
            G.append(("turned", "f8", ld, rng.normal(size=tuple(sizes[k] for k in ld)), {}))
            M.junk.append("turned")
            if kind == "U":
                G.append(("unturned", "f8", ld[::-1], rng.normal(size=tuple(sizes[k] for k in ld[::-1])), {}))
                M.onmore = ["unturned"]
            ctx.event("turned")
    M.extra_locs = {}
    if junk and M.style == "ugrid":
        # values on edges or boundaries: only the attribute says so
        for loc in ("edge", "boundary"):
            if r.random() < 0.5:
                n = next(k for k in range(7, 99) if k not in sizes.values() and k != nt)
                sizes["nMesh2_" + loc] = n
                M.extra_locs[loc] = ("nMesh2_" + loc,)
                G.append((loc + "_flux", "f8", ("nMesh2_" + loc,), np.arange(n) * 1.5, {"location": loc, "mesh": M.mesh_name}))
    M.aux = [g[0] for g in G if g[0] not in M.gridvars]
    order = list(G)
    r.shuffle(order)
    # data
    M.vars = {}
    D = []
    locs = sorted(M.locdims)

    def add(name, loc, timed, z, attrs, dt="f8"):
        swap = M.style == "rect" and r.random() < 0.3
        dims = M.locdims[loc]
        shape = tuple(sizes[k] for k in dims)
        if swap:
            dims = dims[::-1]
            shape = shape[::-1]
        lead, ls = [], []
        if timed:
            lead.append(M.tname)
            ls.append(nt)
        if z:
            lead.append(M.zdims[z])
            ls.append(sizes[M.zdims[z]])
        data = rng.normal(size=tuple(ls) + shape) * f.amp
        if dt == "f4":
            data = data.astype("f4").astype("f8")
        elif dt == "packed":
            data = np.round(np.clip(data / f.amp * 50, -9000, 9000)) * attrs["scale_factor"] + attrs["add_offset"]
        M.vars[name] = dict(loc=loc, timed=timed, z=z, data=data, swap=swap, attrs=attrs, dims=tuple(lead) + dims, dt=dt)
        D.append((name, dt, tuple(lead) + dims, data, attrs))

    M.add = add
    if depth == "sigma":
        # the free surface, on the nodes or the centers
        sh = tuple(sizes[k] for k in M.zdim_space)
        M.zeta = rng.uniform(-1, 1, (nt,) + sh)
        D.append(("zeta", "f8", (M.tname,) + M.zdim_space, M.zeta, {}))
        M.aux.append("zeta")
    names = names or r.sample(["temp", "salt", "Chlorophyll", "u_wind", "q", "WATER", "data_1"], r.randint(1, 3))
    if junk and r.random() < 0.4:
        # data whose names are almost those of the grid's variables
        gv = r.choice(sorted(M.gridvars))
        new = r.choice([gv[:-1], gv[1:], gv + "2", gv + "_err", "my_" + gv] + ([gv.upper(), gv.swapcase()] if M.style in ("ugrid", "sgrid") else []))
        if new and new[0].isalpha() and new not in M.gridvars and new.lower() not in ("lon", "lat", "time", "node_lon", "node_lat", "grid") and new not in [e[0] for e in G]:
            names = names + [new]
            ctx.event("near_name")
    for n in names:
        loc = r.choice(locs)
        attrs = {}
        if r.random() < 0.6:
            attrs["units"] = r.choice(["degC", "m s-1", "1", "PSU", "m"])
        if r.random() < 0.5:
            attrs["long_name"] = n + r.choice([" of something", " of something", " (mean) ", "/2"])
        if r.random() < 0.4:
            attrs["standard_name"] = r.choice(["sea_water_temperature", "sea_water_salinity", "air_pressure"])
        if r.random() < 0.4:
            attrs["valid_number"] = 7.0
        if r.random() < 0.4:
            attrs["valid_range"] = r.choice([np.array([-1e9, 1e9]), np.array([-1e9, 1e9]), np.array([-1e8, 1e8, 1e9])])
        if M.style == "ugrid" and (same or r.random() < 0.5):
            attrs["location"] = loc
            attrs["mesh"] = M.mesh_name
        if M.style == "sgrid" and r.random() < 0.5:
            attrs["grid"] = "grid"
            attrs["location"] = {"center": "face"}.get(loc, loc)
        z = None
        if depth == "levels" and r.random() < 0.7:
            z = "levels"
        elif depth == "sigma" and r.random() < 0.7:
            z = r.choice(["levels", "layers"])
        timed = r.random() < 0.7 or split == "list"
        if timed and M.tname in ("time",) and r.random() < 0.3:
            attrs["time"] = M.tname
        dt = r.choice(["f8", "f8", "f4", "packed"])
        if dt == "packed":
            attrs.update(scale_factor=r.choice([0.5, 0.001, 4.0]) * f.amp, add_offset=r.choice([0.0, 20.0, -7.5]))
        add(n, loc, timed, z, attrs, dt)
    if kind == "U":
        grid = {len(f.nodes), len(f.faces)}
        if nt in grid or any(n in grid for k, n in sizes.items() if (k,) not in M.locdims.values()):
            raise Skip()
    r.shuffle(D)
    sz = list(sizes.items())
    r.shuffle(sz)
    for steps, path in parts:
        with nc4.Dataset(path, "w", format=fmt) as nd:
            isgrid = split == "grid" and steps is None
            isdata = split == "grid" and steps is not None
            for k, v in sz:
                nd.createDimension(k, v)

            def put(entry, time=None):
                n, dt, dims, a, at = entry
                v = nd.createVariable(n, "i2" if dt == "packed" else dt, dims)
                v.setncatts(at)
                if a is not None:
                    v[...] = a if time is None else a[time]

            if not isdata:
                for e in order:
                    put(e)
            if not isgrid:
                nd.createDimension(M.tname, None if r.random() < 0.5 or split == "list" else nt)
                v = nd.createVariable(M.tname, "f8", (M.tname,))
                v.units = "minutes since 2000-01-01 00:00:00"
                v[:] = [(M.ts[k] - datetime(2000, 1, 1)).total_seconds() / 60 for k in steps]
                for e in D:
                    put(e, steps if M.tname in e[2] else None)
            nd.setncatts(M.atts)
    M.sizes = sizes
    M.G, M.D = G, D
    M.lay = tuple(M.lay) + (M.tname, depth, split)
    return M


def profile(M, k, t, which="levels"):
    """reference depths below the moving surface at point k"""
    if M.depth == "levels":
        return M.L
    wt = gen.time_weights(M.ts, t)
    nw = M.f.NW[k]
    if M.style == "fvcom":
        h, z = M.h, np.tensordot(wt, M.zeta, 1)
    else:
        av = lambda a: 0.25 * (a[:-1, :-1] + a[1:, :-1] + a[:-1, 1:] + a[1:, 1:])
        nodal = getattr(M, "zeta_nodes", None)
        h, z = av(M.h), av(np.tensordot(wt, M.zeta, 1)) if nodal is None else np.tensordot(wt, nodal, 1)
    hp = sum(a * h[i] for i, a in nw)
    zp = sum(a * z[i] for i, a in nw)
    if M.style == "fvcom":
        sg = sum(a * M.sig[which][:, i[0]] for i, a in nw)
        return -(zp + hp) * sg
    s, C = M.s[which]
    return -(zp + hp) * (M.hc * s + hp * C) / (M.hc + hp)
