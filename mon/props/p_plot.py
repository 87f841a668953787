"""C23 pictures of a grid, and the FVCOM inspector with its log of picked cells."""

import contextlib
import csv
import io
import os
import pathlib
import re

import netCDF4 as nc4
import numpy as np

from gridded.grids import Grid_S, Grid_U
from gridded.pysgrid.sgrid import SGrid
from gridded.pyugrid.ugrid import UGrid

from .. import gen
from ..core import Skip, prop
from .p_ugrid_io import ref_topology

C23 = prop(
    "C23",
    "seeded triangle meshes and curvilinear grids drawn on off-screen axes with every option, and seeded FVCOM files (any longitude range) opened "
    "in the inspector and clicked inside and outside of elements, with other buttons and beside the axes; what is drawn is read back from the "
    "artists as segments, marks and texts; distinct by mesh and options",
    ["triangle meshes of whole files with other than 3 elements for the inspector", "rho_points and edge_points (not implemented by the code) are not drawn"],
)


def _key(p):
    return tuple(np.round(np.asarray(p, float), 9).tolist())


def _close(p, others, tol=3e-9):
    return any(abs(p[0] - q[0]) < tol and abs(p[1] - q[1]) < tol for q in others)


def _visible(artist):
    return artist.get_visible() and artist.get_alpha() != 0


def _drawn(ax):
    """({color: set of undirected segments}, [marks], [(text, position)])"""
    from matplotlib.collections import LineCollection, PathCollection
    from matplotlib.colors import to_rgba

    segs, marks = {}, []

    def add(color, path):
        path = np.asarray(path, float)
        for a, b in zip(path[:-1], path[1:]):
            if np.isfinite(a).all() and np.isfinite(b).all():
                segs.setdefault(to_rgba(color), set()).add(tuple(sorted((_key(a), _key(b)))))

    for ln in ax.lines:
        if not _visible(ln):
            continue
        xy = np.ma.filled(np.ma.asarray(ln.get_xydata(), float), np.nan)
        if ln.get_linestyle() not in ("None", "", " ", None) and ln.get_linewidth() > 0 and to_rgba(ln.get_color())[3] > 0:
            add(ln.get_color(), xy)
        if ln.get_marker() not in ("None", "", " ", None) and ln.get_markersize() > 0:
            marks += [_key(p) for p in xy if np.isfinite(p).all()]
    for c in ax.collections:
        if not _visible(c):
            continue
        if isinstance(c, LineCollection):
            cols, width = c.get_colors(), c.get_linewidths()
            for n, s in enumerate(c.get_segments()):
                if cols[n % len(cols)][3] > 0 and width[n % len(width)] > 0:
                    add(cols[n % len(cols)], s)
        elif isinstance(c, PathCollection) and np.all(np.asarray(c.get_sizes()) > 0):
            marks += [_key(p) for p in np.asarray(c.get_offsets(), float)]
    return segs, marks, [(t.get_text(), _key(t.xy if hasattr(t, "xy") else t.get_position())) for t in ax.texts]


def _axes():
    from matplotlib.figure import Figure

    return Figure().add_subplot()


def _sides(nodes, pairs):
    return {tuple(sorted((_key(nodes[a]), _key(nodes[b])))) for a, b in pairs}


@C23.scenario(quick=120, thorough=2000, needs=["three_faces", "boundaries", "node_numbers", "face_numbers", "stored"])
def mesh_pictures(ctx):
    from gridded.plotting.mpl_plotting import plot_ugrid

    r, rng = ctx.r, ctx.rng
    nodes, faces, _, desc = gen.tri_mesh(ctx, nmax=25)
    if r.random() < 0.4:
        faces = faces[: r.randint(1, 4)]
    if len(faces) == 3:
        ctx.event("three_faces")
    kw = {}
    by = ref_topology([tuple(int(i) for i in f) for f in faces])
    bounds = None
    if r.random() < 0.6:
        edge = sorted(s for s, v in by.items() if len(v) == 1)
        bounds = np.array(edge, np.int32)[rng.permutation(len(edge))][: r.choice([len(edge), 1, 2])]
        kw["boundaries"] = bounds.copy()
        ctx.event("boundaries")
    centers = nodes[faces].mean(axis=1)
    if r.random() < 0.3:
        centers = centers + rng.uniform(-0.01, 0.01, centers.shape)
        kw["face_coordinates"] = centers.copy()
    keep = {k: v.copy() for k, v in kw.items()}
    sn, sf = nodes.copy(), faces.copy()
    if r.random() < 0.3:
        # the same mesh, stored in another way
        sf = gen.restore(r, sf, ints=("u1", "i2", "i8", "u4"), masked=False)[1]
        kw = {k: (gen.restore(r, v, ints=("i2", "i8"), lists=True, masked=False)[1] if k == "boundaries" else v) for k, v in kw.items()}
        ctx.event("stored")
    g = r.choice([UGrid, Grid_U])(nodes=sn, faces=sf, **kw)
    ax = _axes()
    opt = {k: True for k in ("nodes", "node_numbers", "face_numbers") if r.random() < 0.5}
    plot_ugrid(ax, g, **opt)
    segs, marks, texts = _drawn(ax)
    want = _sides(nodes, by)
    if bounds is None:
        ctx.check(list(segs.values()) == [want], "mesh_lines", got=[len(s) for s in segs.values()], want=len(want), faces=len(faces))
    else:
        wb = _sides(nodes, bounds.tolist())
        ctx.check(len(segs) == 2 and want in segs.values() and wb in segs.values(), "mesh_and_boundary_lines", got=sorted(len(s) for s in segs.values()), want=(len(want), len(wb)))
    ctx.check(sorted(marks) == (sorted(_key(p) for p in nodes) if "nodes" in opt else []), "node_marks", got=len(marks), want=len(nodes), opt=sorted(opt))
    wt = []
    if "node_numbers" in opt:
        wt += [(str(i), _key(p)) for i, p in enumerate(nodes)]
        ctx.event("node_numbers")
    if "face_numbers" in opt:
        wt += [(str(i), _key(p)) for i, p in enumerate(centers)]
        ctx.event("face_numbers")
    ctx.check(sorted(texts) == sorted(wt), "numbers", got=sorted(texts)[:4], want=sorted(wt)[:4], opt=sorted(opt))
    ctx.check(np.array_equal(g.nodes, nodes) and np.array_equal(g.faces, faces), "drawing_changed_the_mesh")
    ctx.check(all(np.array_equal(getattr(g, k), v) for k, v in keep.items()) and g.edges is None and (bounds is not None or g.boundaries is None), "drawing_changed_the_rest")
    x, y = ax.get_xlim(), ax.get_ylim()
    u = nodes[np.unique(faces)]
    ctx.check(x[0] <= u[:, 0].min() and u[:, 0].max() <= x[1] and y[0] <= u[:, 1].min() and u[:, 1].max() <= y[1], "axes_cover_mesh", x=x, y=y)
    ctx.sig(desc, len(faces), sorted(opt), bounds is None, round(float(nodes[0, 0]), 6))


@C23.scenario(quick=80, thorough=1000, needs=["square", "oblong"])
def grid_pictures(ctx):
    from gridded.plotting.mpl_plotting import plot_sgrid

    r = ctx.r
    lon, lat, desc = gen.quad_grid(ctx, nmax=6)[:3]
    g = r.choice([SGrid, Grid_S])(node_lon=lon.copy(), node_lat=lat.copy())
    ax = _axes()
    dots = r.random() < 0.5
    plot_sgrid(ax, g, **({"nodes": True} if dots else {}))
    segs, marks, texts = _drawn(ax)
    ny, nx = lon.shape
    ctx.event("square" if ny == nx else "oblong")
    xy = np.stack((lon, lat), -1)
    want = {tuple(sorted((_key(xy[j, i]), _key(xy[j, i + 1])))) for j in range(ny) for i in range(nx - 1)}
    want |= {tuple(sorted((_key(xy[j, i]), _key(xy[j + 1, i])))) for j in range(ny - 1) for i in range(nx)}
    got = set().union(*segs.values()) if segs else set()
    ctx.check(got == want, "grid_lines", got=len(got), want=len(want), shape=lon.shape)
    ctx.check(sorted(marks) == (sorted(_key(p) for p in xy.reshape(-1, 2)) if dots else []), "node_marks", got=len(marks), want=lon.size)
    x, y = ax.get_xlim(), ax.get_ylim()
    ctx.check(x[0] <= lon.min() and lon.max() <= x[1] and y[0] <= lat.min() and lat.max() <= y[1], "axes_cover_grid", x=x, y=y)
    ctx.sig(desc, lon.shape, dots, round(float(lon[0, 0]), 6))


def _fvcom(ctx, path):
    """a file of a triangle mesh; (nodes as displayed, faces)"""
    r, rng = ctx.r, ctx.rng
    xy, faces, _, desc = gen.tri_mesh(ctx, nmax=25)
    used = np.unique(faces)
    if len(faces) == 3 or len(used) < 4:
        raise Skip()
    num = np.full(len(xy), -1)
    num[used] = np.arange(len(used))
    faces, xy = num[faces], xy[used]
    size = xy.max(axis=0) - xy.min(axis=0)
    xy = (xy - xy.min(axis=0)) / size * r.choice([0.5, 3.0, 8.0])
    west = r.choice(["small", "east", "west", "west_360", "dateline_360", "straddles_0", "globe_360", "origin"])
    if west == "globe_360":
        # once around, starting at the prime meridian
        xy *= np.array([r.choice([300, 350, 359]), 60]) / xy.max(axis=0)
    if west == "origin":
        # the first element is around 0, 0
        xy -= xy[faces[0]].mean(axis=0)
    else:
        xy += [{"small": 10, "east": 150, "west": -90, "west_360": 270, "dateline_360": 176, "straddles_0": -2, "globe_360": 0}[west], r.choice([-40, 10, 20])]
    ctx.event(west)
    single = r.random() < 0.3
    if single:
        xy = xy.astype("f4").astype("f8")
        ctx.event("single_precision")
    n, m, k = len(xy), len(faces), r.choice([1, 2, 4])
    with nc4.Dataset(path, "w") as d:
        for nm, sz in (("node", n), ("nele", m), ("three", 3), ("siglay", k), ("siglev", k + 1)):
            d.createDimension(nm, sz)
        d.createVariable("lon", "f4" if single else "f8", ("node",))[:] = xy[:, 0]
        d.createVariable("lat", "f4" if single else "f8", ("node",))[:] = xy[:, 1]
        d.createVariable("nv", "i4", ("three", "nele"))[:] = faces.T + 1
        d.createVariable("h", "f8", ("node",))[:] = 5
        lev = -np.linspace(0, 1, k + 1)
        d.createVariable("siglev", "f8", ("siglev", "node"))[:] = lev[:, None]
        d.createVariable("siglay", "f8", ("siglay", "node"))[:] = ((lev[1:] + lev[:-1]) / 2)[:, None]
    shown = xy.copy()
    shown[:, 0] = np.where(xy[:, 0] > 180, xy[:, 0] - 360, xy[:, 0])
    return xy, shown, faces, west, desc, 1e-4 if single else 3e-9


class Click:
    def __init__(self, x, y, button=1):
        self.xdata, self.ydata, self.button = x, y, button


@C23.scenario(quick=60, thorough=700, needs=["inside", "outside", "ignored", "west_360", "dateline_360", "west", "reopened", "spill_marked", "spill_on_meridian", "across_dateline", "globe_360", "click_at_zero", "single_precision"])
def inspector(ctx):
    """every click in an element is logged with that element, its nodes and their places; no other click is"""
    from matplotlib import pyplot as plt

    from gridded.plotting import mpl_plotting as mp

    r, rng = ctx.r, ctx.rng
    stem = r.choice(["fv", "fv", "fv.run2", "grid.nc", "a b"])
    path = os.path.join(ctx.tmp(), stem + ".nc")
    xy, shown, faces, west, desc, tol = _fvcom(ctx, path)
    log = os.path.join(os.path.dirname(path), stem + "_selected_cell.csv")
    if r.random() < 0.4:
        with open(log, "w") as f:
            f.write("old,log\n1,2\n")
        ctx.event("reopened")
    with contextlib.redirect_stdout(io.StringIO()):
        spill = None
        if r.random() < 0.5:
            f = faces[r.randrange(len(faces))]
            spill = (rng.dirichlet([1, 1, 1]) @ shown[f]).tolist()
            if shown[:, 0].min() <= 0 <= shown[:, 0].max() and r.random() < 0.3:
                spill[0] = 0.0
                ctx.event("spill_on_meridian")
            spill = r.choice([tuple, list])(spill)
        star = [] if spill is None else [_key(spill)]
        if r.random() < 0.15:
            out = mp.fvcom_inspector(r.choice([path, pathlib.Path(path)]), backend="agg", **({} if spill is None else {"spill_location": spill}))
            ctx.check(_drawn(plt.gcf().axes[0])[1] == star, "spill_mark", got=_drawn(plt.gcf().axes[0])[1], want=star)
            ctx.check(os.path.realpath(str(out)) == os.path.realpath(log), "log_path", got=out)
            plt.close("all")
        v = mp.PureMatplotlibFVCOMViewer(r.choice([path, pathlib.Path(path)]), *([] if spill is None else [spill]))
        try:
            ax = v.ax
            segs, marks, _ = _drawn(ax)
            if spill is not None:
                ctx.event("spill_marked")
            ctx.check(marks == star, "spill_mark", got=marks, want=star)
            want = _sides(shown, ref_topology([tuple(f) for f in faces.tolist()]))
            ctx.check(list(segs.values()) == [want], "inspector_lines", got=[len(s) for s in segs.values()], want=len(want))
            x, y = ax.get_xlim(), ax.get_ylim()
            ctx.check(x[0] <= shown[:, 0].min() and shown[:, 0].max() <= x[1] and y[0] <= shown[:, 1].min() and shown[:, 1].max() <= y[1], "extent", x=x, y=y)
            h = v.grid_helper
            ctx.check(np.array_equal(h.get_triangle_faces(), faces), "faces")
            lines = {tuple(sorted(_key(p) for p in ls.coords)) for ls in h.gen_grid_lines_U().geoms}
            ctx.check(lines == want and len(h.gen_grid_lines_U().geoms) == len(want), "wireframe", got=len(lines), want=len(want))
            rows = []
            for _ in range(r.randint(2, 6)):
                what = r.choice(["inside", "inside", "inside", "outside", "ignored"])
                ctx.event(what)
                f = r.randrange(len(faces))
                w = rng.dirichlet([2, 2, 2])
                w = 0.9 * w + 0.1 / 3
                p = w @ xy[faces[f]]
                if what == "outside":
                    p = xy[r.randrange(len(xy))] + [0, r.choice([-70, 70])]
                lon = p[0] - 360 if p[0] > 180 else p[0]
                if np.ptp(xy[faces[f], 0]) > 170:
                    continue  # which way around?
                if west == "origin" and what == "inside" and r.random() < 0.6:
                    f, lon, p = 0, 0.0, np.zeros(2)
                    ctx.event("click_at_zero")
                ev = Click(lon, p[1])
                if what == "ignored":
                    ev = r.choice([Click(lon, p[1], 3), Click(lon, p[1], 2), Click(None, None)])
                v.on_click(ev)
                if what == "inside":
                    nd = faces[f]
                    mid = xy[nd, 0].mean()
                    if np.ptp(shown[nd, 0]) > 180:
                        ctx.event("across_dateline")
                    rows.append([f, shown[nd, 1].mean(), mid - 360 if mid > 180 else mid] + [q for i in nd for q in (i, shown[i, 1], shown[i, 0])])
                    ctx.check(len(ax.patches) == 1, "one_highlight", got=len(ax.patches))
                    poly = np.asarray(ax.patches[0].get_xy(), float)
                    ctx.check({_key(q) for q in poly} == {_key(q) for q in shown[nd]}, "highlight", got=poly, want=shown[nd])
                    _, marks, texts = _drawn(ax)
                    middles = [_key(q[2:0:-1]) for q in rows]  # of this element, maybe also of those before
                    must = star + [_key(q) for q in shown[nd]]
                    left = [q for q in marks if q not in middles and not _close(q, middles, tol)]
                    ctx.check(sorted(left) == sorted(must), "marked_nodes", got=marks, want=shown[nd])
                    ctx.check(_close(middles[-1], marks, tol), "marked_element", got=marks, want=middles[-1])
                    told = [t for t, q in texts if _close(q, [_key((lon, p[1]))]) and "Face" in t]
                    ctx.check(len(told) == 1 and len(texts) == 4 and re.findall(r"[0-9]+", told[0]) == [str(q) for q in (f, *nd)], "callout", got=texts, want=(f, nd))
                    for i in nd:
                        here = [t for t, q in texts if q == _key(shown[i])]
                        ctx.check(len(here) == 1 and here[0].split()[-1] == str(i), "node_label", got=here, want=int(i))
            with open(log) as f:
                got = list(csv.reader(f))
            ctx.check(bool(got) and got[0] == ["nele", "nele_lat", "nele_lon"] + [s % (k,) for k in (1, 2, 3) for s in ("node%d", "node%d_lat", "node%d_lon")], "log_header", got=got[:1])
            ctx.check(len(got) - 1 == len(rows), "log_rows", got=len(got) - 1, want=len(rows))
            for a, b in zip(got[1:], rows):
                ctx.check(len(a) == len(b) and np.allclose([float(q) for q in a], b, rtol=0, atol=max(tol, 1e-9) if tol > 1e-8 else 1e-9), "log_row", got=a, want=b)
        finally:
            plt.close("all")
    ctx.sig(desc, west, len(faces), rows[0][:3] if rows else None)
