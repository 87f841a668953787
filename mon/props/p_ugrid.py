"""C05 locating points on unstructured meshes, C06 interpolating on them."""

import numpy as np

from gridded.grids import Grid_U
from gridded.pyugrid.ugrid import UGrid
from gridded.variable import Variable

from .. import gen
from ..core import prop

EPS = 1e-7

C05 = prop(
    "C05",
    "seeded triangulations (Delaunay, structured, strips, graded, two parts; holed; CW/CCW/mixed; shuffled numbering; degrees, "
    "projected metres or 0-360 longitudes) queried with points inside, on nodes and edges, in holes, outside near and far; "
    "non-trivial if some query is strictly inside an element and some is off the mesh; distinct by (mesh, queries)",
    ["elements with area > 1e-3 of their longest side squared", "queries within 1e-7 (barycentric) of an element border may be given to either side"],
)


def _mk(ctx, nodes, faces, cls=None):
    cls = cls or ctx.r.choice([UGrid, Grid_U])
    k = ctx.r.randrange(3)
    f = faces
    if k == 1:
        f = faces.tolist()
    if ctx.r.random() < 0.4:
        return cls(node_lon=nodes[:, 0], node_lat=nodes[:, 1], faces=f)
    return cls(nodes=nodes if k else nodes.tolist(), faces=f)


def _decide(ctx, B, n, got, kind, slack_out=EPS, **d):
    """got face for point n given barycentric coordinates B[n] (nfaces,3)"""
    m = B[n].min(axis=1)
    strict = np.flatnonzero(m > EPS)
    touch = np.flatnonzero(m > -slack_out)
    got = int(got)
    if len(strict):
        ctx.event("strictly_inside")
        return ctx.check(got in touch, kind + ":inside", got=got, want=touch.tolist(), **d)
    if len(touch) == 0:
        ctx.event("strictly_outside")
        return ctx.check(got == -1, kind + ":outside", got=got, **d)
    ctx.event("on_border")
    return ctx.check(got == -1 or got in touch, kind + ":border", got=got, want=touch.tolist(), **d)


@C05.scenario(quick=700, thorough=12000, needs=["strictly_inside", "strictly_outside", "on_border"])
def locate(ctx):
    r = ctx.r
    nodes, faces, dropped, desc = gen.tri_mesh(ctx, nmax=300 if r.random() < 0.1 else 80)
    g = _mk(ctx, nodes, faces)
    pts = gen.mesh_points(ctx, nodes, faces, dropped, n=r.choice([1, 5, 40, 40, 200]))
    B = gen.bary(nodes, faces, pts)
    form = r.choice(["array", "list", "tuples", "fortran", "float32ish"])
    q = {"array": pts, "list": pts.tolist(), "tuples": tuple(map(tuple, pts)), "fortran": np.asfortranarray(pts), "float32ish": pts}[form]
    ans = np.asarray(g.locate_faces(q))
    ctx.check(ans.shape == (len(pts),), "shape", got=ans.shape, want=len(pts))
    for n in range(len(pts)):
        _decide(ctx, B, n, ans[n], "celltree", desc=desc, pt=pts[n])
    # order and grouping of the queries do not matter
    perm = ctx.rng.permutation(len(pts))
    ans2 = np.asarray(g.locate_faces(pts[perm]))
    ctx.check(np.array_equal(ans2, ans[perm]), "depends_on_batch", desc=desc)
    # single points: a scalar, the same answer
    for n in ctx.rng.permutation(len(pts))[:3]:
        s = g.locate_faces(pts[n].tolist() if r.random() < 0.5 else pts[n].copy())
        ctx.check(np.ndim(s) == 0, "single_point_scalar", got=s)
        ctx.check(int(np.ravel(s)[0]) == ans[n], "single_point_value", got=s, want=ans[n])
        s2 = g.locate_faces(pts[n].copy())
        ctx.check(np.ndim(s2) == 0 and int(s2) == ans[n], "single_point_repeat", got=s2, want=ans[n])
    io = g.index_of(pts)
    ctx.check(np.array_equal(np.asarray(io), ans), "index_of")
    # nearest node
    d2 = ((pts[:, None] - nodes[None]) ** 2).sum(-1)
    near = np.asarray(g.locate_nodes(pts))
    best = d2.min(axis=1)
    mine = d2[np.arange(len(pts)), near]
    ctx.check(np.all(np.sqrt(mine) <= np.sqrt(best) * (1 + 1e-9) + 1e-12 * np.ptp(nodes)), "nearest_node", desc=desc)
    ctx.event("nearest_node_queries", len(pts))
    ctx.sig(desc, len(nodes), len(faces), len(dropped), pts[:2].tolist())
    ctx.note(mesh=desc, nodes=len(nodes), faces=len(faces), points=len(pts))


@C05.scenario(quick=120, thorough=2000, needs=["simple_method"])
def locate_simple(ctx):
    """the search without the tree must agree with the geometry as well"""
    nodes, faces, dropped, desc = gen.tri_mesh(ctx, nmax=25)
    g = _mk(ctx, nodes, faces)
    pts = gen.mesh_points(ctx, nodes, faces, dropped, n=12)
    B = gen.bary(nodes, faces, pts)
    order = ctx.r.choice([("simple",), ("celltree", "simple"), ("simple", "celltree", "simple")])
    for m in order:
        ans = np.asarray(g.locate_faces(pts, method=m))
        for n in range(len(pts)):
            mn = B[n].min(axis=1)
            if m == "simple" and np.any((mn < -EPS) & (mn > -1e-3)):
                continue  # documented tolerance of the area test
            _decide(ctx, B, n, ans[n], m, desc=desc, pt=pts[n])
            ctx.event(m + "_method")
    with ctx.expect_raises(ValueError, "unknown_method_accepted"):
        g.locate_faces(pts, method=ctx.r.choice(["Simple", "kdtree", "", None]))
    ctx.sig(desc, len(nodes), order, pts[:1].tolist())


@C05.scenario(quick=120, thorough=2000, needs=["in_quad", "off_quads", "in_triangle_beside_quads"])
def quads(ctx):
    """meshes of convex quads, and of quads and triangles"""
    g, pts, nodes, lst, desc, where = _on_quads(ctx)
    if g is None:
        return
    got = np.asarray(g.locate_faces(pts))
    ctx.check(got.shape == (len(pts),), "shape", got=got.shape)
    for n, w in enumerate(where):
        what = "border" if len(w) > 1 else "outside" if -1 in w else "inside"
        ctx.event({"border": "on_side", "outside": "off_quads"}.get(what) or ("in_quad" if len(lst[min(w)]) == 4 else "in_triangle_beside_quads"))
        ctx.check(int(got[n]) in w, "quad:" + what, got=int(got[n]), want=w, desc=desc, pt=pts[n])
    ctx.sig(desc, len(lst), pts[0].tolist())


def _on_quads(ctx):
    """a mesh with quads, points, and the answers (faces or -1) allowed for each"""
    from .p_ugrid_io import any_mesh

    r = ctx.r
    nodes, faces, lst, desc = any_mesh(ctx)
    if desc[0] == "tri":
        return (None,) * 6
    g = r.choice([UGrid, Grid_U])(nodes=nodes.copy(), faces=faces.copy())
    # every quad is two triangles
    tri, owner = [], []
    for i, f in enumerate(lst):
        for t in [f] if len(f) == 3 else [(f[0], f[1], f[2]), (f[0], f[2], f[3])]:
            tri.append(t)
            owner.append(i)
    tri, owner = np.array(tri), np.array(owner)
    pts = gen.mesh_points(ctx, nodes, tri, [], n=15)
    B = gen.bary(nodes, tri, pts)
    where = []
    for b in B:
        mn = b.min(axis=1)
        near = set(owner[mn >= -EPS].tolist())
        if not near:
            where.append({-1})
        elif len(near) == 1 and (mn.max() > EPS or _on_diagonal(b, owner, lst)):
            where.append(near)
        else:
            where.append(near | {-1})
    return g, pts, nodes, lst, desc, where


def _on_diagonal(b, owner, lst):
    """between the two halves of a quad (not at its corners)"""
    k = np.where(b.min(axis=1) >= -EPS)[0]
    if len(k) != 2 or owner[k[0]] != owner[k[1]]:
        return False
    return all((b[j] > EPS).sum() == 2 for j in k)


@C05.scenario(quick=150, thorough=2000, needs=["removed", "remeshed"])
def replaced_mesh(ctx):
    """answers follow the current mesh after nodes/faces are replaced"""
    nodes, faces, dropped, desc = gen.tri_mesh(ctx, nmax=40)
    g = _mk(ctx, nodes, faces)
    pts = gen.mesh_points(ctx, nodes, faces, dropped, n=20)
    g.locate_faces(pts)
    g.locate_nodes(pts)
    k = ctx.r.randrange(3)
    if k == 0:
        nodes = nodes + np.ptp(nodes, axis=0) * ctx.rng.uniform(-0.6, 0.6, 2)
        g.nodes = nodes
    elif k == 1:
        faces = faces[ctx.rng.permutation(len(faces))[: max(1, len(faces) // 2)]]
        g.faces = faces
    else:
        nodes, faces, dropped, _ = gen.tri_mesh(ctx, nmax=40)
        g.faces = None
        g.nodes = nodes
        g.faces = faces
    ctx.event("remeshed")
    if ctx.r.random() < 0.3:
        # nothing to be in
        h = _mk(ctx, nodes, faces)
        h.locate_faces(pts)
        what = ctx.r.choice(["del_faces", "no_faces", "del_nodes"])
        if what == "del_faces":
            del h.faces
        elif what == "no_faces":
            h.faces = None
        else:
            del h.nodes
        try:
            got = np.asarray(h.locate_faces(pts))
        except Exception:  # noqa: B902
            got = np.array([-1])
        ctx.event("removed")
        ctx.check(np.all(got == -1), "located_in_removed_faces", how=what, got=got[:5])
    B = gen.bary(nodes, faces, pts)
    ans = np.asarray(g.locate_faces(pts))
    for n in range(len(pts)):
        _decide(ctx, B, n, ans[n], "after_replace", how=k)
    d2 = ((pts[:, None] - nodes[None]) ** 2).sum(-1)
    near = np.asarray(g.locate_nodes(pts))
    mine = d2[np.arange(len(pts)), near]
    ctx.check(np.all(np.sqrt(mine) <= np.sqrt(d2.min(axis=1)) * (1 + 1e-9) + 1e-12 * np.ptp(nodes)), "nearest_after_replace", how=k)
    ctx.sig(desc, k, len(nodes))


@C05.scenario(quick=150, thorough=2000, needs=["one_based"])
def one_based_faces(ctx):
    """one-based connectivity means the same mesh; the caller's array is left alone"""
    nodes, faces, dropped, desc = gen.tri_mesh(ctx, nmax=40, holes=False)
    used = np.unique(faces)
    nodes = nodes[used]
    faces = np.searchsorted(used, faces).astype(ctx.r.choice([np.int32, np.int64]))
    ob = faces + 1
    keep = ob.copy()
    g = UGrid(nodes=nodes, faces=ob)
    ctx.event("one_based")
    ctx.check(np.array_equal(np.asarray(g.faces), faces), "one_based_faces", desc=desc)
    ctx.check(np.array_equal(ob, keep), "caller_faces_changed")
    z = UGrid(nodes=nodes, faces=faces)
    ctx.check(np.array_equal(np.asarray(z.faces), faces), "zero_based_faces")
    pts = gen.mesh_points(ctx, nodes, faces, [], n=15)
    ctx.check(np.array_equal(np.asarray(g.locate_faces(pts)), np.asarray(z.locate_faces(pts))), "one_vs_zero_based")
    with ctx.expect_raises(ValueError, "out_of_range_faces_accepted"):
        UGrid(nodes=nodes, faces=faces + 2)
    with ctx.expect_raises(ValueError, "negative_faces_accepted"):
        UGrid(nodes=nodes, faces=faces - 2)
    ctx.sig(desc, len(nodes))


@C05.scenario(quick=8, thorough=120, needs=["big_inside", "big_outside", "many_points"])
def big_locate(ctx):
    """more nodes than 16 bits can number, and many points at once"""
    r, rng = ctx.r, ctx.rng
    nodes, faces, desc = gen.big_mesh(ctx)
    g = _mk(ctx, nodes, faces, UGrid)
    n = r.choice([50, 20000])
    which = rng.integers(len(faces), size=n)
    w = rng.uniform(0.01, 1, (n, 3))
    w /= w.sum(1, keepdims=True)
    pts = (nodes[faces[which]] * w[..., None]).sum(1)
    out = rng.random(n) < 0.3
    pts[out] = nodes.max(axis=0) * [1.01, 0.5] + rng.random((out.sum(), 2))
    want = np.where(out, -1, which)
    got = np.asarray(g.locate_faces(pts))
    ctx.check(np.array_equal(got, want), "big_mesh", desc=desc, n=n, wrong=np.flatnonzero(got != want)[:5])
    near = np.asarray(g.locate_nodes(pts[:50]))
    d = np.linalg.norm(nodes[near] - pts[:50], axis=1)
    best = np.array([np.linalg.norm(nodes - p, axis=1).min() for p in pts[:50]])
    ctx.check((d <= best * (1 + 1e-9) + 1e-12).all(), "big_nearest")
    ctx.event("big_inside")
    ctx.event("big_outside") if out.any() else None
    if n > 1000:
        ctx.event("many_points")
    ctx.sig("big", desc, n, pts.tobytes()[:64])


C06 = prop(
    "C06",
    "seeded triangulations with linear and random fields at nodes and faces (1-D, and with extra leading/trailing dimensions), queried "
    "at points inside, on, near and off the mesh, through the grid and through a variable; non-trivial if at least one queried point is "
    "strictly inside an element; distinct by (mesh, field, points)",
    ["elements with area > 1e-3 of their longest side squared", "values compared to 1e-8 relative"],
)


def _ref_node(B, faces, vals, n):
    """admissible values at point n: one per touching face (they agree for continuous data)"""
    m = B[n].min(axis=1)
    strict = np.flatnonzero(m > EPS)
    touch = np.flatnonzero(m > -EPS)
    f = strict if len(strict) else touch
    return strict, [(B[n, k][:, None] * vals[faces[k]].reshape(3, -1)).sum(0) for k in f]


@C06.scenario(quick=8, thorough=120, needs=["big"])
def big_values(ctx):
    """more nodes than 16 bits can number"""
    r, rng = ctx.r, ctx.rng
    nodes, faces, desc = gen.big_mesh(ctx)
    g = _mk(ctx, nodes, faces, r.choice([UGrid, Grid_U]))
    n = r.choice([20, 5000])
    which = rng.integers(len(faces), size=n)
    w = rng.uniform(0.01, 1, (n, 3))
    w /= w.sum(1, keepdims=True)
    pts = (nodes[faces[which]] * w[..., None]).sum(1)
    out = rng.random(n) < 0.3
    pts[out] = nodes.max(axis=0) * [1.01, 0.5] + rng.random((out.sum(), 2))
    a, b = rng.normal(size=len(nodes)), rng.normal(size=len(faces))
    got = np.ma.filled(g.interpolate_var_to_points(pts, a, location="node"), np.nan).reshape(-1)
    ctx.close(got, np.where(out, 0, (a[faces[which]] * w).sum(1)), "big_node_values", rtol=0, atol=1e-6)
    got = np.ma.filled(g.interpolate_var_to_points(pts, b, location="face"), np.nan).reshape(-1)
    ctx.close(got, np.where(out, 0, b[which]), "big_face_values", rtol=0, atol=1e-6)
    ctx.event("big")
    ctx.sig("big", desc, n, pts.tobytes()[:64])


@C06.scenario(quick=600, thorough=10000, needs=["strictly_inside", "strictly_outside", "node_field", "face_field"])
def interpolate(ctx):
    r, rng = ctx.r, ctx.rng
    nodes, faces, dropped, desc = gen.tri_mesh(ctx)
    cls = r.choice([UGrid, Grid_U])
    g = _mk(ctx, nodes, faces, cls)
    pts = gen.mesh_points(ctx, nodes, faces, dropped, n=r.choice([1, 8, 40]))
    B = gen.bary(nodes, faces, pts)
    c = nodes.mean(0)
    sc = np.ptp(nodes, axis=0)
    lin = r.random() < 0.4
    if lin:
        a = rng.normal(size=3)
        vn = a[0] * (nodes[:, 0] - c[0]) / sc[0] + a[1] * (nodes[:, 1] - c[1]) / sc[1] + a[2]
    else:
        vn = rng.normal(size=len(nodes)) * 10 ** r.uniform(-3, 4)
    scale = np.abs(vn).max() + 1e-300
    if r.random() < 0.15:
        vn = np.round(vn / scale * 1000).astype(r.choice([np.int32, np.int64]))
        scale = 1000.0
    via = r.choice(["grid", "grid_infer", "variable"]) if cls is Grid_U else r.choice(["grid", "grid_infer"])
    if len(nodes) == len(faces):
        via = "grid" if via == "grid_infer" else via
    keep = vn.copy()

    def ask(vals, loc):
        if via == "grid":
            return np.asarray(g.interpolate_var_to_points(pts, vals, location=loc)).reshape(-1)
        if via == "grid_infer":
            return np.asarray(g.interpolate_var_to_points(pts.tolist(), vals)).reshape(-1)
        v = Variable(name="x", grid=g, data=vals, location=loc)
        out = v.at(pts, None)
        ctx.check(out.shape == (len(pts), 1), "at_shape", got=out.shape)
        return np.asarray(out).reshape(-1)

    got = ask(vn, "node")
    ctx.event("node_field")
    ctx.check(got.shape == (len(pts),), "result_length", got=got.shape)
    for n in range(len(pts)):
        strict, ok = _ref_node(B, faces, vn.astype(float), n)
        if len(strict):
            ctx.event("strictly_inside")
            ctx.check(np.isfinite(got[n]) and abs(got[n] - ok[0][0]) <= (1e-8 if B[n].min(axis=1).max() > 1e-5 else 1e-4) * scale, "node_value", got=got[n], want=ok[0][0], desc=desc, via=via)
            tri = vn[faces[strict[0]]]
            ctx.check(tri.min() - 1e-6 * scale <= got[n] <= tri.max() + 1e-6 * scale, "beyond_element_extremes", got=got[n])
        elif not ok:
            ctx.event("strictly_outside")
            ctx.check(got[n] == 0, "off_mesh_value", got=got[n], desc=desc)
        else:
            ctx.check(got[n] == 0 or any(abs(got[n] - o[0]) <= 1e-5 * scale for o in ok), "border_value", got=got[n], want=ok, desc=desc)
    ctx.check(np.array_equal(vn, keep), "data_changed")
    # weights
    w = np.asarray(g.interpolation_alphas(pts))
    idx = np.asarray(g.locate_faces(pts))
    ctx.check(w.shape == (len(pts), 3), "alphas_shape", got=w.shape)
    for n in range(len(pts)):
        if idx[n] == -1:
            ctx.check(np.all(w[n] == 0), "alphas_off_mesh", got=w[n])
        else:
            ctx.check(abs(w[n].sum() - 1) < 1e-7 and np.all(w[n] > -1e-5) and np.all(w[n] < 1 + 1e-5), "alphas_convex", got=w[n], desc=desc)
            ctx.close(w[n] @ nodes[faces[idx[n]]], pts[n], "alphas_reproduce_point", rtol=1e-7, atol=1e-7 * sc.max(), desc=desc)
    # face data: the value of the containing element
    vf = rng.permutation(len(faces)) * 1.5 + 1.0
    if not (via == "variable" and len(faces) == len(nodes)):
        gf = ask(vf, "face")
        ctx.event("face_field")
        for n in range(len(pts)):
            m = B[n].min(axis=1)
            strict = np.flatnonzero(m > EPS)
            touch = np.flatnonzero(m > -EPS)
            if len(strict):
                ctx.check(gf[n] in vf[touch], "face_value", got=gf[n], want=vf[strict[0]], desc=desc, via=via)
            elif len(touch) == 0:
                ctx.check(gf[n] == 0, "off_mesh_face_value", got=gf[n])
            else:
                ctx.check(gf[n] == 0 or gf[n] in vf[touch], "border_face_value", got=gf[n])
    ctx.sig(desc, len(nodes), lin, via, pts[0].tolist())
    ctx.note(mesh=desc, nodes=len(nodes), faces=len(faces), via=via)


@C06.scenario(quick=250, thorough=4000, needs=["sliced", "off_mesh_missing"])
def sliced_and_masked(ctx):
    """leading dimensions picked with slices; several columns at once; masked node values"""
    r, rng = ctx.r, ctx.rng
    nodes, faces, dropped, desc = gen.tri_mesh(ctx, nmax=40)
    if len(faces) == len(nodes):
        nodes = np.vstack((nodes, nodes.max(0) + 50))
    g = _mk(ctx, nodes, faces)
    pts = gen.mesh_points(ctx, nodes, faces, dropped, n=12)
    B = gen.bary(nodes, faces, pts)
    nt, nz = r.randint(1, 4), r.randint(1, 4)
    data = rng.normal(size=(nt, nz, len(nodes)))
    t, z = r.randrange(-nt, nt), r.randrange(nz)
    got = np.asarray(g.interpolate_var_to_points(pts, data, location="node", slices=[t, z] if r.random() < 0.0 else (t, z)))
    got1 = np.asarray(g.interpolate_var_to_points(pts, data[:, z], location="node", slices=(t,)))
    cols = data.reshape(-1, len(nodes)).T.copy()
    got2 = np.asarray(g.interpolate_var_to_points(pts, cols, location="node"))
    ctx.check(got2.shape == (len(pts), nt * nz), "columns_shape", got=got2.shape)
    ctx.event("sliced")
    mask = rng.random(len(nodes)) < r.choice([0.3, 0.7])
    md = np.ma.MaskedArray(data[t, z], mask=mask)
    # what is missing elsewhere is no business of points off the mesh
    fmask = rng.random(len(faces)) < r.choice([0.3, 0.7])
    fd = rng.normal(size=len(faces))
    gotf = g.interpolate_var_to_points(pts, np.ma.MaskedArray(fd.copy(), mask=fmask), location="face")
    gotn = g.interpolate_var_to_points(pts, np.where(mask, r.choice([np.nan, np.inf]), data[t, z]), location="node")
    gotfn = g.interpolate_var_to_points(pts, np.where(fmask, np.nan, fd), location="face")
    got3 = g.interpolate_var_to_points(pts, md, location="node")
    filled = np.where(mask, 0.0, data[t, z])
    for n in range(len(pts)):
        strict, ok = _ref_node(B, faces, data[t, z], n)
        if not ok:
            for what, a in (("masked_nodes", got3), ("masked_faces", gotf), ("unusable_nodes", gotn), ("unusable_faces", gotfn)):
                ctx.event("off_mesh_missing")
                ctx.check(not np.ma.getmaskarray(a)[n] and np.ma.getdata(a)[n] == 0, "off_mesh:" + what, got=a[n], desc=desc)
        if not len(strict):
            continue
        k = strict[0]
        touch = np.flatnonzero(B[n].min(axis=1) > -EPS)
        if len(touch) == 1:
            ctx.check(np.ma.getmaskarray(gotf)[n] == fmask[k] and (fmask[k] or gotf[n] == fd[k]), "masked_face_value", got=gotf[n], want=fd[k], masked=fmask[k])
            ctx.check(np.isnan(gotfn[n]) if fmask[k] else gotfn[n] == fd[k], "unusable_face_value", got=gotfn[n])
            if not mask[faces[k]].any():
                ctx.check(abs(gotn[n] - ok[0][0]) < 1e-7, "usable_nodes_value", got=gotn[n], want=ok[0][0])
        ctx.check(abs(got[n] - ok[0][0]) < 1e-7, "sliced_value", got=got[n], want=ok[0][0])
        ctx.check(abs(got1[n] - ok[0][0]) < 1e-7, "sliced_value_1", got=got1[n], want=ok[0][0])
        want = (B[n, k][:, None] * cols[faces[k]]).sum(0)
        ctx.check(np.allclose(got2[n], want, atol=1e-7), "columns_value", got=got2[n], want=want)
        if mask[faces[k]].all():
            ctx.check(np.ma.getmaskarray(got3)[n], "all_masked_element", got=got3[n])
            ctx.event("all_masked_element")
        else:
            want = (B[n, k] * filled[faces[k]]).sum()
            ctx.check(not np.ma.getmaskarray(got3)[n] and abs(got3[n] - want) < 1e-7, "masked_nodes_value", got=got3[n], want=want)
    ctx.sig(desc, nt, nz, t, z, len(nodes))


@C06.scenario(quick=100, thorough=1500, needs=["quad_face_value"])
def on_quads(ctx):
    """face data on meshes of quads, and of quads and triangles"""
    r, rng = ctx.r, ctx.rng
    g, pts, nodes, lst, desc, where = _on_quads(ctx)
    if g is None:
        return
    vals = rng.normal(0, 100, len(lst))
    if len(lst) == len(nodes):
        return
    v = Variable(name="v", grid=g, data=vals.copy(), location="face") if isinstance(g, Grid_U) else None
    got = np.ma.asarray(v.at(pts).ravel() if v is not None else g.interpolate_var_to_points(pts, vals.copy(), location="face"))
    for n, w in enumerate(where):
        if len(w) != 1:
            continue  # on a border
        w = w.copy().pop()
        ctx.event("quad_face_value")
        ctx.check(got[n] == (0 if w == -1 else vals[w]), "quad_face_value", got=got[n], face=w, desc=desc)
    ctx.sig(desc, len(lst), pts[0].tolist())
