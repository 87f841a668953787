"""C15 UGRID save/load, C16 reading UGRID files however they are written, C18 derived connectivity."""

import os
import pathlib

import netCDF4 as nc4
import numpy as np

from gridded import Dataset
from gridded.grids import Grid, Grid_U
from gridded.pyugrid.ugrid import UGrid
from gridded.variable import Variable

from .. import gen
from ..core import Skip, prop


def quad_mesh(ctx, small=None):
    r, rng = ctx.r, ctx.rng
    nx, ny = (r.randint(2, 4), r.randint(2, 3)) if small else (r.randint(2, 8), r.randint(2, 8))
    if "grid" in ctx.big:
        nx, ny = r.randint(3, 60), r.randint(12, 60)
    X, Y = np.meshgrid(np.linspace(0, 1, nx), np.linspace(0, 1, ny))
    xy = np.column_stack((X.ravel(), Y.ravel())) + rng.uniform(-0.15, 0.15, (nx * ny, 2)) / np.array([nx, ny])
    f = np.array([[j * nx + i, j * nx + i + 1, (j + 1) * nx + i + 1, (j + 1) * nx + i] for j in range(ny - 1) for i in range(nx - 1)])
    nodes, place = gen._place(ctx, xy)
    if len(f) > 2 and r.random() < 0.4:
        keep = rng.random(len(f)) < 0.75
        if keep.any():
            f = f[keep]
    perm = rng.permutation(len(nodes))
    inv = np.argsort(perm)
    f = inv[f]
    if r.random() < 0.5:
        f = np.where((rng.random(len(f)) < 0.5)[:, None], f[:, ::-1], f)
    return nodes[perm], f[rng.permutation(len(f))].astype(np.int32), ("quad", place, nx, ny)


def any_mesh(ctx, mixed=True):
    """nodes, faces (masked array for mixed meshes), list of faces as tuples, description"""
    r, rng = ctx.r, ctx.rng
    k = r.random()
    if k < 0.55:
        nodes, faces, _, desc = gen.tri_mesh(ctx, nmax=40)
        if r.random() < 0.4:  # exactly one to four faces: shapes that look like their transpose
            faces = faces[: r.randint(1, 4)]
        return nodes, faces, [tuple(int(i) for i in f) for f in faces], ("tri",) + desc + (len(faces),)
    nodes, faces, desc = quad_mesh(ctx, small=r.random() < 0.5)
    if r.random() < 0.4:
        faces = faces[: r.randint(1, 4)]
    if k < 0.85 or not mixed:
        return nodes, faces, [tuple(int(i) for i in f) for f in faces], desc + (len(faces),)
    # mixed: some quads cut down to a triangle; whatever lies under the mask is not a node
    m = np.zeros(faces.shape, bool)
    m[:, 3] = rng.random(len(faces)) < 0.5
    under = r.choice([-1, -999, 0, 1, len(nodes), 999999, 2**31 - 1, None])
    mf = np.ma.array(faces if under is None else np.where(m, under, faces).astype(faces.dtype), mask=m)
    lst = [tuple(int(i) for i in row[:3]) if m[n, 3] else tuple(int(i) for i in row) for n, row in enumerate(faces)]
    return nodes, mf, lst, ("mixed",) + desc[1:] + (len(faces),)


def sides(face):
    return [tuple(sorted((face[j], face[(j + 1) % len(face)]))) for j in range(len(face))]


def ref_topology(faces):
    by = {}
    for i, f in enumerate(faces):
        for j, s in enumerate(sides(f)):
            by.setdefault(s, []).append((i, j))
    return by


def same(a, b):
    if a is None or b is None:
        return a is None and b is None
    a, b = np.ma.asarray(a), np.ma.asarray(b)
    if a.shape != b.shape:
        return False
    ma, mb = np.ma.getmaskarray(a), np.ma.getmaskarray(b)
    return bool(np.array_equal(ma, mb) and np.array_equal(np.ma.getdata(a)[~ma], np.ma.getdata(b)[~mb]))


# ---------------------------------------------------------------------------
C18 = prop(
    "C18",
    "seeded triangle and quad meshes (holes, disjoint parts, shuffled numbering, mixed orientation, 1..80 faces); every builder run in "
    "random order and again after the mesh is replaced; non-trivial when the mesh has an interior side; distinct by mesh",
    ["two-manifold meshes of triangles, quads or both (closing sides of triangles among quads are left out of the face-edge connectivity)"],
)


def _check_topology(ctx, g, nodes, lst, order):
    by = ref_topology(lst)
    ctx.check(all(len(v) <= 2 for v in by.values()), "harness_mesh_not_manifold")
    for what in order:
        if what == "edges":
            g.build_edges()
            got = [tuple(sorted(int(i) for i in e)) for e in g.edges]
            ctx.check(np.asarray(g.edges).shape == (len(by), 2), "edges_shape", got=np.asarray(g.edges).shape, want=len(by))
            ctx.check(sorted(got) == sorted(by), "edges", got=sorted(got)[:6], want=sorted(by)[:6])
            ctx.event("edges")
            g.build_edge_coordinates()
            ctx.close(g.edge_coordinates, nodes[np.array([list(e) for e in np.asarray(g.edges)])].mean(axis=1), "edge_coordinates", rtol=1e-12)
            lines = np.asarray(g.get_lines())
            ctx.check(lines.shape == (len(by), 2, 2) and np.array_equal(lines, nodes[np.asarray(g.edges)]), "get_lines")
        elif what == "face_face":
            g.build_face_face_connectivity()
            ff = np.asarray(g.face_face_connectivity)
            if not ctx.check(ff.shape == (len(lst), max(map(len, lst))), "face_face_shape", got=ff.shape):
                continue
            for i, f in enumerate(lst):
                for j, s in enumerate(sides(f)):
                    other = [a for a, b in by[s] if a != i]
                    want = other[0] if other else -1
                    ctx.event("neighbor" if other else "no_neighbor")
                    ctx.check(int(ff[i, j]) == want, "face_face", face=i, side=j, got=int(ff[i, j]), want=want)
                ctx.check(np.all(ff[i, len(f) :] == -1), "neighbor_over_no_side", got=ff[i])
        elif what == "boundaries":
            g.build_boundaries()
            want = sorted(s for s, v in by.items() if len(v) == 1)
            b = [] if g.boundaries is None else np.asarray(g.boundaries).reshape(-1, 2)
            got = sorted(tuple(sorted(int(i) for i in x)) for x in b)
            ctx.check(got == want, "boundaries", got=got[:6], want=want[:6], n=(len(got), len(want)))
            ctx.event("boundaries")
            if len(b):
                g.build_boundary_coordinates()
                ctx.close(g.boundary_coordinates, nodes[np.asarray(b)].mean(axis=1), "boundary_coordinates", rtol=1e-12)
        elif what == "face_coordinates":
            g.build_face_coordinates()
            ctx.close(g.face_coordinates, np.array([nodes[list(f)].mean(axis=0) for f in lst]), "face_coordinates", rtol=1e-12)
        elif what == "lines":
            # the edges it has, or those of the mesh
            if g.edges is None:
                ctx.event("lines_without_edges")
            lines = np.asarray(g.get_lines())
            e = np.asarray(g.edges)
            ctx.check(sorted(tuple(sorted(int(i) for i in x)) for x in e) == sorted(by), "edges_for_lines", got=len(e), want=len(by))
            ctx.check(lines.shape == (len(by), 2, 2) and np.array_equal(lines, nodes[e]), "get_lines")
        elif what == "some_edges":
            # the edges given, however few, are those drawn
            e = np.array([s if ctx.r.random() < 0.5 else s[::-1] for s in ctx.r.sample(sorted(by), ctx.r.randint(1, len(by)))], np.int32)
            g.edges = e.copy()
            lines = np.asarray(g.get_lines())
            ctx.check(lines.shape == (len(e), 2, 2) and np.array_equal(lines, nodes[e]) and np.array_equal(g.edges, e), "lines_of_given_edges", got=lines.shape, n=len(e))
            g.build_edge_coordinates()
            ctx.close(g.edge_coordinates, nodes[e].mean(axis=1), "coordinates_of_given_edges", rtol=1e-12)
            g.edges = None
            ctx.event("some_edges")
        elif what == "given_edges":
            e = np.array([s if ctx.r.random() < 0.5 else s[::-1] for s in ctx.r.sample(sorted(by), len(by))], np.int32)
            g.edges = e.copy()
            g.build_face_edge_connectivity()
            fe = np.asarray(g.face_edge_connectivity)
            ctx.check(np.array_equal(g.edges, e), "given_edges_changed")
            ctx.check(fe.shape == (len(lst), len(lst[0])) and all(tuple(sorted(e[fe[i, j]].tolist())) == s for i, f in enumerate(lst) for j, s in enumerate(sides(f))), "face_edge_of_given_edges")
            ctx.event("given_edges")
            g.build_edge_coordinates()
            if ctx.r.random() < 0.5:
                # built again, maybe in another order: what refers to them does so still, or is gone
                g.build_edges()
                e = np.asarray(g.edges)
                fe = g.face_edge_connectivity
                if fe is not None:
                    fe = np.asarray(fe)
                    ctx.check(all(tuple(sorted(e[fe[i, j]].tolist())) == s for i, f in enumerate(lst) for j, s in enumerate(sides(f))), "face_edge_of_edges_built_anew")
                if g.edge_coordinates is not None:
                    ctx.close(g.edge_coordinates, nodes[e].mean(axis=1), "coordinates_of_edges_built_anew", rtol=1e-12)
                ctx.event("edges_built_anew")
        elif what == "face_edge":
            g.build_edges()
            g.build_face_edge_connectivity()
            masked = np.ma.getmaskarray(g.face_edge_connectivity)
            fe = np.ma.getdata(g.face_edge_connectivity)
            e = np.asarray(g.edges)
            most = max(map(len, lst))
            if not ctx.check(fe.shape == (len(lst), most), "face_edge_shape", got=fe.shape):
                continue
            for i, f in enumerate(lst):
                for j, s in enumerate(sides(f)):
                    if len(f) < most and j == len(f) - 1:
                        continue  # the closing side of a face with fewer nodes is left out (masked)
                    ctx.check(not masked[i, j], "face_edge_masked", face=i, side=j)
                    got = tuple(sorted(int(x) for x in e[fe[i, j]]))
                    ctx.check(got == s, "face_edge", face=i, side=j, got=got, want=s)
                ctx.check(masked[i, len(f) :].all(), "edge_over_no_side", got=masked[i])
            ctx.event("face_edge")
    return by


def _stored(ctx, nodes, faces):
    """(the nodes, the nodes as given, the faces as given): the same numbers, stored in some other way now and then"""
    r = ctx.r
    if r.random() < 0.7:
        return nodes, nodes.copy(), faces.copy()
    if r.random() < 0.3:
        nodes = np.round(nodes * 1000.0)
    ctx.event("stored")
    n2 = gen.restore(r, nodes, floats=(), ints=("i4", "i8"), lists=True)[1]
    if np.ma.isMaskedArray(faces):
        t = r.choice(["i4", "i8", ">i4", "i2" if len(nodes) < 30000 else "i4"])
        return nodes, n2, faces.astype(t)
    return nodes, n2, gen.restore(r, faces, ints=("i2", "i4", "i8", "u4"), lists=True, masked=False)[1]


@C18.scenario(quick=250, thorough=5000, needs=["edges", "neighbor", "no_neighbor", "boundaries", "face_edge", "rebuilt", "quads", "lines_without_edges", "given_edges", "some_edges", "replaced_at_once", "mixed", "stored", "edges_built_anew", "saved_after"])
def builders(ctx):
    r = ctx.r
    nodes, faces, lst, desc = any_mesh(ctx)
    faces0 = faces.copy()
    if desc[0] == "quad":
        ctx.event("quads")
    if len(set(map(len, lst))) > 1:
        ctx.event("mixed")
    if desc[0] == "mixed" and len(set(map(len, lst))) == 1:
        return
    cls = r.choice([UGrid, Grid_U])
    nodes, n2, f2 = _stored(ctx, nodes, faces)
    g = cls(nodes=n2, faces=f2)
    todo = ["edges", "face_face", "boundaries", "face_coordinates", "face_edge", "lines", "some_edges"] + ["given_edges"] * (desc[0] != "mixed")
    todo = r.sample(todo, r.randint(3, len(todo)))
    by = _check_topology(ctx, g, nodes, lst, todo)
    ctx.check(np.array_equal(g.nodes, nodes) and same(g.faces, faces0) and same(faces, faces0), "builders_changed_the_mesh")
    if r.random() < 0.5:
        # a new mesh: everything derived can be built again and describes the new one
        nodes2, faces2, lst2, d2 = any_mesh(ctx, mixed=r.random() < 0.5)
        if d2[0] == "mixed" and len(set(map(len, lst2))) == 1:
            return
        how = r.choice(["none", "at_once", "deleted", "all_deleted"])
        if how == "none":
            g.faces = None
        elif how == "deleted":
            del g.faces
        elif how == "all_deleted":
            del g.nodes
            ctx.check(len(g.nodes) == 0 and g.faces is None and g.edges is None and g.boundaries is None, "left_without_nodes")
        ctx.event("replaced_" + how)
        g.nodes = nodes2.copy()
        g.faces = faces2.copy()
        todo = ["edges", "face_face", "boundaries", "face_coordinates", "face_edge"]
        r.shuffle(todo)
        _check_topology(ctx, g, nodes2, lst2, todo)
        ctx.event("rebuilt")
        if how in ("none", "deleted", "all_deleted") or r.random() < 0.5:
            # edges and boundaries of the new mesh: what it has fits together and can be saved
            g.build_edges()
            g.build_boundaries()
            if how == "at_once" and g.face_coordinates is not None:
                g.build_face_coordinates()
            for w, part in (("edge", "edges"), ("boundary", "boundaries")):
                c, p = getattr(g, w + "_coordinates"), getattr(g, part)
                if c is not None and p is not None and len(p):
                    ctx.close(c, nodes2[np.asarray(p)].mean(axis=1), "coordinates_of_the_mesh_before", rtol=1e-12, what=w)
            g.save(os.path.join(ctx.tmp(), "after.nc"))
            ctx.event("saved_after")
    ctx.sig(desc, tuple(lst[0]), round(float(nodes[0, 0]), 6), any(len(v) == 2 for v in by.values()))


@C18.scenario(quick=150, thorough=3000, needs=["wrong_shape", "edges_dropped", "faces_dropped", "boundaries_dropped", "other_faces", "no_faces", "nodes_dropped", "saved"])
def in_step(ctx):
    """what was derived from something goes with it; what does not fit the faces is refused"""
    r = ctx.r
    nodes, faces, lst, desc = any_mesh(ctx, mixed=False)
    g = r.choice([UGrid, Grid_U])(nodes=nodes.copy(), faces=faces.copy())
    n, most = faces.shape
    g.build_edges()
    g.build_edge_coordinates()
    g.build_boundaries()
    g.build_boundary_coordinates()
    g.build_face_coordinates()
    g.build_face_edge_connectivity()
    g.build_face_face_connectivity()
    for name in ("face_face_connectivity", "face_edge_connectivity"):
        kept = np.array(getattr(g, name))
        d0, d1 = r.choice([(1, 0), (0, 1), (-1, 0), (0, -1), (1, 1)])
        bad = np.zeros((n + d0, most + d1), np.int32)
        try:
            setattr(g, name, bad if r.random() < 0.5 else bad.tolist())
        except ValueError:
            ctx.event("wrong_shape")
        else:
            # an empty list has no second dimension: all the same not the shape of the faces
            ctx.check(False, "wrong_shape_taken", what=name, shape=bad.shape, faces=faces.shape)
        ctx.check(np.array_equal(getattr(g, name), kept), "refused_but_changed", what=name)
        setattr(g, name, kept[:, ::-1].tolist() if r.random() < 0.5 else kept[:, ::-1])
        ctx.check(np.array_equal(getattr(g, name), kept[:, ::-1]), "given_connectivity", what=name)
        if r.random() < 0.2:
            if r.random() < 0.5:
                setattr(g, name, None)
            else:
                delattr(g, name)
            ctx.check(getattr(g, name) is None, "connectivity_not_dropped", what=name)
    how = r.choice(["edges_none", "edges_del", "faces_none", "faces_del", "faces_other", "boundaries", "nodes"])
    coords = {w: np.array(getattr(g, w + "_coordinates")) for w in ("face", "edge", "boundary")}
    gone = how.split("_")[0]
    if how == "nodes":
        del g.nodes
        ctx.check(g.nodes.shape == (0, 2), "nodes_not_dropped", shape=g.nodes.shape)
        left = [k for k in ("faces", "edges", "boundaries", "face_face_connectivity", "face_edge_connectivity") if getattr(g, k) is not None]
        left += [w for w in coords if getattr(g, w + "_coordinates") is not None]
        ctx.check(not left, "left_without_nodes", left=left)
        ctx.event("nodes_dropped")
        ctx.sig(desc, how, n, most)
        return
    if how.startswith("edges"):
        if how == "edges_none":
            g.edges = None
        else:
            del g.edges
        ctx.check(g.edge_coordinates is None, "edge_coordinates_without_edges", how=how)
        ctx.check(g.edges is None and g.face_edge_connectivity is None, "connectivity_without_edges", how=how)
        ctx.event("edges_dropped")
    elif how == "boundaries":
        if r.random() < 0.7:
            del g.boundaries
        else:
            g.boundaries = None
        ctx.check(g.boundary_coordinates is None, "boundary_coordinates_without_boundaries")
        ctx.check(g.boundaries is None, "boundaries_not_dropped")
        ctx.event("boundaries_dropped")
    else:
        if how == "faces_none":
            g.faces = None
        elif how == "faces_del":
            del g.faces
        else:
            g.faces = faces[::-1].copy()
            ctx.event("other_faces")
        ctx.check(g.face_face_connectivity is None and g.face_edge_connectivity is None, "connectivity_of_other_faces", how=how)
        ctx.event("faces_dropped")
        if how != "faces_other":
            ctx.check(g.faces is None and g.num_vertices is None, "faces_not_dropped", how=how)
            g.build_edges()
            ctx.check(g.edges is None, "edges_of_no_faces", how=how)
            ctx.check(g.face_coordinates is None, "face_coordinates_without_faces", how=how)
            ctx.event("no_faces")
    ctx.check(np.array_equal(g.nodes, nodes), "nodes_changed")
    # what is left is a mesh that can be saved, with the coordinates of what it still has
    if how != "faces_other":
        path = os.path.join(ctx.tmp(), "left.nc")
        g.save(path)
        with nc4.Dataset(path) as ds:
            for w, part in (("face", "faces"), ("edge", "edges"), ("boundary", "boundaries")):
                role = [v.getncattr(w + "_coordinates") for v in ds.variables.values() if w + "_coordinates" in v.ncattrs()]
                if part == gone:
                    ctx.check(not role, "coordinates_saved_of_what_is_gone", how=how, role=role)
                elif getattr(g, part) is not None and gone != "faces":
                    ctx.check(np.array_equal(getattr(g, w + "_coordinates"), coords[w]), "coordinates_of_the_rest_changed", how=how, what=w)
                    ctx.check(len(role) == 1, "coordinates_of_the_rest_not_saved", how=how, what=w)
        ctx.event("saved")
    ctx.sig(desc, how, n, most)


@C18.scenario(quick=8, thorough=120, needs=["big"])
def big_builders(ctx):
    """more nodes than 16 bits can number"""
    r = ctx.r
    nodes, faces, desc = gen.big_mesh(ctx, quads=r.random() < 0.3)
    g = UGrid(nodes=nodes.copy(), faces=faces.copy())
    todo = ["edges", "face_face", "boundaries", "face_coordinates", "face_edge"]
    r.shuffle(todo)
    _check_topology(ctx, g, nodes, [list(map(int, f)) for f in faces], todo)
    ctx.check(np.array_equal(g.nodes, nodes) and np.array_equal(g.faces, faces), "builders_changed_the_mesh")
    ctx.event("big")
    ctx.sig("big", desc, faces.tobytes()[:64])


# ---------------------------------------------------------------------------
C15 = prop(
    "C15",
    "seeded triangle, quad and mixed meshes of 1..80 faces with a random subset of edges, boundaries, connectivity and coordinates, plus "
    "variables on nodes/faces/edges/boundaries (float32/64, ints, masked, packed, with fill values and attributes), saved and loaded through "
    "every entry point and format; non-trivial always; distinct by (mesh, parts, variables, entry points)",
    ["variables without leading dimensions (others are refused by save)", "float data compared exactly, packed data to half a quantum"],
)


def _full_grid(ctx, cls):
    r, rng = ctx.r, ctx.rng
    nodes, faces, lst, desc = any_mesh(ctx)
    name = r.choice(["mesh", "mesh", "Mesh2", "grid_1"])
    nodes, n2, f2 = _stored(ctx, nodes, faces)
    g = cls(nodes=n2, faces=f2, mesh_name=name)
    by = ref_topology(lst)
    parts = {"nodes": nodes, "faces": faces}
    es = np.array(sorted(by), dtype=np.int32)[rng.permutation(len(by))]
    if r.random() < 0.6:
        n = r.choice([len(es), len(es), 2, 1, 3])
        g.edges = parts["edges"] = es[: max(1, n)].copy()
        if r.random() < 0.5:
            g.build_edge_coordinates()
            parts["edge_coordinates"] = nodes[parts["edges"]].mean(axis=1)
    if r.random() < 0.6:
        bs = np.array(sorted(s for s, v in by.items() if len(v) == 1), dtype=np.int32)
        n = r.choice([len(bs), len(bs), 2, 1, 3])
        g.boundaries = parts["boundaries"] = bs[: max(1, n)].copy()
        if r.random() < 0.5:
            g.build_boundary_coordinates()
            parts["boundary_coordinates"] = nodes[parts["boundaries"]].mean(axis=1)
    if r.random() < 0.4:
        c = np.array([nodes[list(f)].mean(axis=0) for f in lst])
        if r.random() < 0.5:
            c = c + 0.001
        g.face_coordinates = parts["face_coordinates"] = c
    if desc[0] != "mixed" and r.random() < 0.5:
        ff = np.full(np.shape(faces), -1, np.int32)
        for s, v in by.items():
            if len(v) == 2:
                (a, i), (b, j) = v
                ff[a, i], ff[b, j] = b, a
        g.face_face_connectivity = parts["face_face_connectivity"] = ff
    if desc[0] != "mixed" and "edges" in parts and len(parts["edges"]) == len(es) and r.random() < 0.5:
        num = {tuple(e): n for n, e in enumerate(parts["edges"].tolist())}
        fe = np.array([[num[s] for s in sides(f)] for f in lst], np.int32)
        g.face_edge_connectivity = parts["face_edge_connectivity"] = fe
    if r.random() < 0.3:
        # the same mesh, every part given at once
        some = r.random() < 0.3
        g = cls(mesh_name=name, **{p: gen.restore(r, a, floats=(), masked=False)[1] if some and not np.ma.isMaskedArray(a) else a.copy() for p, a in parts.items()})
        ctx.event("given_at_once")
    return g, parts, lst, desc, name


PARTS = ["nodes", "faces", "edges", "boundaries", "face_face_connectivity", "face_edge_connectivity", "edge_coordinates",
         "face_coordinates", "boundary_coordinates"]


def _compare_grid(ctx, g, parts, name, how):
    for p in PARTS:
        got = getattr(g, p, None)
        want = parts.get(p)
        ctx.check(same(got, want), "reloaded:" + p, got=got, want=want, how=how)
        if want is not None:
            ctx.event("kept_" + p)
    ctx.check(g.mesh_name == name, "mesh_name", got=g.mesh_name, want=name)


def _conforming(ctx, nd, name, parts):
    """what a reader that knows nothing but the UGRID conventions finds in the file"""
    m = nd[name]
    for role in ("face_node", "edge_node", "boundary_node", "face_face", "face_edge"):
        part = {"face_node": "faces", "edge_node": "edges", "boundary_node": "boundaries"}.get(role, role + "_connectivity")
        att = role + "_connectivity"
        if not ctx.check(hasattr(m, att) == (part in parts), "declared:" + att):
            continue
        if part not in parts:
            continue
        v = nd[m.getncattr(att)]
        ctx.check(getattr(v, "cf_role", None) == att, "cf_role:" + att, got=getattr(v, "cf_role", None))
        got = v[:]
        k = int(getattr(v, "start_index", 0))
        got = np.ma.where(got == -1, -1, got - k) if k else got
        ctx.check(same(got, parts[part]), "in_file:" + att, got=got, want=parts[part])
        dim = role.split("_")[0] + "_dimension"
        ctx.check(getattr(m, dim, v.dimensions[0]) == v.dimensions[0], "declared:" + dim, got=getattr(m, dim, None), want=v.dimensions)
    for loc in ("node", "face", "edge", "boundary"):
        att = loc + "_coordinates"
        want = parts.get("nodes" if loc == "node" else att)
        if not ctx.check(hasattr(m, att) == (want is not None), "declared:" + att) or want is None:
            continue
        found = {}
        for n in m.getncattr(att).split():
            v = nd[n]
            s, u = getattr(v, "standard_name", None), getattr(v, "units", None)
            ctx.check((s, u) in (("longitude", "degrees_east"), ("latitude", "degrees_north")), "axis_of_coordinates:" + att, name=n, standard_name=s, units=u)
            found[s] = np.asarray(v[:])
        if ctx.check(sorted(found) == ["latitude", "longitude"], "axes_of:" + att):
            ctx.check(same(np.column_stack((found["longitude"], found["latitude"])), np.asarray(want)), "in_file:" + att)
    ctx.event("conforming")


def _save(ctx, g, path, fmt):
    r = ctx.r
    k = r.randrange(4)
    if k == 0:
        x = g.save_as_netcdf(path, format=fmt)
    elif k == 1:
        x = g.save(path, format=fmt)
    else:
        nd = nc4.Dataset(path, "w", format="NETCDF4" if fmt == "netcdf4" else "NETCDF3_CLASSIC")
        x = g.save(nd, format=fmt) if k == 2 else g.save_as_netcdf(nd, format=fmt)
        nd.close()
        return
    if x is not None:
        x.close()
    else:
        import gc

        gc.collect()


@C15.scenario(quick=6, thorough=60, needs=["big"])
def big_round_trip(ctx):
    """more nodes than 16 bits can number, and every format"""
    r = ctx.r
    nodes, faces, desc = gen.big_mesh(ctx, quads=r.random() < 0.3)
    by = ref_topology([list(map(int, f)) for f in faces])
    parts = {"nodes": nodes, "faces": faces, "edges": np.array(sorted(by), np.int32), "boundaries": np.array(sorted(s for s, v in by.items() if len(v) == 1), np.int32)}
    g = UGrid(mesh_name="big", **{k: v.copy() for k, v in parts.items()})
    path = os.path.join(ctx.tmp(), "m.nc")
    fmt = r.choice(["netcdf4", "netcdf3"])
    _save(ctx, g, path, fmt)
    h = r.choice([UGrid.from_ncfile, Grid.from_netCDF])(path)
    _compare_grid(ctx, h, parts, "big", fmt)
    ctx.event("big")
    ctx.sig("big", desc, fmt, faces.tobytes()[:64])


@C15.scenario(quick=250, thorough=5000, needs=["kept_edges", "kept_boundaries", "kept_face_face_connectivity", "kept_face_edge_connectivity",
                                                "kept_boundary_coordinates", "kept_face_coordinates", "kept_edge_coordinates", "netcdf3"])
def mesh_round_trip(ctx):
    r = ctx.r
    cls = r.choice([UGrid, Grid_U])
    g, parts, lst, desc, name = _full_grid(ctx, cls)
    snap = {p: (None if getattr(g, p) is None else np.ma.array(getattr(g, p), copy=True)) for p in PARTS}
    path = os.path.join(ctx.tmp(), "m.nc")
    fmt = r.choice(["netcdf4", "netcdf4", "netcdf3"])
    if r.random() < 0.2:
        # an existing file is replaced, not merged into
        with nc4.Dataset(path, "w") as old:
            old.createDimension("leftover", 3)
            old.createVariable("leftover", "f8", ("leftover",))[:] = 1
    _save(ctx, g, path, fmt)
    for p in PARTS:
        ctx.check(same(getattr(g, p), snap[p]), "saving_changed_the_grid:" + p)
    with nc4.Dataset(path) as nd:
        ctx.check((nd.data_model == "NETCDF4") == (fmt == "netcdf4"), "file_format", got=nd.data_model, asked=fmt)
        if fmt == "netcdf3":
            ctx.event("netcdf3")
        ctx.check("leftover" not in nd.variables, "old_file_not_replaced")
        # the file itself says what it contains: every attribute names variables that exist
        _conforming(ctx, nd, name, parts)
        m = nd[name]
        ctx.check(m.cf_role == "mesh_topology" and int(m.topology_dimension) == 2, "mesh_variable")
        for a in m.ncattrs():
            if a.endswith("connectivity") or a.endswith("coordinates"):
                for v in m.getncattr(a).split():
                    ctx.check(v in nd.variables, "mesh_attribute_names_missing_variable", attr=a, var=v)
    how = r.choice(["filename", "path", "dataset", "nc_dataset", "Grid", "Grid_U", "named"])
    nd = None
    if how == "filename":
        h = UGrid.from_ncfile(path)
    elif how == "path":
        h = Grid_U.from_ncfile(pathlib.Path(path))
    elif how == "named":
        h = UGrid.from_ncfile(path, mesh_name=name)
    elif how == "Grid":
        h = Grid.from_netCDF(path)
    elif how == "Grid_U":
        h = Grid_U.from_netCDF(path)
    else:
        nd = nc4.Dataset(path)
        h = UGrid.from_ncfile(dataset=nd) if how == "dataset" else UGrid.from_nc_dataset(nd)
    if how in ("Grid", "Grid_U", "path"):
        ctx.check(isinstance(h, Grid_U), "loaded_type", got=type(h).__name__)
    _compare_grid(ctx, h, parts, name, how)
    if type(h) is type(g) and not np.ma.isMA(g.faces) and not np.ma.isMA(h.faces):
        ctx.check(h == g, "reloaded_mesh_not_equal")
    if nd is not None:
        nd.close()
    ctx.sig(desc, name, sorted(parts), how, fmt)
    ctx.note(mesh=desc, parts=sorted(parts), how=how)


@C15.scenario(quick=200, thorough=4000, needs=["var_node", "var_face", "var_edge", "var_boundary", "packed", "masked", "global_attributes", "resaved"])
def dataset_round_trip(ctx):
    r, rng = ctx.r, ctx.rng
    g, parts, lst, desc, name = _full_grid(ctx, Grid_U)
    size = {"node": len(parts["nodes"]), "face": len(parts["faces"])}
    if "edges" in parts:
        size["edge"] = len(parts["edges"])
    if "boundaries" in parts:
        size["boundary"] = len(parts["boundaries"])
    variables, want, given = {}, {}, {}
    for n in range(r.randint(1, 4)):
        loc = r.choice(sorted(size))
        dt = r.choice(["f8", "f4", "i4", "f8"])
        d = (rng.normal(0, 30, size[loc])).astype(dt)
        att = {}
        style = r.choice(["plain", "plain", "masked", "filled", "packed"])
        tol = 0
        if style == "masked":
            d = np.ma.array(d, mask=rng.random(d.shape) < 0.3)
        elif style == "filled":
            d = np.ma.array(d, mask=rng.random(d.shape) < 0.3)
            att["_FillValue"] = d.dtype.type(-9999)
        elif style == "packed" and dt != "i4":
            att["scale_factor"] = 0.5
            att["add_offset"] = 7.0
            d = (np.round(d / 0.5) * 0.5).astype(dt)  # exactly representable
            ctx.event("packed")
        if np.ma.isMA(d):
            ctx.event("masked")
        key = "var%d" % n
        units = r.choice([None, "m/s", "degC", "1"])
        if r.random() < 0.3 and units:
            att["units"] = units
        if r.random() < 0.5:
            att["standard_name"] = "some_name_%d" % n
        if r.random() < 0.4:
            att["valid_flag"] = np.int32(r.randint(0, 9))
        if r.random() < 0.4:
            att[r.choice(["comment", "note"])] = r.choice(["", " ", "0", "a b\nc"])
        if r.random() < 0.3:
            att["flag_masks"] = r.choice([np.array([0, 1, 2], "i2"), np.array([0.0, 0.5])])
        if r.random() < 0.2:
            # of the file it came from; the saved file's own coordinates replace it
            att["coordinates"] = r.choice(["lon lat", "lon_c lat_c", "time lon lat"])
        vname = r.choice([key, "a long name %d" % n, "dye (kg/m3)"])
        v = Variable(name=vname, units=units, data=d, grid=g, location=loc, attributes=dict(att))
        variables[key] = v
        given[key] = {x: np.array(y) if isinstance(y, np.ndarray) else y for x, y in v.attributes.items()}
        want[key] = (loc, d, units, {k: a for k, a in att.items() if k not in ("_FillValue", "coordinates")})
        ctx.event("var_" + loc)
    gatt = {}
    if r.random() < 0.7:
        gatt = {"title": "seed %d" % ctx.idx, "level": np.float64(r.uniform(0, 5)), "comment": "", "count": np.int32(0), "box": np.array([1.5, -2.0, 0.0]),
                "history": "one\ntwo ", "author": "Zoë", "flags": np.array([0, 0], "i2"), "blank": " "}
        gatt = {k: gatt[k] for k in r.sample(sorted(gatt), r.randint(1, len(gatt)))}
        ctx.event("global_attributes")
    ds = Dataset(grid=g, variables=variables, attributes=dict(gatt))
    path = os.path.join(ctx.tmp(), "d.nc")
    fmt = r.choice(["netcdf4", "netcdf4", "netcdf3"])
    rounds = r.choice([1, 1, 2])
    for rnd in range(rounds):
        target = path + str(rnd)
        if r.random() < 0.3:
            ds.save(nc4.Dataset(target, "w", format="NETCDF4" if fmt == "netcdf4" else "NETCDF3_CLASSIC"), format=fmt)
        else:
            ds.save(target, format=fmt)
        if rnd == 0:
            for k, v in variables.items():
                a = {x: y for x, y in v.attributes.items()}
                w = given[k]
                ctx.check(sorted(a) == sorted(w) and all(np.array_equal(a[x], w[x]) for x in w), "saving_changed_attributes", got=a, want=w)
                ctx.check(same(v.data[:], np.ma.asarray(want[k][1])), "saving_changed_data", name=k)
        with nc4.Dataset(target) as nd:
            for k in want:
                for c in getattr(nd[k], "coordinates", "").split() if k in nd.variables else ():
                    ctx.check(c in nd.variables and nd[c].shape == nd[k].shape, "coordinates_not_in_file", of=k, name=c)
        back = Dataset.from_netCDF(target)
        ctx.check(isinstance(back.grid, Grid_U), "grid_type", got=type(back.grid).__name__)
        _compare_grid(ctx, back.grid, parts, name, "Dataset")
        for k, a in gatt.items():
            ctx.check(k in back.attributes and np.array_equal(back.attributes[k], a), "global_attribute", attr=k, got=back.attributes.get(k), want=a)
        for k, (loc, d, units, att) in want.items():
            if not ctx.check(k in back.variables, "variable_lost", name=k, got=sorted(back.variables)):
                continue
            v = back[k]
            ctx.check(v.location == loc, "location", got=v.location, want=loc)
            ctx.check(v.units == units, "units", got=v.units, want=units)
            x = np.ma.asarray(v.data[:])
            ctx.check(x.shape == d.shape, "data_shape", got=x.shape, want=d.shape)
            ctx.check(np.array_equal(np.ma.getmaskarray(x), np.ma.getmaskarray(d)), "data_mask", name=k)
            ok = ~np.ma.getmaskarray(d)
            ctx.check(np.allclose(np.ma.getdata(x)[ok], np.ma.getdata(d)[ok], rtol=0, atol=1e-12 * 100), "data", name=k,
                      got=np.ma.getdata(x)[ok][:4], want=np.ma.getdata(d)[ok][:4])
            for a, val in att.items():
                ctx.check(a in v.attributes and np.array_equal(v.attributes[a], val), "attribute", attr=a, got=v.attributes.get(a), want=val)
            ctx.check(v.attributes.get("mesh") == name and v.attributes.get("location") == loc, "standard_attributes", got=dict(v.attributes))
        if rnd:
            ctx.event("resaved")
        extra = set(back.variables) - set(want)
        ctx.check(not any(np.ma.asarray(back[e].data[:]).dtype.kind == "f" and e.startswith("var") for e in extra), "made_up_variables", extra=extra)
        ds = Dataset(grid=back.grid, variables={k: back[k] for k in want if k in back.variables}, attributes=back.attributes)
    ctx.sig(desc, sorted(parts), [(k, w[0], str(w[1].dtype)) for k, w in want.items()], fmt, rounds, sorted(gatt))


@C15.scenario(quick=60, thorough=800, needs=["no_faces", "at_zero"])
def small_meshes(ctx):
    """meshes of edges only, of nodes only, and parts whose values all happen to be zero"""
    r, rng = ctx.r, ctx.rng
    k = r.randint(1, 4)
    parts = {}
    centered = r.random() < 0.6
    p = np.round(rng.uniform(0.1, 5, (k, 2)), 3)
    if centered:
        nodes = np.concatenate([-p, p])
        link = np.array([(i, i + k) for i in range(k)], np.int32)
        ctx.event("at_zero")
    else:
        nodes = np.concatenate([p, p + 1])
        link = np.array([(i, i + k) for i in range(k)], np.int32)
    parts["nodes"] = nodes
    faces = r.random() < 0.5
    if faces:
        if centered:
            nodes = parts["nodes"] = np.array([[-1.0, -1], [1, -1], [1, 1], [-1, 1]])
            parts["faces"] = np.array([[0, 1, 2, 3]], np.int32)
            link = np.array([[0, 2], [1, 3]], np.int32)[: r.randint(1, 2)]
        else:
            nodes = parts["nodes"] = np.array([[0.0, 0], [1, 0], [0, 1]])
            parts["faces"] = np.array([[0, 1, 2]], np.int32)
            link = np.array([[0, 1], [1, 2], [2, 0]], np.int32)[: r.randint(1, 3)]
        if r.random() < 0.6:
            parts["face_coordinates"] = nodes[parts["faces"]].mean(axis=1)
    else:
        ctx.event("no_faces")
    for what in ("edge", "boundar"):
        if r.random() < 0.7:
            key = "edges" if what == "edge" else "boundaries"
            parts[key] = link.copy()
            if r.random() < 0.7:
                parts[what.replace("boundar", "boundary") + "_coordinates"] = nodes[link].mean(axis=1)
    g = r.choice([UGrid, Grid_U])(mesh_name="m", **{k: v.copy() for k, v in parts.items()})
    path = os.path.join(ctx.tmp(), "s.nc")
    fmt = r.choice(["netcdf4", "netcdf3"])
    _save(ctx, g, path, fmt)
    h = r.choice([UGrid.from_ncfile, Grid.from_netCDF, Grid_U.from_netCDF])(path)
    _compare_grid(ctx, h, parts, "m", fmt)
    ctx.sig(sorted(parts), nodes.tolist(), fmt)


@C15.scenario(quick=30, thorough=300, needs=["refused"])
def refusals(ctx):
    r = ctx.r
    g, parts, lst, desc, name = _full_grid(ctx, Grid_U)
    path = os.path.join(ctx.tmp(), "x.nc")
    for f in (g.save, g.save_as_netcdf, Dataset(grid=g).save):
        with ctx.expect_raises(ValueError, "unknown_format_accepted"):
            f(path, format=r.choice(["text", "netcdf5", "", "NETCDF4"]))
        ctx.event("refused")
    ctx.check(not os.path.exists(path), "refused_but_wrote")
    ctx.sig(desc)


# ---------------------------------------------------------------------------
C16 = prop(
    "C16",
    "seeded UGRID files written with netCDF4 directly: zero- or one-based with or without start_index, standard or transposed order with or "
    "without the *_dimension attribute, coordinates identified by standard name or units in either order, several meshes, optional parts, "
    "integer and float types, flags and fill values; non-trivial when the layout differs from the default; distinct by (mesh, layout)",
    ["one-based files without start_index use the last node", "transposed files without the dimension attribute are triangles and not 3 faces"],
)

LON_UNITS = ["degrees_east", "degree_east", "degree_E", "degrees_E", "degreeE", "degreesE"]
LAT_UNITS = ["degrees_north", "degree_north", "degree_N", "degrees_N", "degreeN", "degreesN"]


def _write_coords(ctx, nd, prefix, dim, xy, dt="f8"):
    r = ctx.r
    style = r.choice(["standard", "units", "projected"])
    names = [prefix + "_x", prefix + "_y"]
    for k in (0, 1):
        v = nd.createVariable(names[k], dt, (dim,))
        v[:] = xy[:, k]
        if style == "standard":
            v.standard_name = ["longitude", "latitude"][k]
            if r.random() < 0.5:
                v.units = ["degrees_east", "degrees_north"][k]
        elif style == "projected":
            v.standard_name = ["projection_x_coordinate", "projection_y_coordinate"][k]
            v.units = "m"
        else:
            v.units = r.choice([LON_UNITS, LAT_UNITS][k])
    order = names if r.random() < 0.5 else names[::-1]
    if order != names:
        ctx.event("lat_first")
    return r.choice([" ", "  "]).join(order), style


def write_ugrid(ctx, nd, name, nodes, faces, lst, parts=True):
    r, rng = ctx.r, ctx.rng
    lay = {}
    mixed = np.ma.isMA(faces)
    cdt = r.choice(["f8", "f8", "f4"])
    want = {"nodes": nodes.astype(cdt).astype("f8"), "faces": faces}
    nd.createDimension(name + "_nn", len(nodes))
    m = nd.createVariable(name, "i4", ())
    m.cf_role = r.choice(["mesh_topology", "mesh_topology", "mesh_topology "])
    m.topology_dimension = r.choice([np.int32(2), "2"])
    m.node_coordinates, lay["coords"] = _write_coords(ctx, nd, name + "_node", name + "_nn", nodes, cdt)

    def conn(role, arr, elem, num_ind, base_count, flags=False):
        start = r.choice([0, 1])
        explicit = r.random() < 0.6
        a = np.ma.array(arr, copy=True)
        if not explicit and start == 1 and (flags or a.max() != base_count - 1):
            start = 0
        transposed = r.random() < 0.4
        say = r.random() < 0.5
        if transposed and not say and (a.shape[1] != num_ind or a.shape[0] == num_ind):
            say = True
        if not transposed and a.shape[0] == num_ind and a.shape[1] != num_ind:
            say = True
        if elem == "face" and ("face_dim" in lay):
            say = lay["face_dim"]
            if transposed and not say and (a.shape[1] != num_ind or a.shape[0] == num_ind):
                transposed = False
            if not transposed and not say and a.shape[0] == num_ind and a.shape[1] != num_ind:
                transposed = transposed
        edim = name + "_n_" + elem
        if edim not in nd.dimensions:
            nd.createDimension(edim, a.shape[0])
        vdim = name + "_v_" + elem
        if vdim not in nd.dimensions:
            nd.createDimension(vdim, a.shape[1])
        kw = {}
        if mixed and np.ma.is_masked(a):
            kw["fill_value"] = np.int32(-999)
        vn = name + "_" + role
        v = nd.createVariable(vn, r.choice(["i4", "i4", "i8"]), (vdim, edim) if transposed else (edim, vdim), **kw)
        b = a + start
        if flags is True and (start or r.random() < 0.5):
            # what stands for nothing is kept as it is
            none = r.choice([-1, -1, -2, -999, 999, 99999, len(a) + 1, 2**31 - 2])
            if 0 <= none <= len(a):  # a number of a face stands for that face
                none = len(a) + 1
            b[a == -1] = none
            arr = np.where(arr == -1, none, arr)
            v.flag_values = np.int32(none)
            v.flag_meanings = "out_of_mesh"
            if none != -1:
                ctx.event("other_flag")
        v[:] = b.T if transposed else b
        v.cf_role = role
        if explicit:
            v.start_index = np.int32(start)
        if say:
            m.setncattr(elem + "_dimension", edim)
        if elem == "face":
            lay["face_dim"] = say
        m.setncattr(role, vn)
        lay[role] = (start, explicit, transposed, say)
        if start:
            ctx.event("one_based")
        if start and not explicit:
            ctx.event("one_based_undeclared")
        if transposed:
            ctx.event("transposed")
        return arr

    if not parts or len(lst) == 0:
        return want, lay
    if r.random() < 0.1:
        # no faces: a network of lines
        del want["faces"]
        m.topology_dimension = r.choice([np.int32(1), "1"])
        es = np.array(sorted(ref_topology(lst)), np.int32)
        es = es[rng.permutation(len(es))[: r.randint(1, len(es))]]
        want["edges"] = conn("edge_node_connectivity", es, "edge", 2, len(nodes))
        ctx.event("lines_only")
        return want, lay
    conn("face_node_connectivity", faces, "face", 3, len(nodes))
    by = ref_topology(lst)
    if r.random() < 0.4:
        es = np.array(sorted(by), np.int32)[rng.permutation(len(by))]
        want["edges"] = conn("edge_node_connectivity", es, "edge", 2, len(nodes))
        if r.random() < 0.5:
            c = nodes[es].mean(axis=1)
            m.edge_coordinates, _ = _write_coords(ctx, nd, name + "_edge", name + "_n_edge", c)
            want["edge_coordinates"] = c
    if r.random() < 0.4:
        bs = np.array([s for s, v in sorted(by.items()) if len(v) == 1], np.int32)
        if r.random() < 0.3:
            bs = bs[: r.randint(1, 3)]
        want["boundaries"] = conn("boundary_node_connectivity", bs, "boundary", 2, len(nodes))
        if r.random() < 0.5:
            c = nodes[bs].mean(axis=1)
            m.boundary_coordinates, _ = _write_coords(ctx, nd, name + "_boundary", name + "_n_boundary", c)
            want["boundary_coordinates"] = c
    if not mixed and r.random() < 0.4:
        ff = np.full(np.shape(faces), -1, np.int32)
        for s, v in by.items():
            if len(v) == 2:
                (a, i), (b, j) = v
                ff[a, i], ff[b, j] = b, a
        want["face_face_connectivity"] = conn("face_face_connectivity", ff, "face", 3, None, flags=True)
    if "edges" in want and not mixed and r.random() < 0.6:
        at = {tuple(sorted(map(int, e))): k for k, e in enumerate(want["edges"])}
        fe = np.array([[at[s] for s in sides(f)] for f in lst], np.int32)
        want["face_edge_connectivity"] = conn("face_edge_connectivity", fe, "face", 3, None, flags="none")
        ctx.event("face_edges")
    if r.random() < 0.3:
        c = np.array([nodes[list(f)].mean(axis=0) for f in lst])
        m.face_coordinates, _ = _write_coords(ctx, nd, name + "_face", name + "_n_face", c)
        want["face_coordinates"] = c
    return want, lay


@C16.scenario(quick=350, thorough=6000, needs=["one_based", "one_based_undeclared", "transposed", "lat_first", "several_meshes", "ambiguous_refused", "other_flag", "lines_only", "face_edges"])
def foreign_files(ctx):
    r = ctx.r
    path = os.path.join(ctx.tmp(), "u.nc")
    name = r.choice(["mesh", "Mesh2D", "fvcom_mesh"])
    with nc4.Dataset(path, "w") as nd:
        nodes, faces, lst, desc = any_mesh(ctx)
        if r.random() < 0.3:
            # something in the file that is not a mesh
            x = nd.createVariable("other", "i4", ())
            x.cf_role = "timeseries_id"
        want, lay = write_ugrid(ctx, nd, name, nodes, faces, lst)
        two = r.random() < 0.25
        if two:
            nodes2, faces2, lst2, desc2 = any_mesh(ctx)
            want2, lay2 = write_ugrid(ctx, nd, "zz_other", nodes2, faces2, lst2)
    if two:
        ctx.event("several_meshes")
        with ctx.expect_raises(ValueError, "ambiguous_mesh_accepted"):
            UGrid.from_ncfile(path)
        ctx.event("ambiguous_refused")
        h = UGrid.from_ncfile(path, mesh_name="zz_other")
        _compare_grid(ctx, h, want2, "zz_other", lay2)
        h = UGrid.from_ncfile(path, mesh_name=name)
        with ctx.expect_raises(ValueError, "unknown_mesh_accepted"):
            UGrid.from_ncfile(path, mesh_name="nothing")
    else:
        k = r.randrange(3)
        if k == 0:
            h = UGrid.from_ncfile(path)
        elif k == 1:
            h = Grid.from_netCDF(path)
            ctx.check(isinstance(h, Grid_U), "type", got=type(h).__name__)
        else:
            with nc4.Dataset(path) as nd:
                h = UGrid.from_nc_dataset(nd, mesh_name=r.choice([None, name]))
    _compare_grid(ctx, h, want, name, lay)
    ctx.sig(desc, lay)
    ctx.note(mesh=desc, layout=lay)


@C16.scenario(quick=60, thorough=600, needs=["refused"])
def broken_files(ctx):
    r = ctx.r
    path = os.path.join(ctx.tmp(), "b.nc")
    nodes, faces, lst, desc = any_mesh(ctx)
    kind = r.choice(["no_mesh", "no_node_coordinates", "missing_variable", "no_units", "odd_units", "odd_name", "missing_centers", "no_such_node"])
    with nc4.Dataset(path, "w") as nd:
        write_ugrid(ctx, nd, "mesh", nodes, faces, lst)
        m = nd["mesh"]
        cs = m.node_coordinates.split()
        v = nd[cs[r.randrange(2)]]
        if kind == "no_mesh":
            m.cf_role = "nothing"
        elif kind == "no_node_coordinates":
            m.delncattr("node_coordinates")
        elif kind == "missing_variable":
            m.node_coordinates = cs[0] + " gone"
        elif kind == "missing_centers":
            m.setncattr(r.choice(["face", "edge", "boundary"]) + "_coordinates", cs[0] + " gone")
        elif kind == "no_such_node":
            if "face_node_connectivity" not in m.ncattrs():
                raise Skip()
            v = nd[m.face_node_connectivity]
            a = v[:]
            i = r.choice([i for i in np.ndindex(a.shape) if a[i] is not np.ma.masked])
            a[i] = len(nodes) + r.choice([1, 1, 2, 50]) + int(getattr(v, "start_index", 0))
            if r.random() < 0.3:
                a[a == 0] = 1
            v[:] = a
        else:
            for a in ("standard_name", "units"):
                if a in v.ncattrs():
                    v.delncattr(a)
            if kind == "odd_units":
                v.units = "furlongs"
            elif kind == "odd_name":
                v.standard_name = "altitude"
    with ctx.expect_raises(ValueError, "broken_file_accepted", how=kind):
        UGrid.from_ncfile(path)
    ctx.event("refused")
    ctx.sig(kind, desc)


@C16.scenario(quick=100, thorough=1500, needs=["one_based", "fortran", "connectivity", "refused"])
def by_names(ctx):
    """files that follow no convention, read by the names of their variables"""
    from gridded.pyugrid.grid_io import load_from_varnames

    r, rng = ctx.r, ctx.rng
    nodes, faces, _, desc = gen.tri_mesh(ctx, nmax=25)
    if len(faces) < 4:
        raise Skip()
    used = np.unique(faces)
    num = np.full(len(nodes), -1)
    num[used] = np.arange(len(used))
    faces, nodes = num[faces], nodes[used]
    by = ref_topology([tuple(int(i) for i in f) for f in faces])
    start = r.randrange(2)
    if start:
        ctx.event("one_based")
    cdt = r.choice(["f8", "f8", "f4"])
    fortran = r.random() < 0.5
    if fortran:
        ctx.event("fortran")
    names = dict(nodes_lon="x", nodes_lat="y", faces="tri")
    want = {"nodes": nodes.astype(cdt).astype("f8"), "faces": faces}
    path = os.path.join(ctx.tmp(), "n.nc")
    checks = []
    with nc4.Dataset(path, "w") as d:
        d.createDimension("n", len(nodes))
        d.createDimension("f", len(faces))
        d.createDimension("three", 3)
        d.createVariable("x", cdt, ("n",))[:] = nodes[:, 0]
        d.createVariable("y", cdt, ("n",))[:] = nodes[:, 1]
        put = lambda nm, a, tr: d.createVariable(nm, r.choice(["i4", "i8"]), ("three", "f") if tr else ("f", "three")).__setitem__(slice(None), a.T if tr else a)
        put("tri", faces + start, fortran)
        if r.random() < 0.5:
            ff = np.full(faces.shape, -1, np.int32)
            for s, v in by.items():
                if len(v) == 2:
                    (a, i), (b, j) = v
                    ff[a, i], ff[b, j] = b, a
            put("nbe", ff + start, r.random() < 0.5)
            names["face_face_connectivity"] = "nbe"
            want["face_face_connectivity"] = ff
            ctx.event("connectivity")
        if r.random() < 0.5:
            c = nodes[faces].mean(axis=1)
            d.createVariable("xc", cdt, ("f",))[:] = c[:, 0]
            d.createVariable("yc", cdt, ("f",))[:] = c[:, 1]
            names.update(face_coordinates_lon="xc", face_coordinates_lat="yc")
            want["face_coordinates"] = c.astype(cdt).astype("f8")
        if r.random() < 0.5:
            bs = np.array(sorted(s for s, v in by.items() if len(v) == 1), np.int32)
            d.createDimension("b", len(bs))
            d.createDimension("four", 4)
            more = np.column_stack((bs + start, rng.integers(0, 9, (len(bs), 2))))
            d.createVariable("bnd", "i4", ("b", "four"))[:] = more
            names["boundaries"] = "bnd"
            want["boundaries"] = bs
        if r.random() < 0.5:
            d.grid_type = r.choice(["triangular", "Triangular"])
            checks.append(("grid_type", "triangular"))
        d.source = "elsewhere"
    kw = {"attribute_check": checks} if checks else {}
    with nc4.Dataset(path) as d:
        src = r.choice([path, d])
        if r.random() < 0.3:
            ctx.event("refused")
            with ctx.expect_raises(ValueError, "wrong_attribute_accepted"):
                load_from_varnames(src, names, attribute_check=checks + [("source", "here")])
            src = path if src is path else d
        seen = []
        if r.random() < 0.4:
            kw["post_process"] = lambda ds, ug: seen.append((ds, ug))
        g = load_from_varnames(src, names, **kw)
        if "post_process" in kw:
            ctx.check(len(seen) == 1 and seen[0][1] is g and "x" in seen[0][0].variables, "post_process", calls=len(seen))
    for k in PARTS:
        ctx.check(same(getattr(g, k), want.get(k)), "by_names:" + k, got=getattr(g, k), want=want.get(k), start=start, fortran=fortran)
    ctx.sig("names", desc, start, fortran, sorted(names), cdt)
