"""Seeded generators for workloads (all randomness comes from ctx.rng / ctx.r)."""

from datetime import datetime, timedelta

import numpy as np

US = timedelta(microseconds=1)


def us(td):
    return td // US


# ----------------------------------------------------------------- time axes
def time_axis(ctx, nmin=1, nmax=40, long=True):
    """strictly ascending list of naive datetimes, from microsecond to year spacing"""
    r = ctx.r
    n = r.choice([1, 2, 2, 3, 4, 5, r.randint(nmin, nmax)])
    if long and r.random() < 0.05:
        n = r.randint(200, 1200)
    n = max(nmin, min(n, nmax if not long else 10**6))
    if "time" in ctx.big:
        n = r.choice([r.randint(50, 140), r.randint(200, 400)])
    start = datetime(r.choice([1950, 1969, 1970, 1999, 2000, 2012, 2024]), r.randint(1, 12), r.randint(1, 28),
                     r.randint(0, 23), r.choice([0, 30, r.randint(0, 59)]), r.choice([0, r.randint(0, 59)]),
                     r.choice([0, 0, r.randint(0, 999999)]))
    style = r.choice(["hourly", "daily", "irregular", "micro", "mixed", "years", "minutes"])
    ts = [start]
    for _ in range(n - 1):
        if style == "hourly":
            d = timedelta(hours=1)
        elif style == "daily":
            d = timedelta(days=1)
        elif style == "minutes":
            d = timedelta(minutes=r.choice([1, 6, 10, 15]))
        elif style == "irregular":
            d = timedelta(seconds=r.randint(1, 10**5))
        elif style == "micro":
            d = timedelta(microseconds=r.randint(1, 50))
        elif style == "years":
            d = timedelta(days=r.randint(20, 700)) if n < 100 else timedelta(days=1)
        else:
            d = r.choice([timedelta(microseconds=r.randint(1, 10)), timedelta(seconds=r.randint(1, 10)),
                          timedelta(days=r.randint(1, 40)) if n < 100 else timedelta(hours=3)])
        ts.append(ts[-1] + d)
    return ts, style


def time_queries(ctx, ts, n=12):
    """instants around and inside an axis, always including the stamps' edges"""
    r = ctx.r
    qs = []
    span = ts[-1] - ts[0]
    for _ in range(n):
        k = r.random()
        i = r.randrange(len(ts))
        if k < 0.2:
            q = ts[i]
        elif k < 0.4:
            q = ts[i] + r.choice([-1, 1]) * US
        elif k < 0.8 and len(ts) > 1:
            i = r.randrange(len(ts) - 1)
            gap = us(ts[i + 1] - ts[i])
            q = ts[i] + US * r.randint(0, gap)
        elif k < 0.9:
            q = ts[0] - timedelta(seconds=r.choice([1, 3600, 86400 * 40])) if r.random() < 0.5 else ts[0] - US
        else:
            q = ts[-1] + timedelta(seconds=r.choice([1, 3600, 86400 * 40])) if r.random() < 0.5 else ts[-1] + US
        qs.append(q)
    return qs + [ts[0], ts[-1]]


def bracket(ts, t):
    """reference: (number of stamps strictly before t, fraction elapsed or clamp)"""
    k = sum(1 for x in ts if x < t)
    if len(ts) == 1:
        return 0, 0.0
    if k == 0:
        return 0, 0.0
    if k == len(ts):
        return k, 1.0
    return k, us(t - ts[k - 1]) / us(ts[k] - ts[k - 1])


def time_weights(ts, t):
    """reference weights over stamps for linear interpolation with clamping"""
    w = np.zeros(len(ts))
    k, a = bracket(ts, t)
    if len(ts) == 1 or k == 0:
        w[0] = 1
    elif k == len(ts):
        w[-1] = 1
    else:
        w[k - 1] = 1 - a
        w[k] = a
    return w


# ------------------------------------------------------------------- meshes
def _place(ctx, xy):
    """scale/offset unit-square coordinates to somewhere on the globe (or a projected plane)"""
    r = ctx.r
    k = r.choice(["lonlat", "lonlat", "east", "tiny", "projected", "unit"])
    if k == "lonlat":
        s, o = np.array([r.uniform(0.5, 20), r.uniform(0.5, 20)]), np.array([r.uniform(-170, 150), r.uniform(-70, 50)])
    elif k == "east":
        s, o = np.array([3.0, 2.0]), np.array([r.uniform(180, 355), r.uniform(-30, 30)])
    elif k == "tiny":
        s, o = np.array([0.02, 0.02]), np.array([r.uniform(-150, 150), r.uniform(-60, 60)])
    elif k == "projected":
        s, o = np.array([5e4, 8e4]), np.array([3e5, 4.1e6])
    else:
        s, o = np.ones(2), np.zeros(2)
    return xy * s + o, k


def tri_quality(nodes, faces):
    p = nodes[faces]
    a = p[:, 1] - p[:, 0]
    b = p[:, 2] - p[:, 0]
    c = p[:, 2] - p[:, 1]
    area = 0.5 * np.abs(a[:, 0] * b[:, 1] - a[:, 1] * b[:, 0])
    l2 = np.maximum(np.maximum((a**2).sum(1), (b**2).sum(1)), (c**2).sum(1))
    return area / l2


def tri_mesh(ctx, nmax=120, holes=True):
    """(nodes, faces, description): a valid planar triangulation, any orientation, maybe holed/disjoint"""
    from scipy.spatial import Delaunay

    r, rng = ctx.r, ctx.rng
    kind = r.choice(["delaunay", "delaunay", "structured", "single", "graded", "strip", "two_parts"])
    if kind == "single":
        xy = np.array([[0, 0], [1, 0.1], [0.3, 0.9]]) + rng.uniform(-0.05, 0.05, (3, 2))
        faces = np.array([[0, 1, 2]])
    elif kind == "structured":
        nx, ny = (r.randint(12, 60), r.randint(12, 60)) if "grid" in ctx.big else (r.randint(2, 9), r.randint(2, 9))
        X, Y = np.meshgrid(np.linspace(0, 1, nx), np.linspace(0, 1, ny))
        xy = np.column_stack((X.ravel(), Y.ravel()))
        if r.random() < 0.5:
            xy = xy + rng.uniform(-0.2, 0.2, xy.shape) / np.array([nx, ny])
        f = []
        for j in range(ny - 1):
            for i in range(nx - 1):
                a, b, c, d = j * nx + i, j * nx + i + 1, (j + 1) * nx + i, (j + 1) * nx + i + 1
                f += [[a, b, d], [a, d, c]] if r.random() < 0.5 else [[a, b, c], [b, d, c]]
        faces = np.array(f)
    elif kind == "strip":
        n = r.randint(130, 400) if "grid" in ctx.big else r.randint(3, 20)
        xy = np.column_stack((np.arange(n) * 0.5, np.tile([0.0, 1.0], n)[:n])) / n + rng.uniform(-0.05, 0.05, (n, 2)) / n
        faces = np.array([[i, i + 1, i + 2] for i in range(n - 2)])
    else:
        n = r.randint(200, 1500) if "grid" in ctx.big else r.choice([4, 5, 8, 20, r.randint(6, nmax)])
        xy = rng.random((n, 2))
        if kind == "graded":
            xy = xy**3
        faces = Delaunay(xy).simplices.astype(int)
        if kind == "two_parts":
            xy2 = rng.random((n, 2)) + [2.0, 0.5]
            f2 = Delaunay(xy2).simplices.astype(int) + n
            xy = np.vstack((xy, xy2)) / 3
            faces = np.vstack((faces, f2))
    nodes, place = _place(ctx, xy)
    q = tri_quality(nodes, faces)
    keep = q > 1e-3
    dropped = np.zeros((0, 3), int)
    if keep.sum() == 0:
        keep = q == q.max()
        if q.max() < 1e-5:
            from .core import Skip

            raise Skip()
    faces = faces[keep]
    if holes and len(faces) > 3 and r.random() < 0.4:
        k = rng.random(len(faces)) < r.uniform(0.1, 0.4)
        if 0 < k.sum() < len(faces):
            dropped = faces[k]
            faces = faces[~k]
    # orientation
    o = r.choice(["ccw", "cw", "mixed"])
    p = nodes[faces]
    s = np.cross(p[:, 1] - p[:, 0], p[:, 2] - p[:, 0]) if False else (
        (p[:, 1, 0] - p[:, 0, 0]) * (p[:, 2, 1] - p[:, 0, 1]) - (p[:, 1, 1] - p[:, 0, 1]) * (p[:, 2, 0] - p[:, 0, 0]))
    if o == "ccw":
        flip = s < 0
    elif o == "cw":
        flip = s > 0
    else:
        flip = rng.random(len(faces)) < 0.5
    faces = np.where(flip[:, None], faces[:, ::-1], faces)
    # numbering carries no meaning
    perm = rng.permutation(len(nodes))
    inv = np.argsort(perm)
    nodes2 = nodes[perm]
    faces2 = inv[faces]
    dropped2 = inv[dropped] if len(dropped) else dropped
    faces2 = faces2[rng.permutation(len(faces2))]
    rot = r.randrange(3)
    faces2 = np.roll(faces2, rot, axis=1)
    return np.ascontiguousarray(nodes2), np.ascontiguousarray(faces2.astype(np.int32)), dropped2, (kind, place, o)


def even_mesh(ctx):
    """a triangulation with as many faces as nodes: only names and attributes tell their data apart"""
    from scipy.spatial import Delaunay

    r, rng = ctx.r, ctx.rng
    k = r.randint(4, 9)
    a = np.arange(k) * 2 * np.pi / k + rng.uniform(-0.2, 0.2)
    xy = np.vstack((np.column_stack((np.cos(a), np.sin(a))), rng.uniform(-0.3, 0.3, (2, 2))))
    if np.hypot(*(xy[-1] - xy[-2])) < 0.1:
        xy[-1] = xy[-2] + [0.15, 0.05]
    faces = Delaunay(xy).simplices.astype(np.int32)
    nodes, place = _place(ctx, xy)
    p = rng.permutation(len(nodes))
    nodes, faces = nodes[p], np.argsort(p)[faces]
    return np.ascontiguousarray(nodes), np.ascontiguousarray(faces.astype(np.int32)), np.zeros((0, 3), int), ("even", place, k)


def big_mesh(ctx, quads=False, nf=1500):
    """a mesh with more nodes than 16 bits can number, of which only some places have elements; also the node grid's shape"""
    r, rng = ctx.r, ctx.rng
    ny, nx = r.choice([(300, 230), (230, 300), (40, 1700)])
    x, y = np.meshgrid(np.arange(nx) * 1.0, np.arange(ny) * 1.0)
    xy = np.column_stack((x.ravel(), y.ravel())) * r.choice([1.0, 0.01, 100.0])
    i = np.arange(ny * nx).reshape(ny, nx)
    if quads:
        f = np.stack([i[:-1, :-1], i[:-1, 1:], i[1:, 1:], i[1:, :-1]], -1).reshape(-1, 4)
    else:
        f = np.stack([np.stack([i[:-1, :-1], i[:-1, 1:], i[1:, 1:]], -1), np.stack([i[:-1, :-1], i[1:, 1:], i[1:, :-1]], -1)], 2).reshape(-1, 3)
    # some blocks of neighbors at both ends and in the middle
    n = len(f)
    b = nf // 3
    keep = np.unique(np.concatenate([np.arange(b), n // 2 + np.arange(b), n - 1 - np.arange(b)]))
    f = f[keep]
    if r.random() < 0.6:
        p = rng.permutation(len(xy))
        inv = np.argsort(p)
        xy, f = xy[p], inv[f]
    if r.random() < 0.5:
        f = f[rng.permutation(len(f))]
    return xy, f.astype(np.int32), (ny, nx)


def bary(nodes, faces, pts):
    """barycentric coordinates, shape (npts, nfaces, 3)"""
    p = nodes[faces]
    # work relative to a local origin to keep rounding small
    o = p[:, 0]
    e1 = p[:, 1] - o
    e2 = p[:, 2] - o
    det = e1[:, 0] * e2[:, 1] - e1[:, 1] * e2[:, 0]
    d = pts[:, None, :] - o[None]
    l1 = (d[..., 0] * e2[:, 1] - d[..., 1] * e2[:, 0]) / det
    l2 = (e1[:, 0] * d[..., 1] - e1[:, 1] * d[..., 0]) / det
    return np.stack((1 - l1 - l2, l1, l2), axis=-1)


def mesh_points(ctx, nodes, faces, dropped, n=40):
    """points inside, on, near and off the mesh"""
    r, rng = ctx.r, ctx.rng
    pts = []
    span = np.ptp(nodes, axis=0)
    lo, hi = nodes.min(0), nodes.max(0)
    for _ in range(n):
        k = r.random()
        if k < 0.5:
            w = rng.dirichlet([1, 1, 1]) if r.random() < 0.7 else rng.dirichlet([0.05, 1, 1])
            pts.append(w @ nodes[faces[r.randrange(len(faces))]])
        elif k < 0.58:
            pts.append(nodes[r.randrange(len(nodes))].copy())
        elif k < 0.66:
            f = faces[r.randrange(len(faces))]
            a = r.randrange(3)
            t = r.random()
            pts.append((1 - t) * nodes[f[a]] + t * nodes[f[(a + 1) % 3]])
        elif k < 0.74 and len(dropped):
            pts.append(rng.dirichlet([2, 2, 2]) @ nodes[dropped[r.randrange(len(dropped))]])
        elif k < 0.9:
            pts.append(lo - 0.3 * span + 1.6 * span * rng.random(2))
        else:
            pts.append(lo + span * r.choice([-3.0, 5.0, 100.0]))
    return np.array(pts)


def linear_field(ctx):
    a, b, c = ctx.rng.normal(size=3) * np.array([1, 1, 10])
    return lambda x, y: a * x + b * y + c


# ---------------------------------------------------------- structured grids
def _convex_ok(X, Y, tol=0.08):
    """every cell strictly convex (relative corner cross products above tol), all the same way round"""
    P = np.stack((X, Y), -1)
    c = [P[:-1, :-1], P[:-1, 1:], P[1:, 1:], P[1:, :-1]]
    signs = []
    for k in range(4):
        u = c[(k + 1) % 4] - c[k]
        v = c[(k + 2) % 4] - c[(k + 1) % 4]
        cr = u[..., 0] * v[..., 1] - u[..., 1] * v[..., 0]
        n = np.sqrt((u**2).sum(-1) * (v**2).sum(-1))
        signs.append(cr / n)
    s = np.stack(signs)
    return bool(np.all(s > tol) or np.all(s < -tol))


def quad_grid(ctx, nmax=10, kinds=None, place=True):
    """(lon, lat, description): non-overlapping convex quadrilaterals in every orientation"""
    from .core import Skip

    r, rng = ctx.r, ctx.rng
    kind = r.choice(kinds or ["rect", "rect_irregular", "rotated", "rotated", "sheared", "polar", "jitter", "jitter_rot", "almost_rect", "trapezoid"])
    ny, nx = r.choice([(2, 2), (2, r.randint(2, nmax)), (r.randint(2, nmax), 2), (r.randint(2, nmax), r.randint(2, nmax)),
                       (r.randint(3, nmax), r.randint(3, nmax)), (r.randint(3, nmax), r.randint(3, nmax))])
    if "grid" in ctx.big:
        ny, nx = r.choice([(r.randint(12, 60), r.randint(12, 60)), (r.randint(2, 4), r.randint(130, 300)), (r.randint(130, 300), r.randint(2, 4))])
    i = np.arange(nx, dtype=float)
    j = np.arange(ny, dtype=float)
    if kind == "rect_irregular":
        i = np.cumsum(rng.uniform(0.3, 2, nx))
        j = np.cumsum(rng.uniform(0.3, 2, ny))
    I, J = np.meshgrid(i, j)
    X, Y = I / max(nx, ny), J / max(nx, ny)
    h = 1.0 / max(nx, ny)
    if kind in ("jitter", "jitter_rot"):
        X = X + rng.uniform(-0.18, 0.18, X.shape) * h
        Y = Y + rng.uniform(-0.18, 0.18, X.shape) * h
    if kind == "almost_rect":
        e = 10.0 ** r.randint(-15, -4)
        X = X + rng.uniform(-e, e, X.shape)
        Y = Y + rng.uniform(-e, e, X.shape)
    if kind == "trapezoid":
        X = X * (1 + 0.5 * Y)
    ang = 0.0
    if kind in ("rotated", "sheared", "jitter_rot", "almost_rect", "trapezoid"):
        if kind == "sheared":
            X = X + r.uniform(-1.2, 1.2) * Y
        ang = r.choice([0.0, 0.1, np.pi / 4, np.pi / 2, np.pi, 1.0, -np.pi / 2, r.uniform(-np.pi, np.pi)])
        X, Y = np.cos(ang) * X - np.sin(ang) * Y, np.sin(ang) * X + np.cos(ang) * Y
    if kind == "polar":
        rad = 0.5 + J / ny
        th = r.uniform(0, 6) + I / nx * r.uniform(0.5, 4.0) if nx > 3 else r.uniform(0, 6) + I / nx * 0.8
        X, Y = rad * np.cos(th), rad * np.sin(th)
    flips = r.randrange(8)
    if flips & 1:
        X, Y = X[::-1], Y[::-1]
    if flips & 2:
        X, Y = X[:, ::-1], Y[:, ::-1]
    if flips & 4:
        X, Y = X.T, Y.T
    if not _convex_ok(X, Y):
        raise Skip()
    if place:
        P, pl = _place(ctx, np.stack((X, Y), -1).reshape(-1, 2))
        P = P.reshape(X.shape + (2,))
        X, Y = P[..., 0], P[..., 1]
    else:
        pl = "unit"
    if not _convex_ok(X, Y, 0.02):
        raise Skip()
    return np.ascontiguousarray(X), np.ascontiguousarray(Y), (kind, round(ang, 3), flips, pl)


def big_quad_grid(ctx):
    """a curvilinear grid with more cells than 16 bits can number, skewed, in any orientation"""
    r = ctx.r
    ny, nx = r.choice([(301, 231), (231, 301), (4, 23001), (23001, 4)])
    X, Y = np.meshgrid(np.arange(nx) * 1.0, np.arange(ny) * 1.0)
    X = X + 0.3 * np.sin(Y / 40)
    Y = Y + 0.3 * np.sin(X / 50)
    ang = r.choice([0.0, 0.4, 2.0, -1.5])
    k = r.choice([1.0, 0.001])
    X, Y = k * (np.cos(ang) * X - np.sin(ang) * Y), k * (np.sin(ang) * X + np.cos(ang) * Y)
    if r.random() < 0.5:
        X, Y = X[::-1], Y[::-1]
    return np.ascontiguousarray(X), np.ascontiguousarray(Y), (ny, nx, ang, k)


def cell_points(lon, lat, j, i, l, m):
    """many points at once"""
    w = [(1 - l) * (1 - m), l * (1 - m), l * m, (1 - l) * m]
    c = [(j, i), (j, i + 1), (j + 1, i + 1), (j + 1, i)]
    return np.stack([sum(a * x[q] for a, q in zip(w, c)) for x in (lon, lat)], -1)


def cell_point(lon, lat, j, i, l, m):
    """bilinear map: l along the second index, m along the first"""
    w = [(1 - l) * (1 - m), l * (1 - m), l * m, (1 - l) * m]
    xs = [lon[j, i], lon[j, i + 1], lon[j + 1, i + 1], lon[j + 1, i]]
    ys = [lat[j, i], lat[j, i + 1], lat[j + 1, i + 1], lat[j + 1, i]]
    return sum(a * b for a, b in zip(w, xs)), sum(a * b for a, b in zip(w, ys))


def cell_margins(lon, lat, p):
    """for every cell, the smallest signed distance of p to its four sides (positive inside),
    relative to the cell size; shape (ny-1, nx-1)"""
    P = np.stack((lon, lat), -1)
    c = [P[:-1, :-1], P[:-1, 1:], P[1:, 1:], P[1:, :-1]]
    out = None
    area = 0
    for k in range(4):
        a, b = c[k], c[(k + 1) % 4]
        area = area + a[..., 0] * b[..., 1] - a[..., 1] * b[..., 0]
    # recompute the area with local coordinates (offsets may be large)
    d1 = c[2] - c[0]
    d2 = c[3] - c[1]
    area = 0.5 * (d1[..., 0] * d2[..., 1] - d1[..., 1] * d2[..., 0])
    s = np.sign(area)
    size = np.sqrt(np.abs(area))
    for k in range(4):
        a, b = c[k], c[(k + 1) % 4]
        e = b - a
        q = np.asarray(p) - a
        d = s * (e[..., 0] * q[..., 1] - e[..., 1] * q[..., 0]) / np.sqrt((e**2).sum(-1)) / size
        out = d if out is None else np.minimum(out, d)
    return out


def grid_points(ctx, lon, lat, n=30, edge=False):
    """[(point, (j, i) or None, l, m)]: known cells by construction; None = decided by geometry"""
    r, rng = ctx.r, ctx.rng
    ny, nx = lon.shape
    out = []
    lo = np.array([lon.min(), lat.min()])
    sp = np.array([np.ptp(lon), np.ptp(lat)])
    for _ in range(n):
        k = r.random()
        if k < 0.75:
            j, i = r.randrange(ny - 1), r.randrange(nx - 1)
            if r.random() < 0.15:
                l, m = r.choice([0.001, 0.999, 0.5]), r.choice([0.001, 0.999, 0.5])
            else:
                l, m = r.uniform(0.01, 0.99), r.uniform(0.01, 0.99)
            out.append((np.array(cell_point(lon, lat, j, i, l, m)), (j, i), l, m))
        elif k < 0.93:
            out.append((lo - 0.25 * sp + 1.5 * sp * rng.random(2), None, None, None))
        else:
            out.append((lo + sp * np.array([r.choice([-4.0, 9.0]), r.choice([-4.0, 0.5, 9.0])]), None, None, None))
    return out


# ------------------------------------------------- a grid of any kind + oracle
class Field:
    """a grid, where its data lives, and a reference evaluator for one horizontal layer

    ``pts``   query points whose answer is decided by construction
    ``W``     list of (list of (index, weight)) per point; None = off the grid
    """

    def layer(self):
        return self.ctx.rng.normal(size=self.shape) * self.amp

    def ref(self, layer):
        """(values, masked) of the layer at self.pts"""
        out = np.zeros(len(self.pts))
        msk = np.zeros(len(self.pts), bool)
        for n, w in enumerate(self.W):
            if w is None:
                msk[n] = self.off_masked
            else:
                out[n] = sum(layer[i] * a for i, a in w)
        return out, msk

    def take(self, sel):
        f = Field()
        f.__dict__.update(self.__dict__)
        f.pts = self.pts[sel]
        f.W = [self.W[i] for i in sel]
        f.NW = [self.NW[i] for i in sel]
        return f


def field(ctx, kinds=("U", "S", "R"), locs=None, npts=None, nmax=8, even=False):
    from gridded.grids import Grid_U, Grid_S, Grid_R
    from .core import Skip

    r, rng = ctx.r, ctx.rng
    f = Field()
    f.ctx = ctx
    f.amp = 10 ** r.uniform(-2, 3)
    f.kind = r.choice(list(kinds))
    n = npts or r.choice([1, 2, 4, 9, 20])
    if "points" in ctx.big:
        n = r.choice([130, 300, 1100])
    pts, W, NW = [], [], []
    if f.kind == "U":
        nodes, faces, dropped, desc = even_mesh(ctx) if even else tri_mesh(ctx, nmax=30)
        if len(nodes) == len(faces) and not even:
            nodes = np.vstack((nodes, nodes.max(0) + np.ptp(nodes, axis=0) * 3))
        f.loc = r.choice(locs or ["node", "node", "face"])
        f.make = lambda nodes=nodes, faces=faces: Grid_U(nodes=nodes.copy(), faces=faces.copy())
        f.shape = (len(nodes) if f.loc == "node" else len(faces),)
        f.off_masked = False
        lo, sp = nodes.min(0), np.ptp(nodes, axis=0)
        for _ in range(n):
            if r.random() < 0.12:
                pts.append(lo + sp * r.choice([-5.0, 7.0]))
                W.append(None)
                NW.append(None)
                continue
            k = r.randrange(len(faces))
            w = 0.02 + 0.94 * rng.dirichlet([1, 1, 1])
            pts.append(w @ nodes[faces[k]])
            NW.append([((int(i),), a) for i, a in zip(faces[k], w)])
            W.append(NW[-1] if f.loc == "node" else [((k,), 1.0)])
        f.desc = ("U", f.loc) + desc + (len(nodes), len(faces))
        f.nodes, f.faces = nodes, faces
    elif f.kind == "S":
        lon, lat, desc = quad_grid(ctx, nmax=nmax)
        f.loc = r.choice(locs or ["node", "node", "center", "edge1", "edge2"])
        if f.loc == "face":
            f.loc = "center"
        ny, nx = lon.shape
        f.make = lambda lon=lon, lat=lat: Grid_S(node_lon=lon.copy(), node_lat=lat.copy(), face_padding=("none", "none"))
        f.shape = {"node": (ny, nx), "center": (ny - 1, nx - 1), "edge1": (ny - 1, nx), "edge2": (ny, nx - 1)}[f.loc]
        f.off_masked = True
        lo = np.array([lon.min(), lat.min()])
        sp = np.array([np.ptp(lon), np.ptp(lat)])
        for _ in range(n):
            if r.random() < 0.12:
                pts.append(lo + sp * r.choice([-5.0, 7.0]))
                W.append(None)
                NW.append(None)
                continue
            j, i = r.randrange(ny - 1), r.randrange(nx - 1)
            l, m = r.uniform(0.02, 0.98), r.uniform(0.02, 0.98)
            pts.append(cell_point(lon, lat, j, i, l, m))
            NW.append([((j, i), (1 - l) * (1 - m)), ((j, i + 1), l * (1 - m)), ((j + 1, i + 1), l * m), ((j + 1, i), (1 - l) * m)])
            W.append({"node": NW[-1],
                      "center": [((j, i), 1.0)],
                      "edge1": [((j, i), 1 - l), ((j, i + 1), l)],
                      "edge2": [((j, i), 1 - m), ((j + 1, i), m)]}[f.loc])
        f.desc = ("S", f.loc) + desc + (ny, nx)
        f.lon, f.lat = lon, lat
    else:
        ny = r.randint(2, 9)
        nx = r.choice([k for k in range(2, 10) if k != ny])
        if "grid" in ctx.big:
            ny, nx = r.choice([(r.randint(130, 300), r.randint(2, 60)), (r.randint(2, 60), r.randint(130, 300))])
            ny += ny == nx
        x = np.cumsum(rng.uniform(0.2, 2, nx)) + r.uniform(-170, 150)
        y = np.cumsum(rng.uniform(0.2, 2, ny)) + r.uniform(-80, 50)
        dl = r.random() < 0.4
        if dl:
            y = y[::-1].copy()
        f.loc = "node"
        f.make = lambda x=x, y=y: Grid_R(node_lon=x.copy(), node_lat=y.copy())
        f.shape = (ny, nx)
        f.off_masked = False
        for _ in range(n):
            if r.random() < 0.12:
                pts.append(np.array([x.min() - 3, y.max() + 3]) if r.random() < 0.5 else np.array([x.mean(), y.min() - 5]))
                W.append(None)
                NW.append(None)
                continue
            j, i = r.randrange(ny - 1), r.randrange(nx - 1)
            l, m = r.uniform(0.02, 0.98), r.uniform(0.02, 0.98)
            pts.append(((1 - l) * x[i] + l * x[i + 1], (1 - m) * y[j] + m * y[j + 1]))
            W.append([((j, i), (1 - l) * (1 - m)), ((j, i + 1), l * (1 - m)), ((j + 1, i + 1), l * m), ((j + 1, i), (1 - l) * m)])
        f.desc = ("R", "desc" if dl else "asc", ny, nx, round(float(x[0]), 2))
        f.x, f.y = x, y
    f.pts = np.array(pts, dtype=float)
    f.W = W
    f.NW = NW if f.kind != "R" else W
    return f


def restore(r, a, floats=("f4",), ints=("i4", "i8"), lists=False, masked=True):
    """the same numbers in another storage: (name, array)"""
    a = np.asarray(a)
    k = ["fortran", "strided", "reversed", "read_only", "swapped", "precision", "precision"] + ["masked"] * masked + ["list"] * lists
    k = r.choice(k)
    if k == "fortran":
        return k, np.asfortranarray(a)
    if k == "strided":
        b = np.zeros([2 * s for s in a.shape], a.dtype)
        s = tuple(slice(None, None, 2) for _ in a.shape)
        b[s] = a
        return k, b[s]
    if k == "reversed":
        return k, a[::-1].copy()[::-1]
    if k == "read_only":
        c = a.copy()
        c.flags.writeable = False
        return k, c
    if k == "swapped":
        return k, a.astype(a.dtype.newbyteorder(">"))
    if k == "masked":
        return k, np.ma.array(a.copy()) if r.random() < 0.5 else np.ma.array(a.copy(), mask=np.zeros(a.shape, bool))
    if k == "list":
        return k, a.tolist()
    c = list(floats if a.dtype.kind == "f" else ()) + [t for t in ints]
    r.shuffle(c)
    for t in c:
        b = a.astype(t)
        if np.array_equal(b.astype(a.dtype), a):
            if r.random() < 0.3:
                b = b.astype(b.dtype.newbyteorder(">"))
            return b.dtype.str, b
    return "plain", a.copy()


def dyadic(xy, bits=14):
    """coordinates that single precision holds, cells kept apart"""
    s = np.ptp(xy, axis=0).max() / 2.0**bits
    s = 2.0 ** np.ceil(np.log2(s))
    out = np.round(xy / s) * s
    if not np.array_equal(out, out.astype("f4").astype("f8")):
        return None
    return out
