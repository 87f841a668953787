"""
Online taps on the public API.

``install()`` wraps public methods so that every call made during a workload
(from the harness or from inside the library) is counted.  Calls made directly
by the harness (depth 0) are additionally watched for changes to the arguments
the caller passed in; ``violations()`` returns what was seen.
"""

import functools

import numpy as np

_counts = {}
_depth = [0]
_mut = []
_installed = []
WATCH_ARGS = [False]


def reset():
    _counts.clear()
    del _mut[:]
    _depth[0] = 0
    WATCH_ARGS[0] = False


def counts():
    return dict(_counts)


def mutations():
    return list(_mut)


def _snap(x):
    if isinstance(x, np.ma.MaskedArray):
        return ("ma", x.shape, np.array(x.data, copy=True), np.array(np.ma.getmaskarray(x), copy=True))
    if isinstance(x, np.ndarray):
        return ("nd", x.shape, np.array(x, copy=True))
    if isinstance(x, list):
        return ("list", [_snap(i) for i in x])
    return None


def _same(a, b):
    if a is None or b is None:
        return a is None and b is None
    if a[0] != b[0]:
        return False
    if a[0] == "list":
        return len(a[1]) == len(b[1]) and all(_same(i, j) for i, j in zip(a[1], b[1]))
    if a[1] != b[1]:
        return False
    for i, j in zip(a[2:], b[2:]):
        if i.dtype != j.dtype:
            return False
        if i.dtype.kind in "fc":
            if not np.array_equal(i, j, equal_nan=True):
                return False
        elif not np.array_equal(i, j):
            return False
    return True


def _wrap(label, fn):
    @functools.wraps(fn)
    def tapped(*a, **k):
        _counts[label] = _counts.get(label, 0) + 1
        watch = WATCH_ARGS[0] and _depth[0] == 0
        if watch:
            before = [_snap(x) for x in a[1:]], {n: _snap(x) for n, x in k.items()}
        _depth[0] += 1
        try:
            return fn(*a, **k)
        finally:
            _depth[0] -= 1
            if watch:
                for n, (x, s) in enumerate(zip(a[1:], before[0])):
                    if not _same(_snap(x), s):
                        _mut.append("%s: positional argument %d changed" % (label, n))
                for n, x in k.items():
                    if not _same(_snap(x), before[1][n]):
                        _mut.append("%s: argument %s changed" % (label, n))

    tapped.__verif_tap__ = True
    return tapped


def tap(cls, *names):
    for n in names:
        raw = cls.__dict__.get(n)
        if raw is None:
            continue
        label = "%s.%s" % (cls.__name__, n)
        if isinstance(raw, classmethod):
            setattr(cls, n, classmethod(_wrap(label, raw.__func__)))
        elif isinstance(raw, staticmethod):
            setattr(cls, n, staticmethod(_wrap(label, raw.__func__)))
        elif callable(raw):
            setattr(cls, n, _wrap(label, raw))


def install():
    if _installed:
        return
    _installed.append(1)
    import gridded
    from gridded.time import Time
    from gridded.variable import Variable, VectorVariable
    from gridded.grids import Grid_U, Grid_S, Grid_R, Grid
    from gridded.pyugrid.ugrid import UGrid
    from gridded.pysgrid.sgrid import SGrid
    from gridded import depth as D

    tap(Time, "__init__", "from_netCDF", "index_of", "interp_alpha", "time_in_bounds", "valid_time")
    tap(Variable, "__init__", "from_netCDF", "at", "constant")
    tap(VectorVariable, "__init__", "from_netCDF", "at", "constant")
    tap(UGrid, "locate_faces", "locate_nodes", "interpolation_alphas", "interpolate_var_to_points", "save_as_netcdf",
        "build_face_face_connectivity", "build_edges", "build_boundaries", "build_edge_coordinates",
        "build_face_coordinates", "from_ncfile", "from_nc_dataset", "infer_location")
    tap(SGrid, "locate_faces", "locate_nearest", "interpolate_var_to_points", "interpolation_alphas", "save_as_netcdf",
        "load_grid", "build_celltree", "infer_location", "get_variable_by_index", "from_netCDF")
    tap(Grid_R, "locate_faces", "interpolate_var_to_points", "infer_location", "from_netCDF")
    tap(Grid_U, "from_netCDF")
    tap(Grid, "from_netCDF")
    for c in ("DepthBase", "L_Depth", "S_Depth", "ROMS_Depth", "FVCOM_Depth", "Depth"):
        k = getattr(D, c, None)
        if k is not None:
            tap(k, "interpolation_alphas", "locate_bounding_levels", "get_transect", "from_netCDF")
    tap(gridded.Dataset, "__init__", "save")
