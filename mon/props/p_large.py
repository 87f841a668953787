"""The scenarios of other modules on larger workloads: grids of thousands of cells, hundreds of levels or steps, thousands of points.

Nothing in the properties depends on size; code that narrows indices, samples keys or works in blocks does.
"""

from . import p_depth, p_detect, p_field, p_files, p_misc, p_plot, p_sgrid, p_sgrid_io, p_time, p_ugrid, p_ugrid_io
from ..core import PROPS


def large(pid, fn, dims, quick):
    def scen(ctx):
        ctx.big = set(ctx.r.choice(dims))
        for d in ctx.big:
            ctx.event("large_" + d)
        fn(ctx)

    scen.__name__ = "large_" + fn.__name__
    PROPS[pid].scenario(quick=quick, thorough=quick * 10, needs=sorted({"large_" + d for k in dims for d in k}))(scen)


ALL = [("grid",), ("points",), ("time",), ("grid", "points"), ("grid", "time"), ("points", "time")]
DEEP = [("levels",), ("levels", "points"), ("grid",), ("time",), ("grid", "points")]
large("C04", p_field.scalar, ALL, 40)
large("C04", p_field.gaps, ALL[:3], 15)
large("C04", p_field.vector, ALL, 20)
large("C08", p_sgrid.interpolate, [("grid",)], 40)
large("C07", p_sgrid.locate, [("grid",)], 20)
large("C09", p_field.rectangular, [("grid",)], 40)
large("C10", p_field.history, [("grid",), ("points",), ("grid", "points")], 25)
large("C11", p_field.formats, [("points",), ("grid", "points")], 25)
large("C12", p_depth.bracket, [("levels",), ("points",), ("levels", "points")], 60)
large("C13", p_depth.columns, DEEP, 40)
large("C14", p_depth.values, DEEP, 50)
large("C14", p_depth.on_levels, DEEP, 20)
GRID = [("grid",)]
large("C02", p_time.shifts, [("time",)], 20)
large("C03", p_time.from_netcdf, [("time",)], 15)
large("C15", p_ugrid_io.mesh_round_trip, GRID, 10)
large("C15", p_ugrid_io.dataset_round_trip, GRID, 8)
large("C16", p_ugrid_io.foreign_files, GRID, 12)
large("C16", p_ugrid_io.by_names, GRID, 8)
large("C17", p_sgrid_io.sgrid_files, GRID, 8)
large("C17", p_sgrid_io.loaded_grid_answers, GRID, 8)
large("C18", p_ugrid_io.builders, GRID, 10)
large("C18", p_ugrid_io.in_step, GRID, 8)
large("C19", p_misc.roundtrip, GRID, 8)
large("C20", p_detect.masked_cells, GRID, 10)
large("C24", p_misc.equality, GRID, 15)
large("C24", p_misc.places, GRID, 15)
large("C25", p_misc.velocities, GRID, 10)
large("C22", p_files.datasets, [("grid",), ("time",)], 12)
large("C26", p_files.variables_from_files, [("grid",), ("time",), ("points",)], 25)
large("C26", p_files.missing_values, [("grid",), ("time",), ("points",)], 12)
large("C14", p_files.model_variables, [("grid",), ("time",), ("points",)], 15)
large("C23", p_plot.mesh_pictures, GRID, 3)
large("C23", p_plot.grid_pictures, GRID, 3)
large("C23", p_plot.inspector, GRID, 3)
