#!/usr/bin/env python
"""Writes properties.jsonl and MANIFEST.json from the texts below (run by hand after editing)."""

import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(pid, title, statement, over, text, why, files, mech, note, observe=()):
    P.append(dict(pid=pid, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note, observe=list(observe)))


prop(
    "C01", "An instant is bracketed by the right time stamps with the right fraction",
    "For every ascending time axis and every instant within it, the reported index is the number of stamps strictly before the instant and the reported fraction is the elapsed share of that interval, between 0 and 1, so that together they name exactly that instant. "
    "Instants outside the axis raise the out-of-range error unless extrapolation is asked for, in which case the answer clamps to the nearest end; a one-stamp axis is valid for all instants. "
    "Bounds checks agree with this, and asking never changes the axis.",
    ["inputs"], "all axes (any length, any spacing from microseconds to years) and all instants at, next to, between and beyond the stamps",
    "The tests use a handful of axes of a few stamps and a few fixed instants; off-by-one errors at stamps, microsecond spacings and long axes are not reached.",
    ["gridded/time.py"], [("Time.index_of / interp_alpha / valid_time / time_in_bounds", "gridded/time.py")],
    "reference bracketing in exact microsecond arithmetic compared on every query")
prop(
    "C02", "Time axes are strictly ascending and shift as a whole, apart from caller's data",
    "A time axis can only be built from strictly ascending stamps: any disorder or duplicate is refused. "
    "Origin, displacement and zone changes move every stamp by exactly the stated amount (displacement only once), the recorded zone offset always matches the stamps, and two axes are equal exactly when stamps and offset are. "
    "Arrays, lists and axes an axis was built from are never modified, and an axis and its copies are independent.",
    ["inputs", "histories"], "all axes, all combinations of origin, displacement, current and new zone offset, all sequences of zone changes",
    "The tests shift two or three short axes once; combinations of shifts, histories of zone changes and aliasing with the source are not sampled.",
    ["gridded/time.py"], [("Time.__init__, tz_offset and displacement setters, data setter", "gridded/time.py")],
    "reference arithmetic on naive datetimes after every step of a random history")
prop(
    "C03", "A time axis read from a file has the file's instants, calendar and zone",
    "Reading a time axis from a file gives exactly the instants the file encodes for its units, epoch, calendar and stored type, whether the axis is found by its own name or through a data variable that uses it. "
    "A zone suffix in the units is recorded as the offset of the axis while stamps stay in the file's own zone; an explicit zone (or none) overrides it and a requested new zone shifts the stamps by the difference. "
    "Variables without a time dimension get a constant axis.",
    ["inputs", "configurations"], "all units, epochs, zone suffixes, calendars, value types and ways of naming the axis",
    "The tests read one or two sample files with plain units; zone suffixes, 365-day calendars and overrides combine in ways they never see.",
    ["gridded/time.py"], [("Time.from_netCDF, parse_time_offset", "gridded/time.py")],
    "generated files compared with independent calendar arithmetic")
prop(
    "C04", "Values vary linearly between time steps, clamp or refuse outside, on every grid",
    "On every kind of grid and data location, the value of a variable at an instant between two time steps is the linear combination of the values at those steps with the elapsed share as weight, and equals the step's value at a step. "
    "Outside the time range a query raises the out-of-range error unless extrapolation is asked for, and then gives the value of the nearest step. "
    "Vectors behave like their components, and variables without time do not depend on the instant.",
    ["inputs"], "all grids, locations, time axes, instants and points",
    "The tests evaluate a few sample files at a few instants, mostly comparing with stored numbers on one grid type.",
    ["gridded/variable.py", "gridded/time.py"], [("Variable.at / _time_interp / _xy_interp", "gridded/variable.py"), ("VectorVariable.at", "gridded/variable.py")],
    "reference interpolation from weights known by construction, on unstructured, curvilinear and rectangular grids")
prop(
    "C05", "A point on a mesh is located in an element containing it, or none",
    "For every mesh of triangles, of convex quads, or of both (any numbering, orientation, holes, separate parts; zero- or one-based connectivity) a query point strictly inside an element is located in that element, a point outside all elements gets -1, and a border point gets one of the touching elements or -1; the nearest-node query returns a nearest node. "
    "The answer does not depend on how points are grouped, ordered or formatted, on how the numbers are stored (memory order, byte order, precision), on the search method, or on earlier queries, and follows the mesh when its nodes or faces are replaced or removed. "
    "Connectivity outside the node range is refused and the caller's arrays are left alone.",
    ["inputs", "histories"], "all valid meshes and query points",
    "The tests locate a handful of points on two tiny meshes and one sample file.",
    ["gridded/pyugrid/ugrid.py", "gridded/pyugrid/util.py"], [("UGrid.locate_faces, locate_nodes, build_celltree, nodes/faces setters", "gridded/pyugrid/ugrid.py"), ("point_in_tri", "gridded/pyugrid/util.py")],
    "barycentric geometry computed independently for every point and element")
prop(
    "C06", "Mesh interpolation is linear in each element and zero off the mesh",
    "Node data evaluated at a point inside an element is the barycentric combination of the three node values (so affine fields are reproduced and values never exceed the element's extremes); face data gives the containing element's value (also on quads); points off the mesh give 0. "
    "Interpolation weights are non-negative, sum to one and reproduce the point; off the mesh they are zero. "
    "This holds for data with extra dimensions selected by indices or carried along as columns; masked node values count as zero and an element with all nodes masked gives a masked value.",
    ["inputs"], "all triangulations, node and face fields, points, dimensions",
    "The tests check a few points on a 2-triangle mesh.",
    ["gridded/pyugrid/ugrid.py"], [("UGrid.interpolation_alphas / interpolate_var_to_points", "gridded/pyugrid/ugrid.py")],
    "independent barycentric evaluation")
prop(
    "C07", "A point on a curvilinear grid is located in its unmasked cell, or in none",
    "For every curvilinear grid of convex cells, in any orientation, a point strictly inside an unmasked cell is located in that cell and a point outside every cell or in a masked cell is reported as on no cell (masked), where cells are masked by the cell mask whatever its padding, else by node masks or masked coordinates. "
    "Queries that ignore masks and queries that honor them can be mixed freely without affecting each other, and neither the grouping or format of the points nor the storage of the arrays matters. "
    "The nearest node or center query returns a nearest one.",
    ["inputs", "histories"], "all grids, masks, paddings and query points",
    "The tests use one 4x4 grid and two sample files with one mask each.",
    ["gridded/pysgrid/sgrid.py", "gridded/utilities.py"], [("SGrid.build_celltree / locate_faces / locate_nearest", "gridded/pysgrid/sgrid.py"), ("gen_celltree_mask_from_center_mask", "gridded/utilities.py")],
    "cells known by construction and signed distances to all cell sides")
prop(
    "C08", "Curvilinear interpolation follows the cell's coordinates and the data's location",
    "Inside a cell, node data is bilinear in the cell's own coordinates (affine fields are reproduced), edge data is linear between the cell's two opposite edges, and center data is the cell's value, whatever the padding of the data. "
    "Points on no cell give masked values; masked data and edges between masked and unmasked cells follow the chosen policy (zero, mask or mirror), with zero the default. "
    "The storage of the arrays, leading dimensions selected by indices and precomputed cell indices change nothing else, and on request masked results are replaced by the given fill value.",
    ["inputs", "configurations"], "all grids, locations, paddings, masks, policies and points",
    "The tests interpolate a few points on one rectangular grid and one ROMS sample.",
    ["gridded/pysgrid/sgrid.py"], [("SGrid.interpolate_var_to_points / interpolation_alphas / compute_interpolant / get_padding_slices", "gridded/pysgrid/sgrid.py")],
    "points built from known cells and fractional coordinates")
prop(
    "C09", "Rectangular grids locate and interpolate in any axis direction and data order",
    "On a rectangular grid with ascending or descending longitudes and latitudes of any spacing, a point inside is located in the cell (longitude index, latitude index) that contains it and a point outside gets -1 in both. "
    "Data in latitude-longitude or longitude-latitude order (told apart by its dimension names or its shape), with or without leading dimensions, is interpolated bilinearly, masked values counting as zero, and points outside give zero. "
    "How the arrays are stored makes no difference. Data that is ambiguous or does not fit the grid is refused.",
    ["inputs"], "all axes, data orders, masks and points",
    "The tests use one or two ascending example grids.",
    ["gridded/grids.py"], [("Grid_R.locate_faces / lonlat_to_yx / interpolate_var_to_points / infer_location", "gridded/grids.py")],
    "separable bilinear reference")
prop(
    "C10", "Answers depend only on the query and the current data, never on earlier queries",
    "Any sequence of queries (other points, numbers of points, number types, instants, extrapolation, filling or boundary options, repeats, direct grid queries) leaves the answer to the next query, including whether it raises, exactly as a fresh object would give it. "
    "After new data (or the same array with new numbers), a new time axis, fill value or boundary condition is assigned, answers follow it at once; data and time axes of different lengths are refused and change nothing. "
    "Queries never modify their arguments or the data, and modifying a returned result never affects later answers, also among variables sharing one grid.",
    ["histories", "inputs"], "all histories of queries, assignments and result edits on scalars and vectors of every grid type, with and without depth",
    "The tests ask each object a few unrelated questions; result memos keyed on too little only show for particular pairs of queries.",
    ["gridded/variable.py", "gridded/pyugrid/ugrid.py", "gridded/pysgrid/sgrid.py"], [("result memos of Variable.at, search memos of the grids", "gridded/variable.py, gridded/pyugrid/ugrid.py, gridded/pysgrid/sgrid.py")],
    "differential oracle: a freshly built object asked only that query, plus an argument watcher on every public call")
prop(
    "C11", "One row per point in, one row per point out, whatever the format",
    "N query points in any accepted form (rows of an array, lists, tuples, coordinate columns, separate longitude and latitude lists, a single point, with or without a third coordinate) give an N x 1 result for a scalar and N x M for a vector of M components, in the order of the points. "
    "The row of a point does not depend on the other points in the query, their order or duplicates; asking for filled results replaces exactly the masked rows with the fill value. "
    "Constant variables give their constant everywhere, and input that cannot be points is refused.",
    ["inputs"], "all grids, points, formats, component counts and fill values",
    "The tests pass one format per test and mostly check shapes for a single set of points.",
    ["gridded/variable.py", "gridded/utilities.py"], [("Variable.at, VectorVariable.at, Variable.constant", "gridded/variable.py"), ("_reorganize_spatial_data", "gridded/utilities.py")],
    "metamorphic comparison of all formats plus the absolute reference")
prop(
    "C12", "Depths are bracketed by the right levels, with the stated rule above and below",
    "For level depths listed downwards or upwards, a depth between two levels is bracketed by them with the exact fractional distance as weight, and surface and bottom levels and counts are reported correctly. "
    "Above the shallowest and below the deepest level the result is masked or takes the outermost level, as the boundary condition in force says (by default: surface extrapolates, bottom masks; conditions given with the query win). "
    "How the levels are stored or typed makes no difference. Surface-only depths always give the surface index, and levels read from a file are the file's with the shallowest at zero.",
    ["inputs", "configurations"], "all level axes, depths and boundary conditions",
    "The tests use one 7-level axis in each direction.",
    ["gridded/depth.py"], [("L_Depth.interpolation_alphas, DepthBase", "gridded/depth.py")],
    "reference bracketing per depth")
prop(
    "C13", "Terrain-following columns span surface to seafloor and bracket depths",
    "For terrain-following coordinates (both vertical transforms on structured grids; node-varying sigma on meshes) the level and layer depths at any point and instant follow the published formulas from the bathymetry and free surface interpolated there, are strictly ordered, and run from 0 at the moving surface to the total water depth. "
    "A depth in the column is bracketed by the two levels around it with the exact fraction; above the surface and below the seafloor the boundary conditions apply, and points off the grid are masked. "
    "This also holds for columns built from files with cell-centered bathymetry and free surface, and when the free surface is missing (taken as zero).",
    ["inputs", "configurations"], "all grids, bathymetries, free surfaces, stretching terms, points, depths and instants",
    "The tests compare one synthetic column per model type.",
    ["gridded/depth.py"], [("S_Depth.interpolation_alphas / get_depth_profile / _apply_boundary_conditions; ROMS_Depth and FVCOM_Depth.get_s_coordinate", "gridded/depth.py")],
    "independent evaluation of the formulas and of the bracketing")
prop(
    "C14", "Values at depth come from each point's own column: between levels or per layer",
    "On every grid, a variable with level data evaluated at a depth is the linear combination of the two bracketing levels of that point's own column, and with layer data the value of the layer containing the depth, each level being interpolated horizontally and in time as without depth. "
    "Above and below the column the surface and bottom boundary conditions (of the query, else of the variable) decide between the outermost level or layer and a masked value, also when other levels are masked. "
    "Points in one query never affect each other, and surface-only depths answer from the surface index.",
    ["inputs", "configurations"], "all grids, locations, depth types, instants, points and boundary conditions, time before or after depth",
    "The tests evaluate two sample models at a few depths.",
    ["gridded/variable.py", "gridded/depth.py"], [("Variable._depth_interp / _time_interp / dimension_ordering", "gridded/variable.py")],
    "reference column values per point")

TECH = "runtime monitoring: oracle monitors on the real library under seeded workloads"


def main():
    exec(open(os.path.join(HERE, "tools", "more_props.py")).read(), globals()) if os.path.exists(os.path.join(HERE, "tools", "more_props.py")) else None
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["pid"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                            "observe_at": p["observe"] or ["public API calls and their results"], "hook_needed": None},
            }) + "\n")
            assert len(p["title"]) <= 80, (p["pid"], len(p["title"]))
    m = {
        "version": 1,
        "setup_cmd": "/opt/venv/bin/python -c \"import numpy, scipy, netCDF4, cell_tree2d\"",
        "checks": [{
            "property": p["pid"],
            "quick_cmd": "/opt/venv/bin/python /verif/run.py %s --tier quick" % p["pid"],
            "thorough_cmd": "/opt/venv/bin/python /verif/run.py %s --tier thorough" % p["pid"],
            "technique": TECH,
            "level": "exploration",
            "level_note": "monitors on the real code; %s. Reach: seeded random workloads, counts in the evidence file." % p["note"],
        } for p in P],
        "not_applicable": [],
        "notes": "No hooks in /repo: monitors wrap the public API at run time. Exit 2 = inconclusive. Fixed defects are listed in known_findings.txt.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
