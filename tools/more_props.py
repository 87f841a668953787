prop(
    "C15", "A mesh and its variables saved to netCDF load back as they were",
    "Saving an unstructured mesh to any supported format and loading it back, through any of the loading entry points, gives the same nodes, faces (also mixed triangles and quads), edges, boundaries, face-face and face-edge connectivity and face, edge and boundary coordinates, under the same mesh name, including meshes of only a few faces; and the file declares each of them as the UGRID conventions say, so other software finds them too. "
    "Variables on nodes, faces, edges and boundaries of a saved dataset come back under their own names with the same values, masks, location, units and attributes, together with the global attributes, also after a second save. "
    "An unknown format is refused before anything is written.",
    ["inputs", "configurations"], "all meshes, optional parts, variables (plain, masked, filled, packed), attributes, formats and ways of loading",
    "The tests save and reload one or two meshes with the default parts and hardly look at the variables.",
    ["gridded/pyugrid/ugrid.py", "gridded/pyugrid/read_netcdf.py", "gridded/gridded.py", "gridded/pyugrid/ugrid_dataset.py", "gridded/variable.py"],
    [("UGrid.save / save_as_netcdf, load_grid_from_nc_dataset, Dataset.save / from_netCDF", "gridded/pyugrid/ugrid.py, gridded/pyugrid/read_netcdf.py, gridded/gridded.py")],
    "the written file is read back by the library and compared with what was put in, element by element")
prop(
    "C16", "A UGRID file is read right however its arrays are laid out",
    "A mesh written by other software loads as the mesh it describes whether its connectivity is zero-based or one-based (declared by start_index, or one-based undeclared), stored elements-first or transposed (declared by the dimension attribute or evident from the shape), of any integer type, with fill values and out-of-mesh flags kept apart from indices, and whether coordinates are recognised by standard name or units, in either order; or, in files that follow no convention, when its variables are told by a mapping of names. "
    "Of several meshes in a file the named one is loaded, and without a name the ambiguity is refused. "
    "Files without a mesh, without node coordinates, with coordinates that are missing or unrecognisable, or with faces of nodes that do not exist are refused.",
    ["inputs", "configurations"], "all layouts allowed by the UGRID conventions",
    "The tests read three or four sample files with one layout each.",
    ["gridded/pyugrid/read_netcdf.py", "gridded/pyugrid/ugrid.py"], [("load_grid_from_nc_dataset, find_mesh_names, is_valid_mesh", "gridded/pyugrid/read_netcdf.py"), ("load_from_varnames", "gridded/pyugrid/grid_io/utils.py")],
    "files generated with plain netCDF4 from a known mesh")
prop(
    "C18", "Connectivity built from a mesh is exactly the mesh's connectivity",
    "For every mesh of triangles, quads or both, the built edges are all distinct sides of the faces exactly once, the built boundaries are exactly the sides belonging to one face, entry j of a face's neighbor list is the face across its side j (between vertices j and j+1) or -1, and entry j of its edge list is the index of that edge (the closing side of a face with fewer nodes than others is left out). "
    "Built face, edge and boundary coordinates are the means of their nodes, and the line segments are the edges. "
    "Building in any order, repeatedly, or after the mesh was replaced describes the current mesh and never alters nodes or faces. "
    "Nodes, faces, edges or boundaries that are removed take their coordinates and the connectivity that refers to them along (so that the rest can still be saved), faces that are replaced take the connectivity along, edges and boundaries built anew take along what referred to others, and connectivity whose shape does not fit the faces is refused.",
    ["inputs", "histories"], "all manifold meshes of triangles, quads or both, any numbering, orientation, holes or separate parts, all orders of building",
    "The tests build connectivity for two tiny meshes.",
    ["gridded/pyugrid/ugrid.py"], [("UGrid.build_edges / build_face_face_connectivity / build_boundaries / build_face_edge_connectivity / build_*_coordinates / get_lines", "gridded/pyugrid/ugrid.py")],
    "side table computed independently from the face list")
prop(
    "C17", "An SGRID file is read and saved as the staggered grid it describes",
    "Loading a file with an SGRID topology gives the node, center and edge coordinates that the topology names (or, where it names none, those whose shape fits the location), the paddings matched to the array axes by dimension name, the masks that belong to each location, the file's angle or else the angle computed from the centers, and for every data variable its location, averaging axis, center slicing, vector direction and axes. "
    "Saving such a grid and loading it again preserves coordinates, topology and masks, and points located or values interpolated on a loaded grid are those of the grid the file describes. "
    "A file without an SGRID topology is refused.",
    ["inputs", "configurations"], "all shapes, paddings, dimension and variable names, orders of attributes, optional parts and masks",
    "The tests read hand-written files with one or two paddings and square shapes.",
    ["gridded/pysgrid/sgrid.py", "gridded/pysgrid/read_netcdf.py", "gridded/pysgrid/utils.py", "gridded/pysgrid/variables.py", "gridded/pysgrid/processing_2d.py"],
    [("load_grid, SGrid.save_as_netcdf, SGridVariable.create_variable, parse_padding / parse_axes", "gridded/pysgrid/sgrid.py, gridded/pysgrid/read_netcdf.py, gridded/pysgrid/variables.py")],
    "files generated with plain netCDF4 from a known grid; what was written is what must be found")
prop(
    "C20", "Mask variables separate water from land whatever their convention",
    "A mask variable converts to True on land and False on water: with flag_values and flag_meanings (numbers or strings, any order and letter case) the values whose meaning contains water, lake or river are water and all other, unlisted or missing values are land; with the option_0 convention 0 is land and 1 is water; otherwise non-zero is masked. "
    "Points in a cell whose center is land are off the grid, points in water cells are not, whether the grid was read by conventional names, through a topology mapping, or built from the mask variable.",
    ["inputs", "configurations"], "all mask values, types, flag tables, missing values and padded center masks",
    "The tests convert a handful of fixed masks.",
    ["gridded/utilities.py", "gridded/pysgrid/sgrid.py", "gridded/grids.py"], [("convert_mask_to_numpy_mask, gen_celltree_mask_from_center_mask", "gridded/utilities.py")],
    "the table of values and meanings the mask was written from")
prop(
    "C21", "The kind of grid and of depth in a file is recognised, or refused",
    "The grid of a file is taken as the type given by class or by name (any alias and letter case), else by the topology mapping, else by the file's grid_type attribute (an unknown one is ignored), else by its topology variable, else by the conventional variable names, and the grid so created has the coordinates and zero-based connectivity of the file, also through a mapping to variables of any name and letter case. "
    "An unknown type name and a file whose grid cannot be determined are refused. "
    "The depth of a file (or of separate data and grid files) is ROMS, FVCOM or level depth exactly when all the terms of that system are present; several systems are refused as ambiguous, and with none the surface-only depth is returned with a warning.",
    ["inputs", "configurations"], "all kinds of files, ways of saying the type, conflicts, names, and combinations of depth terms",
    "The tests try one file of each kind and a few names.",
    ["gridded/grids.py", "gridded/depth.py", "gridded/utilities.py"],
    [("Grid.from_netCDF, Grid._get_grid_type, _find_required_grid_attrs", "gridded/grids.py"), ("Depth.from_netCDF, search_netcdf_vars, can_create_class", "gridded/depth.py, gridded/utilities.py")],
    "files generated with plain netCDF4; the kind they were written as")
prop(
    "C22", "A Dataset holds every variable on its grid, with all attributes",
    "A Dataset loaded from a file, an open netCDF dataset or a list of files holds exactly the variables that lie on its grid and do not define it, each under its name with its location, units, attributes and the dataset's own grid, together with the global attributes; variables that are not on the grid (scalars, coordinates, text) are left out and do no harm. "
    "Looking variables up by attribute returns exactly those that have that attribute with that value, whatever its type, and the dataset's description names every variable.",
    ["inputs", "configurations"], "all kinds of grids, variables, attributes and auxiliary content",
    "The tests load two or three sample files and look at a few variables.",
    ["gridded/gridded.py", "gridded/grids.py", "gridded/variable.py", "gridded/utilities.py"], [("Dataset.from_netCDF, Dataset._variables_from_netCDF, get_variables_by_attribute", "gridded/gridded.py"), ("infer_location", "gridded/grids.py, gridded/pysgrid/sgrid.py, gridded/pyugrid/ugrid.py")],
    "the list of variables, locations and attributes the file was written from")
prop(
    "C26", "A variable read from files answers with the numbers in the files",
    "A scalar or vector variable created from files has the units, attributes, time axis, location and values stored in them and interpolates to the values the file describes, for rectangular (either dimension order, coordinates under any dimension names), FVCOM, UGRID, ROMS and SGRID files alike. "
    "It makes no difference whether the source is one file, a list of files split in time, separate grid and data files, paths, open datasets or a ready-made grid, or whether the data is loaded at once or left in the file. "
    "An open dataset and explicit grid and data files take precedence over the file name, and units, name, time axis, time shift, zone, grid, depth, location or fill value that are asked for take precedence over what the file says. "
    "Classes that list the names of their variables find them by name, else by standard or long name, the first listed first.",
    ["inputs", "configurations"], "all kinds of model files, splits, file formats and ways of naming the source",
    "The tests read sample files in one or two ways and compare few values.",
    ["gridded/variable.py", "gridded/grids.py", "gridded/utilities.py", "gridded/pyugrid/ugrid.py", "gridded/pysgrid/sgrid.py"],
    [("Variable.from_netCDF, VectorVariable.from_netCDF", "gridded/variable.py"), ("parse_filename_dataset_args, get_dataset", "gridded/utilities.py")],
    "weights known by construction applied to the data written to the file")
prop(
    "C19", "Depths on a mesh survive the verdat file format",
    "Saving a mesh with depths as verdat and loading it gives every node with its coordinates and depth (to the printed precision) exactly once, with the same boundary segments and the same units (feet or meters, however spelled). "
    "In the file each boundary is one consecutive closed loop, boundaries come first and the other nodes follow in node order, for boundaries built from the mesh or given in any order and direction. "
    "The dataset is not altered; units that verdat does not know are refused before anything is written, a broken boundary section is refused on loading, and without a depth variable all depths are one.",
    ["inputs", "configurations"], "all meshes with boundaries that do not touch each other, any numbering, order and direction of segments",
    "The tests save and load one small mesh.",
    ["gridded/io/verdat.py", "gridded/pyugrid/ugrid.py"], [("save_verdat, load_verdat, order_boundary_segments", "gridded/io/verdat.py")],
    "the mesh and depths that were saved; loops walked from the segment table")
prop(
    "C24", "Grids are equal only if they are the same, and data lies where its shape says",
    "Two meshes are equal exactly when their nodes, faces and boundaries are, two curvilinear grids exactly when their node and center coordinates and masks are, and a grid never equals another kind of grid or another object. "
    "Data without a declared location is placed at the only location of the grid its last dimensions fit, whatever its leading dimensions, and nowhere if it fits none; a declared location is kept and an unknown one refused.",
    ["inputs", "configurations"], "all grids of the kinds, single differences, shapes of data",
    "The tests compare one pair of grids and infer the location of a few arrays.",
    ["gridded/pyugrid/ugrid.py", "gridded/pysgrid/sgrid.py", "gridded/grids.py", "gridded/variable.py"],
    [("__eq__, infer_location", "gridded/pyugrid/ugrid.py, gridded/pysgrid/sgrid.py, gridded/grids.py"), ("Variable.location", "gridded/variable.py")],
    "the single difference planted; the shape the data was made for")
prop(
    "C25", "Staggered velocities come out true at cell centers, bearings great-circle",
    "Slicing a staggered component with the slicing of its variable and averaging along its axis gives the mean of the two faces of every cell, masked where either is; rotation by the grid angle turns each vector by that angle, keeps its length and masks and is undone by the opposite angle; the vector sum is the speed. "
    "The bearing and the angle from east between points are those of the great circle, across the antimeridian and near the poles too; coordinate pairs stay paired; a point is in a polygon exactly when it lies inside its outline, whatever the orientation, start or convexity.",
    ["inputs"], "all staggered fields with masks, angles, points and simple polygons",
    "The tests use one or two tiny arrays.",
    ["gridded/pysgrid/processing_2d.py", "gridded/pysgrid/utils.py", "gridded/pysgrid/variables.py"],
    [("avg_to_cell_center, rotate_vectors, vector_sum", "gridded/pysgrid/processing_2d.py"), ("calculate_bearing, calculate_angle_from_true_east, pair_arrays, points_in_polys, determine_variable_slicing, infer_avg_axes", "gridded/pysgrid/utils.py")],
    "complex arithmetic per cell; great circles in three dimensions; winding angle")
prop(
    "C23", "A picture of a grid shows exactly that grid; picked cells are logged right",
    "A triangle mesh drawn on axes shows exactly its sides, its boundaries, and as asked its nodes, node numbers and face numbers each at its place; a curvilinear grid shows exactly its grid lines (and nodes). Drawing changes neither nodes nor faces nor anything else the grid was given. "
    "In the FVCOM inspector, a click inside an element highlights that element and no other, names it and its nodes, and adds one row to the log with the element, its three nodes and their places (longitudes from -180 to 180, whatever range the file uses); clicks outside the mesh, beside the axes or with other buttons add none, a given spill location is marked, and a new session starts a new log.",
    ["inputs", "histories"], "all triangle meshes (any number of faces) and curvilinear grids, all options, all longitude ranges, all sequences of clicks",
    "The tests draw a few samples without looking at the result; the inspector has no tests.",
    ["gridded/plotting/mpl_plotting.py"], [("plot_ugrid, plot_sgrid", "gridded/plotting/mpl_plotting.py"), ("GridGeoGenerator, PureMatplotlibFVCOMViewer", "gridded/plotting/mpl_plotting.py")],
    "segments, marks and texts read back from the artists; the log file parsed")
prop(
    "C28", "Indexing a wrapped variable is indexing its data",
    "Indexing a UVar, UMVar or SGridVariable with anything its data accepts gives exactly what the current data gives (for UMVar the components side by side), whatever was asked before, whatever was done to earlier results, and for data in memory or in a file. "
    "Shape, extremes, length and attributes are those of the data; components of another shape or of the same name are refused.",
    ["inputs", "histories"], "all histories of indexing and replacing data",
    "The tests index once with a short index.",
    ["gridded/pyugrid/uvar.py", "gridded/pysgrid/variables.py"], [("UVar, UMVar", "gridded/pyugrid/uvar.py"), ("SGridVariable.__getitem__", "gridded/pysgrid/variables.py")],
    "numpy indexing of a private copy of the data")
