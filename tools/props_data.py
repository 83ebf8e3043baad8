NOTE = ("Exhaustive within the stated bounds, on the real code, against a reference model written independently of it; nothing is said about "
        "sizes or values beyond the bounds. Trusts numpy, netCDF4, cell_tree2d/scipy as installed and the reference model in vmc/. ")
NOT_APPLICABLE = []

prop("C04", "A time axis brackets and weighs every instant correctly",
     "For every strictly increasing series of times and every instant, the axis reports whether the instant is in range, the index of the first "
     "entry not before it, and the linear weight between the two bracketing entries, with exact 0 and 1 at entries. Out-of-range instants are "
     "rejected unless extrapolation is asked for, in which case they clamp to the nearest end. A series that is not strictly increasing is refused.",
     ("inputs", "configurations"), "all strictly/non-strictly increasing series up to the bound and all instants on, between and beyond the entries",
     "The tests query a handful of instants of two or three fixed series; off-by-one and boundary faults sit between those.",
     ["gridded/time.py"], [("binary search and validity tests", "Time.index_of, valid_time, interp_alpha"), ("ordering test", "Time.data setter")],
     observe=["Time methods", "OutOfTimeRangeError, TimeSeriesError"],
     technique="exhaustive enumeration of small time series x instants on the real code vs a rational-arithmetic model", note=NOTE)

prop("C05", "Time zone, origin and displacement edits compose exactly",
     "After any sequence of setting the time-zone offset, shifting the origin or displacing the axis, the times equal the original ones moved by "
     "exactly the net amount, undoing an edit restores them, and the caller's own array is never changed. Times read from a file are the instants "
     "that the file's units denote, whatever spelling of the UTC offset the units use, and the offset is reported in ISO form that denotes the same offset.",
     ("histories", "inputs"), "all edit sequences up to the bound over an alphabet of offsets (whole, fractional, positive, negative, cleared) and all unit spellings in the bound",
     "The tests do one edit at a time on one series; drift, lost edits and sign faults need sequences and unusual offsets.",
     ["gridded/time.py"], [("offset arithmetic", "Time.tz_offset setter, Time.__init__"), ("unit parsing", "parse_time_offset, Time.from_netCDF"), ("TZOffset", "gridded/time.py")],
     state=[("time data and current offset", "net shift applied so far", "Time.data, Time.tz_offset")],
     observe=["Time.data", "Time.tz_offset", "files loaded with Time.from_netCDF"],
     technique="explicit-state search over edit histories on the real code vs a (base, net shift) model; exhaustive unit spellings", note=NOTE)

prop("C08", "Every point is located in the one mesh face that contains it",
     "On an unstructured mesh a point strictly inside a face is located in that face, a point outside every face is reported as outside, and a point "
     "on a shared edge in one of the faces touching it, independently of vertex order, node numbering, face size, search method or how often and in which form it is asked. "
     "The nearest-node and nearest-element searches return an element at minimal distance.",
     ("inputs", "configurations"), "all meshes of the bounded families, all query points of a lattice inside, outside and on edges, all methods and call forms",
     "The tests locate a few points in two fixed meshes with counter-clockwise faces and never compare the methods.",
     ["gridded/pyugrid/ugrid.py", "gridded/pyugrid/util.py"], [("cell tree search", "UGrid.locate_faces"), ("exact point in triangle test", "point_in_tri"), ("nearest search", "UGrid.locate_nodes")],
     observe=["locate_faces", "index_of", "locate_nodes"],
     technique="exhaustive enumeration of small planar meshes x lattice queries on the real code vs exact rational geometry", note=NOTE)

prop("C09", "Interpolation on an unstructured mesh reproduces the linear field",
     "A value interpolated from node data is the barycentric combination of the three nodes of the containing triangle, a value from face data is that "
     "face's value, and a value off the mesh is the documented zero, whatever the data of other faces. The answer does not depend on vertex order, "
     "node numbering, batching, data container or on earlier queries.",
     ("inputs", "configurations", "histories"), "all meshes of the bounded families, node/face data, query points inside, on edges, outside; data containers, slices and query histories in the bound",
     "The tests interpolate a few points on one two-triangle mesh; wrong weights show only for other orders and shapes.",
     ["gridded/pyugrid/ugrid.py"], [("barycentric weights", "UGrid.interpolation_alphas"), ("gather and combine", "UGrid.interpolate_var_to_points")],
     observe=["interpolate_var_to_points", "interpolation_alphas"],
     technique="exhaustive enumeration of small meshes x queries x data forms vs exact barycentric arithmetic", note=NOTE)

prop("C10", "Derived mesh topology is exactly the topology of the faces",
     "Edges, face neighbours, boundary segments, face-edge links and face/edge/boundary centres built from any valid set of faces are exactly those the "
     "faces define (each undirected edge once, neighbours symmetric, boundaries the edges of one face), for triangles and flexible faces alike. "
     "Face arrays are accepted zero- or one-based, plain or masked, and the caller's array is left alone.",
     ("inputs", "configurations"), "all meshes of the bounded families in plain/masked, zero/one-based form",
     "The tests build topology for two fixed meshes; degenerate, disconnected and mixed meshes are not reached.",
     ["gridded/pyugrid/ugrid.py"], [("edge and neighbour builders", "UGrid.build_edges, build_face_face_connectivity, build_boundaries, build_face_edge_connectivity"), ("centres", "UGrid.build_*_coordinates")],
     observe=["edges", "face_face_connectivity", "boundaries", "face_edge_connectivity", "*_coordinates"],
     technique="exhaustive enumeration of small meshes vs a set-based topology model", note=NOTE)

prop("C11", "Editing an unstructured grid never leaves a stale answer",
     "After any sequence of replacing, deleting or building nodes, faces, edges and derived topology, interleaved with queries, the grid answers every "
     "query exactly as a grid freshly made from its current nodes and faces would.",
     ("histories",), "all operation sequences up to the bound over an alphabet of edits, builds and queries",
     "Tests set attributes once; a stale tree or memo needs query-edit-query sequences.",
     ["gridded/pyugrid/ugrid.py"], [("invalidation in setters", "UGrid.nodes, faces, edges setters and deleters"), ("memo dictionaries and trees", "UGrid._cell_tree, _kdtree, _ind_memo_dict, _alpha_memo_dict")],
     state=[("caches", "search trees, location and weight memos, derived topology", "UGrid")],
     observe=["locate_faces", "interpolate_var_to_points", "locate_nodes", "topology attributes"],
     technique="explicit-state search over edit/build/query histories of the real object vs a cache-free model", note=NOTE)

prop("C12", "Every point is located in the unmasked curvilinear cell that contains it",
     "On a logically rectangular grid a point strictly inside an unmasked cell is located at that cell's row and column, and a point in a masked cell, in "
     "a cell without coordinates or outside the grid is reported as outside, for every orientation, mirroring, shear, mask, mask padding and order of "
     "queries. Asking for the masks to be ignored or respected takes effect for that and later queries.",
     ("inputs", "configurations", "histories"), "all convex quadrilaterals on a lattice, all warped/turned grids in the bound, all cell and node masks, all paddings, all query histories in the bound",
     "The tests locate points in one or two axis-aligned grids with a single mask.",
     ["gridded/pysgrid/sgrid.py", "gridded/grids.py", "gridded/utilities.py"], [("cell tree over unmasked cells", "SGrid.build_celltree"), ("index translation and memo", "SGrid.locate_faces")],
     state=[("cell tree, its mask mode, index memo", "", "SGrid._cell_tree*, _cell_ind_memo_dict")],
     observe=["locate_faces", "index_of", "locate_nearest"],
     technique="exhaustive enumeration of small curvilinear grids, masks, paddings and query histories vs exact geometry", note=NOTE)

prop("C13", "Curvilinear interpolation weights the right cell values",
     "At a point whose in-cell coordinates are known, node data give the bilinear combination of the four corners, edge data the linear combination of "
     "the two opposite edges, and centre data the cell's value, read at the index the padding implies; masked inputs follow the chosen masking behaviour and "
     "points off the grid are masked (or filled when asked). A nearest-value query returns the value at the nearest position of its kind. This holds for every orientation, mirroring, mask, padding, container, call form and query order.",
     ("inputs", "configurations", "histories"), "all convex quadrilaterals on a lattice x in-cell positions, warped/turned grids, paddings, data and cell masks, call forms, query histories in the bound",
     "The tests interpolate on axis-aligned rectangles without padding; rotated or mirrored cells, cell edges and paddings are not reached.",
     ["gridded/pysgrid/sgrid.py"], [("inverse bilinear map", "SGrid.x_to_l, _compute_transform_coeffs"), ("index padding", "SGrid.apply_padding_to_idxs"), ("combination", "SGrid.interpolate_var_to_points, compute_interpolant")],
     observe=["interpolate_var_to_points"],
     technique="exhaustive enumeration of cells, positions, paddings and masks on the real code; forward bilinear map as oracle", note=NOTE)

prop("C01", "A variable's value is the product of its time, depth and space interpolations",
     "The value of a variable at a point, depth and instant is the linear combination of exactly the bracketing time entries, the bracketing depth levels and the "
     "horizontal neighbours, with the weights the axes give. This holds for every grid kind, place on the grid, dimension order, data container, call form and boundary "
     "setting, and values outside the brackets never influence it. Points off the grid are masked or zero as documented for the grid.",
     ("inputs", "configurations"), "all combinations of horizontal fixtures, time axes, depth axes, containers and call forms in the bound; instants and depths on, between and beyond every entry",
     "The tests query a few combinations at interior points; swapped brackets, wrong clamping and misplaced axes sit in untested combinations.",
     ["gridded/variable.py", "gridded/grids.py", "gridded/depth.py", "gridded/time.py"],
     [("time interpolation", "Variable._time_interp"), ("depth interpolation", "Variable._depth_interp"), ("horizontal interpolation", "Variable._xy_interp"), ("dispatch", "Variable.at")],
     observe=["Variable.at"], technique="exhaustive enumeration of grid x time x depth x container x call form on the real code vs exact tensor weights", note=NOTE)

prop("C02", "What a variable answers does not depend on what was asked or set before",
     "For every history of queries, attribute assignments, time-zone edits and edits of returned arrays, a variable or vector variable answers each query exactly "
     "as a freshly made object with its current settings would; this includes assignments to the time axis, mesh, depth levels, bathymetry or surface it is made of. Variables that share a grid or a time axis do not disturb one another.",
     ("histories",), "all histories of queries and edits up to the bound over the operation alphabet, on scalar and vector variables with and without depth",
     "Tests ask once or twice; a stale or colliding memo needs particular query-edit-query histories.",
     ["gridded/variable.py", "gridded/pysgrid/sgrid.py", "gridded/pyugrid/ugrid.py"], [("result memo", "Variable._get_memoed, _memoize_result"), ("time memo and grid memos", "Variable.at, SGrid, UGrid")],
     state=[("result memo", "answers already given", "Variable._result_memo"), ("grid memos", "located cells and weights", "UGrid._ind_memo_dict, SGrid._cell_ind_memo_dict")],
     observe=["Variable.at", "VectorVariable.at"], technique="explicit-state search over query/edit histories of the real objects vs a memo-free model", note=NOTE)

prop("C03", "Queries leave the caller's arrays alone and hand out independent results",
     "No query changes the arrays, lists, masks or dictionaries the caller passed in, in any container form. An array a query returned can be overwritten without "
     "changing any later answer or any of the caller's data.",
     ("histories", "inputs"), "all sequences of public queries up to the bound in 8 object families, with writable, read-only, masked, list and strided inputs",
     "Tests look at results, not at their inputs afterwards, and never scribble on results.",
     ["gridded/variable.py", "gridded/pysgrid/sgrid.py", "gridded/pyugrid/ugrid.py", "gridded/utilities.py"], [("copying of queries and memos", "Variable.at, locate_faces, interpolate_var_to_points"), ("masks and slices", "gridded/utilities.py")],
     observe=["inputs before and after each call", "later answers"], technique="exhaustive call sequences with bitwise input comparison and poisoned results", note=NOTE)

prop("C06", "Fixed depth levels bracket and weigh every depth correctly",
     "For every strictly monotonic set of levels, in either order, a depth is placed between its two bracketing levels with the linear weight, in the layer that contains it when data "
     "are on layers. Above the first and below the last level the surface and bottom boundary conditions given per call, per object or by default apply (mask or extrapolate), and each point is judged by itself.",
     ("inputs", "configurations"), "all level sets in the bound, both orders, all depths on/between/above/below, all boundary settings, levels and layers, batches",
     "The tests use one ascending level set and two or three depths.",
     ["gridded/depth.py", "gridded/variable.py"], [("bracketing and weights", "L_Depth.interpolation_alphas"), ("combination", "Variable._depth_interp"), ("surface depth", "DepthBase")],
     observe=["interpolation_alphas", "Variable.at"], technique="exhaustive enumeration of level sets x depths x boundary settings vs exact arithmetic", note=NOTE)

prop("C07", "Terrain-following depths follow bathymetry, surface and stretching",
     "On sigma coordinates (ROMS stretched, FVCOM) the depth of each level at a point and instant is the documented transform of the bathymetry and free surface interpolated to that "
     "point and instant; data are then linear between levels, constant over layers, and follow the boundary conditions above the surface and below the floor.",
     ("inputs", "configurations"), "all stretching tables, transforms, critical depths, bathymetries, free surfaces, instants, points and depths in the bound",
     "The tests use one ocean column from one file and never vary the surface or the transform.",
     ["gridded/depth.py"], [("ROMS transforms", "ROMS_Depth.get_s_coordinate, compute_depths"), ("FVCOM sigma", "FVCOM_Depth"), ("bracketing", "S_Depth.interpolation_alphas")],
     observe=["interpolation_alphas", "get_depth_profile", "Variable.at"], technique="exhaustive enumeration of columns x tables x depths vs the published formulas", note=NOTE)

prop("C15", "Each answer belongs to its point, whatever the batch, order or layout",
     "Row k of a batched answer is the answer for point k alone, for every batch size, order, repetition and split, whether points come as rows or columns, lists, tuples, "
     "integer, single-precision, strided, read-only or masked arrays, with or without a depth column. Arguments that cannot be points are refused.",
     ("inputs",), "all sequences of up to three points with repetition from a pool inside/outside/above/below, all permutations, all layouts, all grids",
     "Tests use one batch in one layout.",
     ["gridded/variable.py", "gridded/utilities.py"], [("layout normalisation", "utilities._reorganize_spatial_data, _align_results_to_spatial_data, spatial_data_metadata"), ("gathering", "interpolate_var_to_points")],
     observe=["Variable.at", "locate_faces", "interpolate_var_to_points"], technique="exhaustive batches, permutations and layouts on the real code vs single-point exact answers", note=NOTE)

prop("C16", "A vector variable is its components, column by column",
     "Column k of a vector variable's answer is the answer of component k, for every mix of component locations, shared or separate grids, time and depth axes and query settings. Setting time, units or "
     "name on the vector reaches the components consistently, and components loaded from a file come in the requested order however they are found.",
     ("inputs", "configurations"), "all pairs and triples of component places on each grid kind, time/depth axes, query settings, component orders in files",
     "The tests query one two-component vector.",
     ["gridded/variable.py"], [("component stacking", "VectorVariable.at"), ("component discovery", "VectorVariable.from_netCDF, _find_standard_names"), ("attribute propagation", "VectorVariable.time")],
     observe=["VectorVariable.at", "attributes", "from_netCDF"], technique="exhaustive component combinations x query settings vs exact per-component answers", note=NOTE)

prop("C14", "Rectangular grids give the bilinear value of the right cell",
     "On a grid with longitude and latitude vectors, ascending or descending, a point is located in the cell that contains it and interpolates to the bilinear combination of that cell's four corners, "
     "whichever order (lat, lon) or (lon, lat) the data are stored in; off the grid it is not located and gives zero. Data that cannot belong to the grid, or whose order cannot be told, are refused.",
     ("inputs", "configurations"), "all axes that are subsets of small lattices in both directions, all points on, between and beyond the nodes, all storage forms, files with all name pairs in the bound",
     "The tests use one or two ascending grids with a few points.",
     ["gridded/grids.py"], [("cell search", "Grid_R.locate_faces"), ("dimension order", "Grid_R.lonlat_to_yx"), ("interpolation", "Grid_R.interpolate_var_to_points"), ("inference", "Grid_R.infer_location")],
     observe=["locate_faces", "interpolate_var_to_points", "infer_location", "Variable.from_netCDF"], technique="exhaustive enumeration of axes x points x storage forms vs rational bilinear arithmetic", note=NOTE)

prop("C21", "A variable is accepted exactly when consistent and survives a refusal unchanged",
     "A variable is accepted exactly when its location is a valid one or can be told from the data's shape and its time axis is constant or as long as the data; anything else raises and leaves an existing object unchanged. "
     "With a constant or absent time the value at every instant is the data's own, with or without a depth dimension. A variable read from a file has the file's data, times, depth, location, units and attributes, loaded at once or lazily.",
     ("inputs", "histories", "configurations"), "all grids x time lengths x data shapes x locations x containers in the bound; all histories of good and bad assignments; all sets of file dimensions",
     "Tests construct a few consistent variables and hardly any inconsistent one.",
     ["gridded/variable.py", "gridded/grids.py"], [("checks", "Variable.data, time, location setters"), ("inference", "infer_location of the grids"), ("dimension order", "Variable.dimension_ordering"), ("loading", "Variable.from_netCDF, _gen_varname")],
     state=[("data, time, location", "last accepted values", "Variable")],
     observe=["construction", "attributes", "Variable.at"], technique="exhaustive construction combinations and assignment histories on the real code vs a consistency model", note=NOTE)

prop("C17", "An unstructured grid survives its file, in every dialect of the convention",
     "An unstructured grid saved and loaded again, in either format and through any of the saving and loading calls, is the same grid: same name, nodes, faces (with the unused entries of mixed ones), and exactly the optional "
     "parts it had (edges, boundaries, face-face and face-edge connectivity, coordinates), giving the same answers; saving changes nothing. Files that state the same mesh with another start index, storage order, "
     "coordinate convention, integer type or padding load as the same grid. Ill-formed or ambiguous files are refused, and a named mesh is the one loaded.",
     ("inputs", "configurations"), "all subsets of optional parts x meshes with coinciding sizes x formats x calls; all combinations of dialect choices",
     "The tests round-trip two meshes and read a few fixed files.",
     ["gridded/pyugrid/ugrid.py", "gridded/pyugrid/read_netcdf.py", "gridded/grids.py", "gridded/gridded.py"],
     [("writing", "UGrid.save, save_as_netcdf"), ("reading", "read_netcdf.load_grid_from_nc_dataset, find_mesh_names, is_valid_mesh"), ("index base and order", "start_index, transposition in load_grid_from_nc_dataset")],
     observe=["UGrid.save", "Dataset.save", "UGrid.from_ncfile", "Grid.from_netCDF", "Dataset.from_netCDF"], technique="exhaustive meshes x parts x dialects x calls, written, read back and compared", note=NOTE)

prop("C18", "The right grid is made of every file that describes one",
     "A file's grid is of the kind that an explicit type says, else its topology variable or type attribute, else the shape and names of its coordinates; types nobody knows are refused and files that describe no grid raise. "
     "Whatever the letter case and order of the variable names, the index base and the storage order, the grid has the file's nodes, faces, centres, edges and masks and no other; a topology dictionary names exactly the variables to use. "
     "An explicitly given dataset, grid file or data file is the one that is read, whatever form (path, list, open dataset) it is given in.",
     ("inputs", "configurations"), "all combinations of what can tell a grid's kind; all spellings of unconventional files; all topology dictionaries and all sources in the bound",
     "The tests load about a dozen fixed files, each with one way of telling its kind.",
     ["gridded/grids.py", "gridded/utilities.py", "gridded/pysgrid/sgrid.py"],
     [("choice of class", "Grid._get_grid_type"), ("search for names", "Grid_U/_S/_R._find_required_grid_attrs"), ("sources", "utilities.parse_filename_dataset_args, get_dataset"), ("conventions", "Grid_S.from_netCDF, SGrid.from_ncfile_dataset")],
     observe=["Grid.from_netCDF", "Grid_U/_S/_R.from_netCDF", "Variable.from_netCDF", "Dataset.from_netCDF"], technique="exhaustive enumeration of file descriptions, each built, loaded by the real code and compared with the description", note=NOTE)

prop("C25", "The vertical coordinate loaded is the one the file describes",
     "A file with the terms of one vertical system (ROMS or FVCOM s-levels, or plain depth levels), known by their names or by their long or standard names, in one file or shared over a data and a grid file, gives that coordinate with those terms, "
     "bathymetry and free surface, and answers depth queries as the coordinate made by hand of the same numbers; a missing free surface is zero, an incomplete system gives a surface-only coordinate, and variables that merely resemble a term are not used.",
     ("inputs", "configurations"), "all subsets of the terms x named or described x look-alikes x orders x divisions over two files x boundary settings",
     "The tests load one or two complete files.",
     ["gridded/depth.py", "gridded/utilities.py", "gridded/variable.py"],
     [("choice of system", "Depth.from_netCDF, can_create_class"), ("search for terms", "utilities.search_netcdf_vars"), ("assembly", "S_Depth.from_netCDF, FVCOM_Depth, ROMS_Depth, L_Depth.from_netCDF")],
     observe=["Depth.from_netCDF", "terms, bathymetry, zeta", "interpolation_alphas", "Variable.at"], technique="exhaustive enumeration of term subsets and file layouts on the real code vs hand-made coordinates", note=NOTE)

prop("C22", "A curvilinear grid survives its SGRID file",
     "An SGRID file loads as the grid it states: node, centre and edge coordinates (stated by attribute, or told by names or the variables' locations), masks, angles, and the padding of each array axis, in either storage order, so that "
     "each cell gets its own centre value and each edge value its own edge. Trimming and averaging a variable of the file as its slicing and axis say gives one value per cell, from the cell's own entries. "
     "Saved and loaded again the grid is the same, with the meaning of its masks and its variables' descriptions; saving changes nothing.",
     ("inputs", "configurations"), "all paddings of faces and edges x storage orders x ways of stating coordinates x subsets of coordinates and masks x number types",
     "The tests read three fixed files, with the same padding at every axis, and never compare what is saved.",
     ["gridded/pysgrid/sgrid.py", "gridded/pysgrid/read_netcdf.py", "gridded/pysgrid/utils.py", "gridded/pysgrid/variables.py", "gridded/pysgrid/processing_2d.py"],
     [("reading", "SGrid.load_grid, SGridAttributes"), ("padding", "parse_padding, SGrid.face_padding, edge1_padding, edge2_padding"), ("trimming and averaging", "determine_variable_slicing, infer_avg_axes, avg_to_cell_center"), ("writing", "SGrid.save_as_netcdf, _save_common_components")],
     observe=["load_grid", "Grid_S.from_netCDF", "SGridVariable attributes", "interpolate_var_to_points", "save_as_netcdf"], technique="exhaustive enumeration of SGRID descriptions, written by hand, loaded, saved and loaded by the real code and compared", note=NOTE)

prop("C19", "A verdat file holds the mesh's points, depths and boundary loops",
     "Boundary segments given in any order and direction are joined into the loops they form, each once. A mesh saved to a verdat file and loaded again has the same points, the same depths with their units, and the same closed boundary loops; "
     "field points and the points of boundaries are told apart. Loading a file gives exactly the points and loops it lists, however it is laid out, and ill-formed files are refused.",
     ("inputs", "orders"), "all small sets of segments in all orders and directions; all blocks of cells with islands and separate parts x numberings x face kinds x units; all divisions of a file's points into loops",
     "The tests order two fixed boundaries, save one mesh and load one file.",
     ["gridded/io/verdat.py"], [("ordering", "order_boundary_segments"), ("saving", "save_verdat"), ("loading", "load_verdat")],
     observe=["order_boundary_segments", "the file written", "load_verdat"], technique="exhaustive segment sets in all orders and block meshes, saved, parsed independently and loaded", note=NOTE)

prop("C20", "Masks mean what their metadata say",
     "A mask variable whose attributes state what its values mean is masked exactly where the meaning is not water (water, lake, river), whatever the values, number type, spelling, separators or packing; values without a stated meaning and missing values are masked. "
     "A mask without metadata is masked where it is not zero, or missing. Read from a grid's file, the land cells are exactly those in which no point is located.",
     ("inputs", "configurations"), "all forms of stating meanings x mask values; all masks of small arrays; all land of small grids x paddings x storage orders x ways of stating it",
     "The tests convert a handful of fixed masks.",
     ["gridded/utilities.py", "gridded/grids.py", "gridded/pysgrid/sgrid.py"], [("meaning", "utilities.convert_mask_to_numpy_mask, parse_mask of flags"), ("cells", "gen_celltree_mask_from_center_mask"), ("use", "SGrid.build_celltree, locate_faces")],
     observe=["convert_mask_to_numpy_mask", "gen_celltree_mask_from_center_mask", "locate_faces"], technique="exhaustive metadata forms x masks on the real code vs the stated meaning", note=NOTE)

prop("C23", "A Dataset is its grid, its variables and its attributes",
     "A Dataset gives exactly the grid, variables and attributes it was made of, from a file, a list of files or open datasets, whichever constructor is used: each variable of the file that lies on the grid, at its own location, with its values, missing values, "
     "number type, units and attributes, and none that does not; several files in time order are one. Saved and loaded again it is the same, and saving changes nothing. Queries for variables by attribute give exactly those that have it. "
     "Arguments that contradict each other, unknown formats and names that collide with the saved mesh's are refused, and an existing file is not overwritten unless asked.",
     ("inputs", "configurations", "histories"), "all kinds of variables x meshes x formats x ways of loading; all pairs of names; all small sets of the other variables of a file; all divisions over files x forms of source",
     "The tests load a few fixed files and save one mesh with one variable.",
     ["gridded/gridded.py", "gridded/grids.py", "gridded/pyugrid/ugrid.py", "gridded/pyugrid/uvar.py", "gridded/utilities.py", "gridded/variable.py"],
     [("loading", "Dataset.__init__, Dataset._load_variables, from_netCDF"), ("placing", "infer_location"), ("saving", "Dataset.save, UGrid.save_as_netcdf"), ("query", "get_variables_by_attribute"), ("opening", "utilities.get_dataset, get_writable_dataset")],
     observe=["Dataset.grid, variables, attributes", "files written by Dataset.save, read with netCDF4", "Dataset.info", "get_variables_by_attribute"],
     technique="exhaustive enumeration of datasets and files, saved and loaded by the real code and compared with the reference contents", note=NOTE)

prop("C24", "Regridding puts on the other grid what the source answers there",
     "A variable regridded onto another grid has, at every point of the location asked for, time and level, the value that the source gives for that point, and is masked where the source has none; "
     "times and depth axis are the source's, with sigma terms brought onto the new grid; each component of a vector likewise. A variable is returned unchanged onto its own grid, and the source is never changed.",
     ("inputs", "configurations"), "all kinds of sources x kinds of destinations x positions x time axes x depth axes x storage",
     "The tests regrid one or two fixed variables and compare shapes.",
     ["gridded/utilities.py"], [("regridding", "utilities.regrid_variable"), ("sigma terms", "_regrid_s_depth")],
     observe=["regrid_variable", "data, grid, time, depth and location of the result", "the source afterwards"],
     technique="exhaustive pairs of grids, positions and axes on the real code vs exact rational interpolation", note=NOTE)

prop("C26", "A drawing of a grid is a drawing of that grid",
     "What is drawn of an unstructured or structured grid is exactly its edges, each between its own two nodes and no other, its boundary segments if it has them, and, when asked for, a dot at each node, cell center or edge center "
     "and each node and face number at its own node and face, within the limits of the axes; masked nodes are not drawn, and the grid is not changed. "
     "The FVCOM inspector shows the mesh of the file on the -180 to 180 display whatever longitudes the file uses, a click selects the face it lies in, and each selection is one row of the file it writes.",
     ("inputs", "configurations", "histories"), "all meshes and grids of the bounded families x all options x boundaries x coordinates x storage; all lattice clicks and short sequences of clicks",
     "The tests draw a few files into image files that nobody compares.",
     ["gridded/plotting/mpl_plotting.py", "gridded/pyugrid/ugrid.py"], [("drawing", "plot_ugrid, plot_sgrid"), ("lines", "UGrid.get_lines"), ("inspector", "GridGeoGenerator, PureMatplotlibFVCOMViewer")],
     observe=["lines, markers, texts and patches on the matplotlib axes", "UGrid.get_lines", "fvcom_index_query", "the CSV file of the inspector"],
     technique="exhaustive enumeration of small grids x options, and of click histories, on the real code; the artists compared with the edges and nodes of the reference", note=NOTE)
