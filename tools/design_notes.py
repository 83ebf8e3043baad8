ORACLE = {
"C01": "exact rational tensor-product interpolation (fields.py): time weights x layer/level weights x horizontal weights, the masks of the participating entries, and the documented treatment of everything out of range.",
"C02": "the same stateless reference for the *current* settings: history is nowhere in the model.",
"C03": "bitwise snapshots of every input before each call; results are overwritten with garbage after each call and nothing that follows may show it.",
"C04": "rational arithmetic on integer microseconds.",
"C05": "a plain list of datetimes moved by the net offset; for files, an independent parser of the units string.",
"C06": "exact bracketing by linear search over the list of levels.",
"C07": "the published stretching formulas evaluated directly, with exact bilinear/triangular h and zeta.",
"C08": "exact orientation tests on integers; ties on shared edges accept either face, the rim accepts its face or outside.",
"C09": "exact barycentric weights on the located face.",
"C10": "sets of edges and neighbours computed from the face lists by definition.",
"C11": "a model that holds only the current arrays; everything derived is compared with the definition in every state.",
"C12": "exact point-in-quadrilateral tests.",
"C13": "exact bilinear inverse of each cell (the query points are made from rational logical coordinates, so no root is solved by the oracle).",
"C14": "exact bracketing on the two axes.",
"C15": "the answer of the row alone, from the exact reference.",
"C16": "the exact answer of each component alone.",
"C17": "the description the file was written from by hand / the arrays saved; the file is read back with netCDF4 independently.",
"C18": "a table of what the documentation says each combination is.",
"C19": "loops as cyclic sequences up to direction, from set arithmetic on segments; an independent parser of the verdat format.",
"C20": "the set of values whose stated meaning is not water.",
"C21": "the table of consistent shapes; a refused assignment must leave every observable as it was.",
"C22": "arrays laid out by hand by the SGRID convention from the paddings; loaded grid compared with a grid made directly.",
"C23": "the contents the dataset was made of; saved files read back with netCDF4 independently.",
"C24": "exact rational interpolation of the source at every destination point.",
"C25": "the same coordinate made by hand from the terms the file describes.",
"C26": "sets of edges, nodes and labels from the mesh's own faces by set arithmetic; clicks by exact rational point-in-polygon.",
}
NOTES = {
"C01": ["decimal (non-dyadic) coordinates on cell edges may be taken for either side (a hairline gap is accepted)", "at a level exactly, either adjacent layer is accepted for layer data"],
"C04": [], 
"C06": ["data on layers: at a level exactly either adjacent layer is accepted"],
"C07": ["a point exactly on the sea floor may be in or out for sigma depths (rounding of zeta+h)"],
"C08": ["batches have at least one point: cell_tree2d rejects empty batches", "on an edge whose slope no double holds, the cell tree may leave a hairline in neither face"],
"C13": ["`alphas` passed by the caller, and masked_interpolant_behavior for node data, are not reachable through Variable.at and not asserted"],
"C14": ["points exactly on the outer rim may be located or not", "swapped (lon, lat) data need an explicit location (pinned)", "data whose dimension names are not those of the coordinates are refused when queried"],
"C18": ["a type attribute that contradicts the topology variable: refusal or the topology's grid are both accepted", "composite nodes without faces are unspecified", "3x3 connectivity without any convention is read in Fortran order (as documented)"],
"C19": ["open boundaries and loops that touch in a point are not representable in the format"],
"C21": ["a time dimension is recognised by 'time' in its name (documented)", "square data without dimension names raise ValueError", "the name taken by two unnamed variables raises ValueError although NameError is documented"],
"C22": ["edge interpolation is only claimed for (y, x) storage", "data of variables that are not of the grid are not saved, by design", "hand-made SGrids without names cannot be saved", "a mask belongs to the coordinates with its dimensions"],
"C23": ["files of a multi-file dataset share their time units (MFDataset's own requirement)", "the `name` of a variable and its key in `variables` may differ", "a non-coordinate variable whose length coincides with some part of the mesh is placed by length, as documented", "(1, N) data are saved flattened"],
"C24": ["Grid_R sources whose dimension names are not the coordinate names are refused"],
"C25": ["calls of interpolation_alphas with a layer shape are not made by Variable.at and not asserted", "look-alikes in the data file against named terms in the grid file are unspecified", "incomplete FVCOM terms beside a look-alike described the same: skipped"],
"C26": ["artists on the axes are judged, not pixels", "faces of more than three sides may be refused by the drawing (Triangulation does)", "a click off the mesh may select nothing or, as documented, the nearest face", "matplotlib, pandas and shapely are needed; they are in the environment the tests run in"],
}
