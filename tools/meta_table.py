prop("P01", "Node order within a cell survives writing and reading back",
     "For every file format that meshio can both write and read, and every cell type the format supports, the nodes of a cell come back in the same order in which "
     "they were given. Any reordering done to meet the format's own node numbering when writing is undone exactly when reading, in every encoding variant (text, binary, compressed, format version).",
     ["inputs", "configurations"], "all meshes of the supported cell types, all formats and option variants",
     "Tests only write a few small meshes per format; many higher-order types and option variants are never written and read back, and a wrong permutation yields a valid-looking mesh.",
     ["src/meshio/gmsh/common.py", "src/meshio/_vtk_common.py", "src/meshio/permas/_permas.py", "src/meshio/nastran/_nastran.py", "src/meshio/netgen/_netgen.py",
      "src/meshio/flac3d/_flac3d.py", "src/meshio/avsucd/_avsucd.py", "src/meshio/ugrid/_ugrid.py"],
     [("node reordering tables", "gmsh/common.py _gmsh_to_meshio_order/_meshio_to_gmsh_order; _vtk_common.py vtk_to_meshio_order; permas, netgen, flac3d, avsucd order tables")],
     "connectivity rows at file-output calls and in the Mesh a reader constructs",
     "abstract interpretation: provenance of connectivity columns through every writer and reader; composition of permutations must be the identity",
     "exact for every (format, variant, type) whose columns are tracked exactly; others are listed as undecided in the evidence")
prop("P02", "Node indices use the format's index base in both directions",
     "Connectivity and point-set indices are zero-based in a mesh; a writer adds exactly the index base of its file format (0 or 1) to each of them and the reader of that format removes exactly the same amount, "
     "for every cell type and every encoding variant. "
     "Where a format numbers its nodes explicitly (Abaqus, AVS-UCD, FLAC3D, Gmsh, Nastran, PERMAS), references are resolved by those numbers, which may come in any order and with gaps.",
     ["inputs", "configurations"], "all meshes, formats, cell types, encoding variants and node numberings",
     "An off-by-one shift in one cell type, variant or set kind only shows on inputs the tests do not contain, and a shifted mesh is structurally valid.",
     ["src/meshio"], [("index shifts", "`+ 1` / `- 1` on connectivity and set arrays in each format module")],
     "indices at file-output calls and in the Mesh a reader constructs",
     "abstract interpretation: constant offsets on connectivity/set indices tracked from the caller's mesh to output sinks and from file reads to Mesh(...)",
     "readers that translate ids through a lookup table are undecided on the reader side; the writer side is decided for all formats")
prop("P05", "Writing never modifies the mesh being written",
     "Writing a mesh to any format with any options leaves the caller's mesh exactly as it was: its points, cell blocks, point, cell and field data, and point and cell sets are neither replaced, extended, "
     "converted nor changed in place, so the same mesh can be written again or to another format with the same result.",
     ["inputs", "histories", "configurations"], "all meshes and data layouts, all formats and options, any sequence of writes of the same mesh",
     "Tests build a fresh mesh for each write and compare against it after the write, so an altered input is compared with itself.",
     ["src/meshio/_helpers.py", "src/meshio/vtk", "src/meshio/vtu", "src/meshio/ply", "src/meshio/flac3d", "src/meshio"],
     [("mesh handed to writers", "_helpers.py write() passes the caller's object to every writer")],
     "the caller's Mesh object after write() returns or raises",
     "ownership/effect analysis by abstract interpretation: any store or in-place operation reaching an object owned by the caller's mesh is reported",
     "decided for each format x option variant x 9 block layouts x 8 data layouts; unmodelled library calls are assumed not to modify arguments")
prop("P07", "No cell block is dropped or truncated silently when writing",
     "When a write completes without an exception, every cell block of the mesh has been written with all its nodes, or the user has been warned. "
     "A cell type the format cannot express, several blocks of one type, or blocks in an unusual order are never left out without an error or a warning.",
     ["inputs", "configurations"], "all sequences of cell blocks, all formats and options",
     "Tests write meshes chosen to be supported by the format, mostly with a single block; dropping data produces a valid file and no error.",
     ["src/meshio/_helpers.py", "src/meshio"], [("per-block writing loops and type filters", "each format module's write()"), ("warnings", "_common.py warn()")],
     "output calls, exceptions and warnings of a write",
     "must-analysis by abstract interpretation: on each completing path every block's connectivity columns reach an output sink or the warn helper was called",
     "decided for every format x variant x 26 cell types x 3 layouts x 2 point dimensions; for medit, su2, tecplot and stl only 'never written' is decided")
prop("P03", "Cell types keep their identity across writing and reading",
     "The element designation a format uses for a cell type is the one its specification assigns to that type, and a cell block written under a designation is read back as a block of the same type. "
     "This holds for every designation a format's reader understands, including synonyms written by other programs, and the node count attached to a designation is that of the type.",
     ["inputs", "configurations"], "all cell types, all formats and variants, all designations and synonyms in the formats' tables",
     "Tests round-trip common types only; most synonyms and higher-order designations appear in no test file, and a swapped pair still round-trips through meshio itself.",
     ["src/meshio"], [("designation tables", "e.g. abaqus_to_meshio_type, exodus_to_meshio_type, _gmsh_to_meshio_type, vtk_to_meshio_type, xdmf_to_meshio_type, xdmf_idx_to_meshio_type, nastran_to_meshio_type")],
     "designations at file-output calls and the tables a reader indexes with file content",
     "dataflow analysis (abstract interpretation): designations reaching the output because a cell type was looked up, composed with the reader's lookup tables and compared with a vetted designation table",
     "types chosen without a table lookup (fixed keywords compared in code) are undecided; the vetted table lists only designations checked against the format documentation")
prop("P04", "Cell type metadata is right for every documented cell type",
     "For each documented cell type, the number of nodes per cell and the topological dimension meshio uses are those of the shape and order in its name. "
     "Every documented type can be used to build a cell block, and every table that lists node counts or dimensions by cell type agrees.",
     ["inputs"], "all documented cell types",
     "Most higher-order types occur in no test; one wrong number only affects meshes of that type.",
     ["src/meshio/_common.py", "src/meshio/_mesh.py"], [("type tables", "_common.py num_nodes_per_cell; _mesh.py topological_dimension; CellBlock.__init__; Mesh.get_cells_type")],
     "CellBlock.dim, the width of an empty get_cells_type result, the shape check of write()",
     "constant propagation by abstract interpretation of CellBlock, Mesh and get_cells_type per cell type; entry-by-entry table audit",
     "complete for the documented type names; types only some formats know (e.g. VTK's pixel) are outside the naming scheme")
prop("P12", "A mesh cannot be built with data that does not fit",
     "Constructing a mesh fails with an exception when a point data array does not have exactly one entry per point, or when cell data does not consist of exactly one array per cell block with one entry per cell of that block. "
     "Data that fits is accepted, however the cells and data are passed.",
     ["inputs"], "all combinations of block layouts and data array sizes",
     "A consistency check that is too weak in one position (second array, later block, surplus arrays) is only noticed on exactly that input.",
     ["src/meshio/_mesh.py", "src/meshio/_helpers.py"], [("constructor checks", "_mesh.py Mesh.__init__"), ("pass-through", "_helpers.py write_points_cells")],
     "exceptions of the Mesh constructor and of write_points_cells",
     "path-sensitive abstract interpretation of the constructor with symbolic arrays of concrete lengths: no completing path for ill-sized data, a completing path for fitting data",
     "five block layouts, sizes 0..10, first/second array, each block position; array, list, tuple, CellBlock and dict forms")
prop("P13", "Ill-shaped cell blocks are refused before anything is written",
     "Writing a mesh in which any cell block of a fixed-size type has the wrong number of nodes per cell raises an error before the output file is created or changed, for every format and every way of calling the writer. "
     "Well-shaped blocks, and blocks of types without a fixed size, are passed on to the format's writer.",
     ["inputs", "configurations"], "all cell types, block positions, formats and entry points",
     "Tests check one type in one position; a weakened check lets malformed files through only for particular types, positions or formats.",
     ["src/meshio/_helpers.py", "src/meshio/_mesh.py"], [("shape check", "_helpers.py write()"), ("entry points", "_mesh.py Mesh.write; _helpers.py write_points_cells")],
     "exceptions of write() and calls of the registered writers",
     "path-sensitive abstract interpretation of the public write entry points with recorders in place of the writers: the writer is unreachable for ill-shaped and reached for well-shaped blocks",
     "67 fixed-size types, column counts n-1, n+1, 2n, five block layouts, all formats for three types")
prop("P14", "Per-type views of a mesh contain every block in order",
     "The per-type views of cells, cell data and cell sets contain the entries of all blocks of that type and of no other, in block order. Cell numbers in the set view refer to the concatenated cells of that type, "
     "so members of later blocks are shifted by the number of cells in all earlier blocks of the type, whether or not those blocks have members.",
     ["inputs", "histories"], "all block layouts, repeated types in any order, sets with missing or empty entries",
     "Tests use one or two blocks and a single set; wrong order or offsets only show with repeated types, several sets or blocks without members.",
     ["src/meshio/_mesh.py"], [("views", "_mesh.py cells_dict, get_cells_type, cell_data_dict, get_cell_data, cell_sets_dict")],
     "values returned by the views",
     "abstract interpretation with concrete block sizes: each view value is an ordered concatenation with exact provenance and integer shift per part",
     "six block layouts and all single-block variations of missing/empty set entries; other array contents are symbolic")
prop("P16", "Binary numbers have the type and byte order the file declares",
     "Every number written in binary form has exactly the type, size and byte order that the file's own header, type word, version, section key or name suffix declares, whatever the types and byte orders of the mesh's arrays. "
     "Readers interpret binary numbers with exactly the declared type and byte order, also for files from machines of the other byte order.",
     ["inputs", "configurations"], "all float and integer types and byte orders of the mesh arrays, all declared types, versions and byte orders of the files",
     "Tests only read back what meshio itself wrote from float64/int64 meshes on one machine; a type that is wrong in both directions, other input types and foreign byte orders are never exercised.",
     ["src/meshio/vtk", "src/meshio/vtu", "src/meshio/xdmf", "src/meshio/ply", "src/meshio/gmsh", "src/meshio/medit", "src/meshio/ugrid", "src/meshio/ansys", "src/meshio/stl", "src/meshio/neuroglancer", "src/meshio/flac3d"],
     [("written", "all tofile/tobytes/struct.pack calls reached by the writers"), ("read", "all fromfile/frombuffer/struct.unpack calls reached by the readers")],
     "types and byte orders of the binary numbers in the file",
     "abstract interpretation: ordered trace of texts and binary writes with numpy type and byte order, compared with the declarations in the same trace; readers interpreted under the assumption of each declaration",
     "27 combinations of float and integer types per writer and layout; readers: every declarable type, byte order, version and compression")
prop("P18", "Files go to the format requested or implied by their name",
     "An explicitly given format is always the one used; otherwise the format follows from the file extension, in any letter case and for compound extensions, and the caller's mesh and options reach that format's writer unchanged. "
     "Unknown formats and extensions, missing files, and buffers without a format are rejected with an exception, and a failed read never returns normally.",
     ["inputs", "configurations"], "all registered formats, extensions, file names and buffers",
     "Tests call most readers and writers directly with one name each; dispatch by extension, case, fallback order and failure handling are mostly untested.",
     ["src/meshio/_helpers.py", "src/meshio"], [("dispatch", "_helpers.py read/_read_file/_read_buffer/write/_filetypes_from_path"), ("registration", "register_format(...) calls of the format modules")],
     "which registered function is called, with which arguments",
     "abstract interpretation of read()/write() with recorders in place of the registered functions; registration tables compared with the documented formats",
     "all registered extensions in three spellings, all format names with two file names and a buffer; names the registry has beyond the documented ones are only checked for self-consistency")
prop("P20", "Converting between sets and integer data loses nothing",
     "Turning sets into integer data labels each member with its own set's number in its own block and leaves all other data and sets alone; turning integer data into sets takes each block's members from that block's data and names the sets after the array. "
     "Only the converted entry is removed, and non-integer data is refused.",
     ["inputs", "histories"], "all block layouts, numbers of sets, missing set entries and sequences of conversions",
     "Tests convert one small example in each direction; numbering, block assignment and name collisions need several sets, blocks without members or repeated conversions.",
     ["src/meshio/_mesh.py"], [("conversions", "_mesh.py cell_sets_to_data, point_sets_to_data, cell_data_to_sets, point_data_to_sets")],
     "the mesh's data and set dictionaries after the conversion",
     "abstract interpretation with concrete block sizes: provenance of index and value of every array store, and of the resulting dictionaries",
     "three block layouts, one to three sets; the numeric grouping itself (np.unique/np.where) is assumed from numpy")
prop("P09", "Floating-point values are stored and read without losing digits",
     "By default every format stores coordinates and floating-point data in a form that identifies the given number: text output has at least 17 significant digits for double and 9 for single precision (or the shortest exact form), binary output is never narrower than the array. "
     "Readers do not squeeze such numbers into a narrower type than the file holds, and an explicitly given float format is the one used for the coordinates.",
     ["inputs", "configurations"], "all formats, text and binary variants, number types, point and cell data of one or several components",
     "Tests compare with tolerances of 1e-10 or wider and mostly in the default variant, so lost digits pass.",
     ["src/meshio"], [("text output", "float format strings and np.savetxt/ndarray.tofile calls of the format writers"), ("binary output", "astype/struct.pack/dtype choices before output calls"), ("input", "np.fromfile/np.fromstring dtypes of the readers")],
     "number of digits / number type at every output call and file-input call",
     "dataflow analysis (abstract interpretation): text precision and narrowing casts recorded on every coordinate and data flow from the mesh to output sinks and from file input to the constructed mesh",
     "nastran (fixed-width fields), svg (a drawing), neuroglancer and binary STL (single precision by specification) are exempt; flows through unmodelled calls are undecided")
prop("P10", "Points are stored completely, in order, column by column",
     "Every point's coordinates are written as x, y, z in that order, unscaled and unshifted, for all points and in the order of the mesh, in every format and variant that stores a mesh; a two-dimensional mesh keeps x and y as its first two coordinates, with any padding after them. "
     "Readers take the coordinates from consecutive columns of the file in the same order.",
     ["inputs", "configurations"], "all formats and variants, cell layouts, 2-D and 3-D points, with and without data and entity tags",
     "Two-dimensional input, uncommon variants and meshes with extra data take separate code paths that few tests reach.",
     ["src/meshio"], [("coordinate output", "write functions of the format modules"), ("coordinate input", "points handed to Mesh(...) by the readers")],
     "coordinates at output calls and in constructed meshes",
     "abstract interpretation: provenance (columns, offset, scaling, row selection) of coordinates at every output sink, must-reach analysis, and of file columns in every constructed Mesh",
     "the svg drawing is exempt; formats whose coordinates pass through unmodelled operations are undecided for columns but still checked for reaching the output")
prop("P11", "Data arrays are stored completely and under their own name",
     "When a mesh with named point and cell data is written to a format that stores such data, every array reaches the file with all its entries and components in order and unscaled, under its own name. "
     "Cell data is stored block after block in the order of the cell blocks, and splitting a file's flat cell data gives each block exactly the entries of its own cells. Where a format cannot hold a cell block, the data of that block is left out with it and the other blocks keep their own data.",
     ["inputs", "configurations"], "all data-storing formats and variants, several arrays in any name order, scalars, vectors and tensors, integer and floating-point, several blocks of several types",
     "Tests store one array at a time, so exchanged names, dropped later arrays or blocks in the wrong order go unnoticed.",
     ["src/meshio"], [("data output", "write functions of gmsh, mdpa, vtk, vtu, xdmf, avsucd, hmf, med, exodus, tecplot, ply, tetgen, h5m, dolfin"), ("splitting", "_common.py cell_data_from_raw, raw_from_cell_data")],
     "names and arrays at output calls; rows handed to each block",
     "abstract interpretation: must-reach analysis of each array and name at output sinks, order of names against order of arrays, component and row provenance, exact row intervals for concrete block sizes",
     "17 formats x variants x up to 4 layouts x 6 data layouts; names that the format itself treats specially are not used")
prop("P08", "Reading a truncated file always ends",
     "Whatever point an input file is cut off at, reading it comes to an end, with a mesh or with an exception: no reader keeps looping once its input is exhausted, in any section of any format. "
     "Nor does matching the remaining text take exponentially long.",
     ["inputs", "crash_points"], "all formats, all truncation points",
     "Tests read complete files only; each format has several loops that wait for an end mark, in header, points, cells and sets.",
     ["src/meshio"], [("reading loops", "while loops of the readers, e.g. _skip_to, _next_line, _read_nodes, _fast_forward_over_blank_lines"), ("patterns", "re.compile/re.match calls")],
     "whether meshio.read returns or raises",
     "dataflow analysis: constant propagation and value numbering through every while loop (calls inlined) under exhausted input; a loop no path of which can leave is reported. Exponential ambiguity of constant regular expressions by product automaton",
     "anything not understood counts as a way out of the loop, so only definite endless loops are reported; loops inside the libraries and very large counts read from the file are not covered")
prop("P15", "Counts, sizes and positions stated in a file match its contents",
     "Every count, length, dimension, index range and byte position that a written file states (numbers of points, cells, entries, components, blocks and data arrays; sizes of records; the position of the next section) equals what the file actually holds. "
     "This is so for any numbers of points and cells, any sequence of cell blocks, with and without data, and also when blocks that the format cannot hold are left out.",
     ["inputs", "configurations"], "all formats and variants that state counts, all mesh sizes (symbolic), single, mixed, repeated and partly unsupported cell blocks, scalar and vector data",
     "A wrong count often does no harm to meshio's own reader, so round-trip tests pass while other programs misread the file; repeated and skipped blocks are rarely tested.",
     ["src/meshio"], [("headers", "write functions of vtk, vtu, gmsh, ply, off, medit, avsucd, su2, tecplot, tetgen, netgen, ansys, dolfin, ugrid, flac3d, stl, neuroglancer"), ("stored sizes", "exodus createDimension, med NBR/NGA/NCO, cgns ElementRange, h5m start_id, xdmf Dimensions")],
     "numbers in section headers, attributes and records of the written file",
     "abstract interpretation with symbolic sizes: every stated number is computed as a polynomial in the numbers of points and of cells per block and compared, as a polynomial, with that of the contents",
     "10 layouts x 4 data sets x all variants per format; sizes are unbounded; non-empty blocks; numbers stated by formats not listed (e.g. counts inside sets) are not covered")
prop("P19", "Point and cell sets are stored with exactly their members",
     "When a mesh with named point or cell sets is written to a format that stores them (Abaqus, Exodus, FLAC3D), every set is in the file under its own name, spelled as given, with all of its members and no others. "
     "Each member has the number that the point or cell has in that file, whatever block it belongs to and however many members the set has. "
     "The VTK and VTU formats keep every set name when they turn sets into data.",
     ["inputs", "configurations"], "all formats that store sets, text and binary, block layouts including blocks that are numbered separately, several sets per mesh, and set sizes around the line lengths of the text formats",
     "Tests write one or two sets of a few cells in one block; offsets between blocks, line breaks in long sets and the pairing of names and members only matter for larger or mixed meshes.",
     ["src/meshio/abaqus/_abaqus.py", "src/meshio/exodus/_exodus.py", "src/meshio/flac3d/_flac3d.py", "src/meshio/vtk/_vtk_51.py", "src/meshio/vtu/_vtu.py"],
     [("set output", "abaqus write (ELSET, NSET), exodus write (node sets), flac3d split_f_z, _write_groups, _write_table; vtk_51 and vtu write (conversion)")],
     "names and member numbers of the sets in the written file",
     "abstract interpretation of every writer with concrete block and set sizes and arbitrary members: provenance, constant shift and selected positions of the members, and exact text of the names, at every output call",
     "nine block layouts, up to three sets, set sizes 1 to 23 and symbolic; reading sets back is covered only as far as index bases (P02)")
prop("P06", "Files are closed on success and failure; supplied buffers stay open",
     "When a read, a write or a use of the time-series classes ends, normally or with an exception at any point, every file it opened has been closed. "
     "A file object supplied by the caller is still open afterwards and can be used again.",
     ["inputs", "fault_sequences"], "all formats, all malformed files and unsupported meshes, and exceptions at any statement between opening and the end of the operation",
     "Tests exercise the successful path, after which the interpreter's reference counting hides a missing close; handles left open by failures, or by code that closes only on success, are not observed.",
     ["src/meshio"], [("opening", "open_file, all open/gzip.open/h5py.File/netCDF4.Dataset calls, TimeSeriesReader/TimeSeriesWriter"), ("buffers", "open_file and the registered readers and writers that pass their argument to it")],
     "open file descriptors and HDF5 handles after the call; usability of the caller's buffer",
     "typestate analysis over every function of the package: per opening site, all normal and exceptional paths, with aliases, branch correlation, summaries for helpers that return or close handles, and __exit__ for handles kept in attributes",
     "every opening site and every entry point; any statement except plain assignments is assumed to be able to raise; files opened inside other libraries (XML parsers) are outside")
prop("P17", "Operations are independent: nothing is kept between calls",
     "Reading, writing, converting or constructing meshes changes nothing that a later operation can see: the result of a call depends on its arguments and the files it reads, not on earlier calls. "
     "Two meshes never share containers because of default values, class-wide containers or caches, and process-wide settings are left as they were; only explicit (de)registration of formats is remembered.",
     ["histories", "inputs"], "all sequences of operations in one process, on all formats",
     "Tests perform each operation on fresh files in isolation and compare only what they wrote, so leftovers of an earlier call are not noticed.",
     ["src/meshio"], [("effects", "every function of the package: stores, in-place operations, mutating calls, default arguments, class bodies, decorators")],
     "module-level tables, default values, class attributes, caches and process settings before and after a call",
     "flow-sensitive alias and effect analysis with function summaries; roots are module-level objects (mutability from their interpreted values), default values, class-level containers, cached results and process-wide settings",
     "all functions; modification of the caller's own mesh is P05; libraries are assumed not to modify their arguments except through known in-place functions")
prop("P21", "Points, cells and data records carry matching consecutive numbers",
     "In every format whose files number points and cells explicitly, points are numbered consecutively in the order of the mesh, cells consecutively across all stored blocks without gaps or repetition (zones and faces separately in FLAC3D; after the points in H5M), both from the format's first number: zero in DOLFIN XML and TetGen, one elsewhere. "
     "Data records refer to points and cells by these same numbers.",
     ["inputs", "configurations"], "all sequences of cell blocks of any types and sizes, text and binary variants, with and without data",
     "The readers mostly ignore the numbers or take any, so round trips pass with repeated or shifted ones; only other programs notice.",
     ["src/meshio"], [("text rows", "row output of abaqus, avsucd, flac3d, gmsh, mdpa, nastran, permas, tetgen, dolfin writers"), ("number columns", "np.arange columns of gmsh, flac3d, avsucd and start_id of h5m")],
     "the number at the start of every point, cell and data record",
     "abstract interpretation with symbolic sizes: counters, ranges and enumerations are running numbers with a symbolic first value, compared as polynomials in the block sizes with the expected first number",
     "numbers that pass through unmodelled operations are undecided; Ansys index ranges are decided under P15")
prop("P22", "Structured VTK data sets become the points and cells of their grid",
     "Reading a legacy VTK file with structured points, a rectilinear grid or a structured grid yields one point per grid node in the file's order (first axis fastest), at origin plus index times spacing or at the given coordinates of each axis, and one line, quadrilateral or hexahedron per grid cell, with the cell's corner nodes in VTK's order. "
     "This holds for all grid sizes, including axes with a single node, and for both supported file versions.",
     ["inputs"], "all dimensions, origins, spacings and axis coordinates; all subsets of axes with a single node",
     "The bundled example files are a few small grids; index formulas that coincide on equal or small dimensions pass every test.",
     ["src/meshio/vtk"], [("cells", "_generate_cells in _vtk_42.py and _vtk_51.py"), ("points", "_generate_points and _check_mesh in the same files")],
     "the corner nodes, cell types, offsets and coordinates assigned to the mesh for each of the three kinds of data set",
     "abstract interpretation over polynomials: dimensions are symbols, the running cell number is i + j*nx + k*nx*ny, and column formulas are reduced to polynomials (floor division and remainder by monomials) that are compared with the node numbers of the corners",
     "formulas outside polynomial arithmetic with floor division are undecided; parsing of the header lines is not part of it")
prop("P23", "Files do not depend on how arrays are laid out in memory",
     "Writing a mesh stores the same values in the same order whether its arrays are row-major or column-major, contiguous or strided views, and no such mesh is refused. "
     "Coordinates, connectivity and data are stored point by point and cell by cell, except in MED files, which hold them component by component.",
     ["inputs", "configurations"], "all memory layouts of points, connectivity and data arrays, all formats and variants",
     "Test meshes are row-major and contiguous, so an operation that follows memory order gives the same file in every test.",
     ["src/meshio"], [("flattening", "flatten, ravel, reshape, tobytes, tofile and buffer writes in the writers")],
     "the order of values at every place where a two-dimensional array of the mesh becomes a sequence or bytes",
     "abstract interpretation: every flattening of a mesh-derived array is an event with its effective order (transpositions included); orders taken from memory and direct use of the arrays' buffers are violations",
     "arrays of unknown shape are undecided; column-wise storage in Exodus is left to P10")
