NOTYET = "planned, check not built yet"

# ---------------------------------------------------------------- containers
P("P10", "Multi-handle container keeps items, handles and order consistent",
  "A container that stores each item under one or more handles always agrees with its history of insertions and "
  "removals: iteration is in first-insertion order, every handle resolves to the item it was last given to, integers "
  "that are not handles index by position, an item is present exactly as long as it has a handle or an outstanding "
  "reference, and a refused operation changes nothing.",
  ["histories", "inputs"], "every sequence of insertions, re-insertions, handle moves, removals by item or handle, and "
  "reference releases, for hashable and unhashable items",
  "no test exercises the container directly; the suite only reaches it with one handle per item and no removals",
  ["viscid/bucket.py"],
  [("handle table and reverse table", "viscid/bucket.py: Bucket.set_item / remove_item / remove_reference"),
   ("lookup by handle, then by position", "viscid/bucket.py: Bucket.__getitem__")],
  observe=["Bucket.items/keys/values/__iter__/__len__/__contains__/__getitem__ after every call"])

P("P11", "Files are loaded once, shared, and released only with their last user",
  "Loading files through a file bucket (directly, through globs, or as children of container files) yields one object "
  "per path, which stays loaded and readable until it is unloaded by every holder of a counted reference (containers "
  "hold one per child they load); files that fail to "
  "load leave no trace, and reloading a file re-reads it while keeping other users' handles valid.",
  ["histories", "fault_sequences"],
  "every sequence of load, load of groups, failing load, unload, removal and reload over shared files",
  "tests load one file at a time and never unload, reload or share children between containers",
  ["viscid/readers/vfile_bucket.py", "viscid/readers/vfile.py", "viscid/bucket.py", "viscid/dataset.py"],
  [("reference counts per file", "viscid/readers/vfile_bucket.py: VFileBucket.load_files / remove_item"),
   ("children keep parent_bucket and are skipped at teardown", "viscid/readers/vfile_bucket.py: ContainerFile.load")],
  observe=["bucket contents and reference counts, file loaded state, contents of every open file after every call"])

P("P12", "Temporal datasets keep grids ordered in time and select them by time",
  "A temporal dataset keeps its children ordered by time whatever the order of insertion, and activating or iterating "
  "by index, time value or time slice selects exactly the grids the request names (nearest for a single time, the "
  "inclusive range for slices over distinct times), leaving the selected grid active.",
  ["histories", "inputs"], "every insertion order, repeated times, and every time index, time value, date or time slice",
  "tests slice one three-step series that is already in order",
  ["viscid/dataset.py", "viscid/sliceutil.py"],
  [("sorted insertion", "viscid/dataset.py: DatasetTemporal.add"),
   ("time selection", "viscid/dataset.py: DatasetTemporal._slice_time / activate / iter_times")])

P("P14", "Info lookups follow the ownership tree and mutate only where asked",
  "Looking up an info entry on a file, dataset, grid or field yields the value of the nearest ancestor (starting at the "
  "object itself) that has it; setting or updating info changes exactly the named object (or the owner already holding "
  "the entry), and times set on any node are read back by every descendant that has no time of its own.",
  ["histories", "inputs"], "every tree of files, datasets, grids and fields, and every history of info and time updates",
  "tests never build trees by hand or override info below an ancestor",
  ["viscid/tree.py", "viscid/dataset.py", "viscid/grid.py", "viscid/field.py"],
  [("parent chain walk", "viscid/tree.py: Node.find_info / find_info_owner / update_info / time")])

# ---------------------------------------------------------------- selection
P("P20", "Locations and indices select the same elements as the coordinates say",
  "A selection given as integers, slices, masks, index lists, locations ('1.5j', floats) or location slices, in any of the "
  "accepted spellings (tuples, strings, named axes, ellipsis, newaxis), selects exactly the elements an explicit search "
  "of the coordinate values selects: the nearest coordinate for a single location, and all coordinates in the closed "
  "interval, then strided, for a location slice, forward or backward.",
  ["inputs"], "every monotonic coordinate array and every well formed selection over it",
  "tests compare a few hand-picked selections on one or two fields",
  ["viscid/sliceutil.py", "viscid/coordinate.py", "viscid/field.py"],
  [("selection standardization", "viscid/sliceutil.py: raw_sel2sel_list / standardize_sel / std_sel2index")])

P("P21", "Slicing a field keeps every value attached to its own coordinates",
  "Any selection from a field gives a field in which each value is the one the source holds at the same coordinates, "
  "along every axis and for every centering, with dropped axes recorded and kept axes named as before; vector components "
  "are selected only by the component axis or component names.",
  ["inputs"], "every field (centering, layout, dimension, coordinates) and every well formed selection",
  "tests check shapes and a handful of values for selected slices",
  ["viscid/field.py", "viscid/coordinate.py"],
  [("data and coordinates sliced by the same standardized selection", "viscid/field.py: Field._prepare_slice / "
    "_finalize_slice; viscid/coordinate.py: StructuredCrds.make_slice")])

P("P22", "Selecting from data still on disk equals selecting after loading it",
  "A selection from a field whose values have not been read yet (in a file, transposed, one component of many, in "
  "components, squeezed, zyx ordered, mirrored or sign flipped for GSE, in another layout) gives the same values at the "
  "same coordinates as selecting from the loaded field, and reading only part of a file reads the right part.",
  ["inputs", "histories"], "every way data can be stored, every centering and layout, every selection, before and after "
  "loading and clearing the cache",
  "tests slice three stored files with a few selections; almost no combination of storage order and selection is reached",
  ["viscid/field.py", "viscid/sliceutil.py", "viscid/readers/hdf5.py", "viscid/coordinate.py", "viscid/readers/openggcm.py"],
  [("translation of a selection to forward-only reads", "viscid/sliceutil.py: make_fwd_slice; viscid/coordinate.py: "
    "StructuredCrds.reflect_slices"),
   ("lazy part of slicing", "viscid/field.py: Field._finalize_slice; viscid/readers/hdf5.py: H5pyDataWrapper.__getitem__")])

P("P25", "Node, cell, face and edge coordinates and their extents are consistent",
  "Coordinates give back the node positions they were made from, in any spelling (axis name, index, suffix, upper case for "
  "shaped), cell centers lie midway between nodes (or where they were given), face and edge positions follow from both, and "
  "ends, lengths, steps, shapes, points, extended and mirrored coordinates, added axes and re-centered coordinates are those "
  "of the positions they describe, for uniform and nonuniform coordinates alike.",
  ["inputs"], "every number of axes and nodes, rising or falling, uniform, nonuniform, with given cell centers, reflected, "
  "or holding dates",
  "tests build a handful of grids and never compare uniform with nonuniform coordinates or ask for ends of cells",
  ["viscid/coordinate.py", "viscid/field.py"],
  [("node, cell, face and edge arrays", "viscid/coordinate.py: StructuredCrds._fill_crds_dict"),
   ("uniform shortcuts for ends and steps", "viscid/coordinate.py: UniformCrds.__init__ / get_xl / get_xh / get_min_dx / nc2cc")])

P("P23", "A field's values come from its source, read at most once until cleared",
  "Whatever happened to a field and to the fields made from it, what it shows is what its source held when it was last read "
  "(or what was written or assigned since), each value at its own coordinates whatever the storage order, layout, mirroring "
  "or transformation of the source. A source is read when values are first needed and once only until the cache is cleared, "
  "and questions about shape or coordinates read nothing. Re-centered fields share values with their field as long as "
  "neither was given others, while shells, widened and re-wrapped fields are independent or share exactly as specified.",
  ["histories", "inputs"], "every history of loading, clearing, writing, assigning, forgetting the source, changing layout, "
  "shell copies, re-centering, adding axes and re-wrapping, for file and memory sources of every layout",
  "tests load a field once; they never interleave clearing, writing and re-centering, nor count reads",
  ["viscid/field.py", "viscid/coordinate.py"],
  [("cache, parent field and source", "viscid/field.py: Field.data / _fill_cache / clear_cache / forget_source"),
   ("source order, layout, reflection", "viscid/field.py: Field._xyz_src_data / _src_data_to_ndarray / _dat_to_ndarray")])

P("P15", "What is saved is what loads",
  "A set of node- or cell-centered fields saved to an hdf5 (with its xdmf) or npz file loads back with exactly those "
  "names, values, numbers of components, centerings and coordinates, whichever way it is saved or sliced on load, and "
  "saving does not change the fields. A file saved over an older one, or converted from another format, shows the new "
  "contents only.",
  ["inputs", "histories"], "every set of scalar and vector fields on 1-d to 3-d grids, every legal name, and every history "
  "of saves, overwrites, conversions and partial reads",
  "tests save one or two well behaved fields and compare the whole of them",
  ["viscid/readers/hdf5.py", "viscid/readers/numpy_binary.py", "viscid/readers/xdmf.py"],
  [("writer", "viscid/readers/hdf5.py: FileHDF5.save_fields, viscid/readers/numpy_binary.py: FileNumpyNPZ.save_fields"),
   ("reader", "viscid/readers/xdmf.py: FileXDMF._parse_attribute / _parse_dataitem")])
P("P18", "Divided work covers everything once and results keep their order",
  "Chunks of a list (by number of chunks or by size, contiguous or staggered) hold every element exactly once, in order, "
  "with lengths that differ by at most one and agree between the ways of asking. A parallel map over threads, processes or "
  "a caller's pool starts tasks in order on at most the given number of workers and returns the results in the order of the "
  "arguments whatever order the tasks finish in; an error of a task reaches the caller.",
  ["inputs", "schedules"], "every length, number and size of chunks; every order in which tasks finish, on any number of "
  "workers, in this process, threads, other processes or a given pool",
  "tests never chunk by size, pass a pool, or control the order in which tasks end",
  ["viscid/parallel.py"],
  [("chunk arithmetic", "viscid/parallel.py: chunk_list / chunk_slices / chunk_sizes / chunk_interslices"),
   ("map over threads and processes", "viscid/parallel.py: map / map_async / NoDaemonPool")])

P("P24", "Field arithmetic, reductions and integrals act place by place",
  "An operator or ufunc on a field gives, at each place and component, the operation on the values there (a scalar field, a "
  "number or an array acts as numpy would broadcast it) on the same coordinates, centering, time and layout. Reductions, "
  "running operations and integrals fold exactly the values along the given axes, keep the remaining coordinates, and give "
  "the same answer for any layout in memory; a single value comes back as a number. Operands are never changed and results "
  "never share memory with them.",
  ["inputs"], "every operation for every shape, layout, centering and type of the operands, with numbers, arrays, fields and "
  "fields left over by reductions, on either side",
  "tests use a few operators on node-centered scalar fields and never vary layout, axis order or singleton axes",
  ["viscid/field.py"],
  [("wrapping results", "viscid/field.py: Field.wrap / _ow / __array_wrap__ / __array_ufunc__"),
   ("reductions and integrals", "viscid/field.py: Field.trapz / cumtrapz / sum / mean / max / cumsum")])

P("P26", "Components, layouts, axis orders and new fields keep every value in its place",
  "Components (by name, as fields or as views sharing memory), fields put together from scalars, changes of layout, "
  "transposes and swaps of axes, contiguous copies and down-sampled fields hold each value at the coordinates (with units), "
  "component, centering and time where it belongs, in the layout asked for, through any chain of such steps. Fields made "
  "from shapes, arrays, numpy grids or other fields hold the given value or data at every place of the given coordinates.",
  ["inputs", "histories"], "every chain of these operations for all shapes (ambiguous ones too), layouts, centerings, "
  "reflected and lazily loaded sources; every maker with every spelling of its arguments",
  "tests transpose one scalar field and build fields in one way; chains and ambiguous shapes are never tried",
  ["viscid/field.py", "viscid/coordinate.py"],
  [("transposes and layouts", "viscid/field.py: Field.transpose / transpose_crds / as_layout / _detect_layout"),
   ("makers of fields", "viscid/field.py: full / full_like / dat2field / arrays2field / scalar_fields_to_vector")])

P("P13", "A name given to a grid denotes one field, however it is asked for",
  "A name denotes the field kept under it, else what the class knows how to get by that name, else (with =) what its equation "
  "says, else by [] a coordinate, and otherwise KeyError; processors of that name and of everything, and cutting to a part, "
  "come after. Equations give the value of the expression place by place with either backend, and can reach only fields and "
  "known functions. Looking things up never changes fields that are kept, and keeps data in memory only where asked to.",
  ["histories", "inputs"], "every history of adding, replacing, removing, reading, clearing and switching caches, with every "
  "set of getters and processors, and every equation, through grids and datasets alike",
  "tests read a few names of sample files and one or two equations; never precedence, caching or processing together",
  ["viscid/grid.py", "viscid/calculator/evaluator.py", "viscid/dataset.py"],
  [("lookup order, processing, caches", "viscid/grid.py: Grid.get_field / __getitem__ / iter_fields"),
   ("equations", "viscid/calculator/evaluator.py: evaluate / _evaluate_numexpr / _evaluate_numpy")])

P("P31", "Derivatives, averages and line integrals are what they say",
  "Gradient, divergence, curl, convective derivative and the Jacobian (on a grid, at an index or at a point) are the documented "
  "second order differences of the values and coordinates, with the grid, centering and time of the field, with or without "
  "boundaries and whichever backend computes them. Averages of staggered fields, extended boundaries, resampled lines and "
  "integrals along lines hold exactly the values their definition gives, and inputs are never changed.",
  ["inputs"], "every field (shape, spacing, layout, centering, type), option, backend and set of lines",
  "tests compare one smooth field on one grid to an analytic derivative to a loose tolerance",
  ["viscid/calculator/calc.py", "viscid/calculator/necalc.py", "viscid/calculator/ecfc.py"],
  [("derivatives", "viscid/calculator/calc.py: grad / div / curl / convective_deriv / jacobian_at_ind; necalc.py: the same in numexpr"),
   ("staggered fields", "viscid/calculator/ecfc.py: fc2cc / ec2cc / div_fc / make_ecfc_field_leading"),
   ("lines and boundaries", "viscid/calculator/calc.py: resample_lines / integrate_along_lines / extend_boundaries")])
P("P32", "Vector algebra agrees place by place, whichever backend",
  "Sums, differences, products, dot and cross products, magnitudes, normalisation, projections and scalings of fields are, at "
  "each place, the named operation on the values there, on the grid, centering and time of the first field, and are the same for "
  "every layout in memory and every backend. Operands are never changed.",
  ["inputs"], "every operation for every shape, layout, centering and type of its operands, with every backend",
  "tests compute a few of them on one field in one layout with one backend",
  ["viscid/calculator/calc.py", "viscid/calculator/necalc.py"],
  [("one operation, many backends", "viscid/calculator/calc.py: Operation / native_dot / magnitude / project / normalize"),
   ("numexpr", "viscid/calculator/necalc.py: dot / cross / magnitude / normalize")])
P("P30", "The value of a field between its places",
  "Between the places of a field, linear interpolation gives the trilinear mean of the places around a point and nearest gives the "
  "value of the nearest place; beyond the last place both give the value of that place. What comes back is laid out like the points "
  "asked for (a list of points, the places of another field, or an interpolated slice), and neither the field nor its coordinates change.",
  ["inputs"], "every point, for every shape, spacing, centering, number of components, layout and type of field",
  "tests interpolate one smooth field and look at the picture or compare it with an analytic one within a tolerance",
  ["viscid/cython/cycalc.pyx", "viscid/cython/cyfield.pyx", "viscid/field.py"],
  [("interpolation", "viscid/cython/cycalc.pyx: interp / _c_interp_trilin / _c_interp_nearest"),
   ("places", "viscid/cython/cyfield.pyx: closest_preceeding_ind / closest_ind"),
   ("slices", "viscid/field.py: Field.interpolated_slice; viscid/coordinate.py: slice_interp")])
P("P33", "Field lines follow the field, stop at their limits, and say how they ended",
  "A streamline contains its seed and goes both ways along the field, each step of the asked size in the direction of the field, until "
  "it leaves the outer bounds, enters the inner bound, stalls, or reaches the allowed length, time or number of steps, and no further. "
  "Its topology names exactly these ends. Lines do not depend on processes, threads, layout, the other seeds or what is returned.",
  ["inputs", "schedules"], "every field, seed, integrator, direction, bound and limit, however the seeds are spread over threads",
  "tests trace a dipole with one set of limits and compare pictures",
  ["viscid/cython/streamline.pyx", "viscid/cython/integrate.pyx", "viscid/parallel.py"],
  [("steps and ends", "viscid/cython/streamline.pyx: _py_streamline / classify_endpoint"),
   ("integrators", "viscid/cython/integrate.pyx"),
   ("topology", "viscid/cython/streamline.pyx: end_flags_to_topology_*"),
   ("spreading seeds", "viscid/cython/streamline.pyx: calc_streamlines; viscid/parallel.py: map / chunk_interslices")])
P("P34", "Seeds are where their description says, in one order",
  "The points of a line, spline, plane, volume, sphere, cap, circle, patch or list are those its arguments describe, in one order that "
  "is the same however they are asked for, as often as they are asked for. The local axes, the surface coordinates and the mesh are the same points "
  "over their axes, values wrapped on them keep their place, and the mesh of a sphere closes around its seam and poles.",
  ["inputs"], "every description: origin, pole, roll, limits, endpoints, numbers of points, order of axes and options",
  "tests make a few default seeds and compare pictures",
  ["viscid/seed.py"],
  [("descriptions", "viscid/seed.py: Point / MeshPoints / Line / Spline / Plane / Volume / Sphere / SphericalCap / Circle / SphericalPatch"),
   ("one order", "viscid/seed.py: SeedGen.get_points / iter_points / wrap_field / wrap_mesh"),
   ("meshes", "viscid/seed.py: Sphere.as_mesh / arr2mesh")])
P("P37", "Every way to write a rotation denotes the same rotation",
  "Euler angles in either order, axis and angle, quaternions and matrices convert into each other without changing the rotation, `rot` "
  "turning vectors and `dcm` axes, also where angles are degenerate. Products compose, one argument serves a whole stack, the turn from one vector to "
  "another is the least one (plus the roll, or with x put where asked), and arguments are not changed.",
  ["inputs"], "every rotation, axis order, unit, and shape of stack, including half turns, identity and gimbal lock",
  "the self tests convert back and forth, so a convention wrong in both directions passes, and skip degenerate and mixed stacks",
  ["viscid/rotation.py"],
  [("conversions", "viscid/rotation.py: angle2rot / eul2rot / rot2angle / rot2quat / quat2rot / rot2wxyz / wxyz2rot / wxyz2quat / quat2wxyz"),
   ("composition", "viscid/rotation.py: rotmul / rotate / quatmul / quat_rotate"),
   ("between vectors", "viscid/rotation.py: a2b_rot / angle_between")])
P("P17", "An XDMF file shows exactly the tree it describes",
  "Reading an XDMF description gives its collections, series and grids, in order (series in time), each with the time, topology, geometry "
  "and information it states or else the nearest grid around it does (a series' list of times counting by position). Fields have the stated centering, "
  "components, type, and each value at its place, whether the numbers are inline or in HDF5, in one file or included from others; kinds of grid that are not supported are skipped.",
  ["inputs"], "every description: nesting, inheritance, inclusion, kind of geometry and time, element order, data format and type",
  "tests read five sample files which state everything where it is used, in one layout",
  ["viscid/readers/xdmf.py", "viscid/compat/_xdmf_include.py", "viscid/readers/vfile.py", "viscid/amr_grid.py"],
  [("grids and what cascades", "viscid/readers/xdmf.py: FileXDMF._parse_grid / _parse_time / _inject_info"),
   ("axes and values", "viscid/readers/xdmf.py: FileXDMF._parse_geometry / _parse_attribute / _parse_dataitem"),
   ("inclusion", "viscid/compat/_xdmf_include.py: include")])
P("P27", "Dates and durations keep their meaning in every form",
  "A date or duration read from text, numbers, `datetime` objects or numpy values means the same instant or length, and conversions between units, "
  "types and text never move it except to drop what the target cannot express (less than one unit, or rounding to the digits asked for). Sums, differences, "
  "rounding and evenly spaced ranges agree with exact arithmetic or refuse rather than wrap, and every accepted spelling of a date is recognised as the same one.",
  ["inputs"], "every date, duration, unit, spelling, precision and format",
  "a test samples a few dates; carries, far dates, mixed units and rare spellings are beyond it",
  ["viscid/npdatetime.py"],
  [("reading", "viscid/npdatetime.py: as_datetime64 / as_timedelta64 / as_isotime / is_datetime_like / is_timedelta_like"),
   ("showing", "viscid/npdatetime.py: format_time / format_datetime / as_datetime / as_timedelta"),
   ("arithmetic", "viscid/npdatetime.py: time_sum / time_diff / linspace_datetime64 / round_time")])
P("P39", "A field in patches behaves as the one field its patches make up",
  "A selection from an AMR field consists of what each patch overlapping it selects, in order and at its own coordinates; arithmetic and methods act on every patch, "
  "full reductions cover all values. A value or field line anywhere comes from a patch that holds the place, however many patches were visited before, and "
  "extents and neighbours are those of the patches, also when a skeleton made for others is offered.",
  ["inputs", "histories"], "every arrangement of patches (sizes, resolutions, order, flat axes), selection, operation, and walk of points or line through them",
  "the tests use one AMR sample; interfaces, edges, unequal patches and the order in which patches are visited are not explored",
  ["viscid/amr_field.py", "viscid/amr_grid.py", "viscid/cython/cyamr.pyx"],
  [("selection", "viscid/amr_field.py: AMRField._prepare_amr_slice / _finalize_amr_slice / slice_reduce"),
   ("operations", "viscid/amr_field.py: AMRField.wrap_field_method / __array_wrap__ / __getattr__"),
   ("neighbours", "viscid/amr_grid.py: AMRSkeleton; viscid/cython/cyamr.pyx: discover_neighbors / activate_patch")])
P("P40", "Coordinate systems at one moment agree with each other",
  "At any moment, the transform between two geocentric systems is the rotation composed of the steps between them (so a way there and back, or through a third "
  "system, changes nothing), set by the date, the Earth's field, or the dipole angles given; what is asked first never matters. The dipole is the z axis of SM and lies in the xz "
  "plane of GSM, a moment made into angles comes back as itself, and impossible transforms are refused.",
  ["inputs", "histories"], "every date, pair of angles or moment, way of naming a system or making a transformer, order of questions, vector",
  "no test covers these at all; pairwise agreement over systems, dates and angles is unbounded",
  ["viscid/cotr.py", "viscid/npdatetime.py"],
  [("steps and composition", "viscid/cotr.py: Cotr._get_emat / get_transform_matrix / XFORM_LOOKUP"),
   ("vectors and moments", "viscid/cotr.py: Cotr.transform / get_dipole_moment / dipole_moment2cotr / as_cotr / get_rotation_wxyz"),
   ("dates", "viscid/cotr.py: Cotr.__init__ / _igrf_interpolate; viscid/npdatetime.py: datetime64_as_years")])
P("P38", "Fields and points on a sphere keep their place in every convention",
  "Whichever way a field on a sphere is written (colatitude or latitude, phi or longitude, degrees or radians, any order of axes, with or without other axes, flat or "
  "interlaced), converting it moves no value: each stays at the same place, with the unit and order asked for, and a polar map puts it at the distance from the pole and the angle of that place. "
  "Conversions of points (cartesian, spherical, latitude and longitude) undo each other, and great circles start, end and stay where they should.",
  ["inputs"], "every convention, unit, axis order, hemisphere, bound, layout and point",
  "the tests plot one ionosphere field; the combinations of conventions and the poles are beyond them",
  ["viscid/mapfield.py"],
  [("axes and units", "viscid/mapfield.py: as_mapfield / as_spherefield / convert_coordinates / lat2theta / phi2lon"),
   ("polar maps", "viscid/mapfield.py: as_polar_mapfield / pts2polar_mapfield / make_periodic"),
   ("points", "viscid/mapfield.py: cart2sph / sph2cart / cart2latlon / latlon2cart / great_circle")])
P("P41", "A dipole is the same one in its field, its masks and its field lines",
  "At every point of a list or of a grid, whatever its staggering, layout or mask, the dipole written there is (3 r (m.r) / r^2 - m) / r^3 for the moment given, stretched "
  "or belonging to a time, and the field says which moment that is; points outside a mask keep what they had. Mapping a point along the dipole keeps its longitude, side "
  "of the equator and shell in the dipole's own coordinates, reports points that never get there, and a mapped value is the one found where the line ends.",
  ["inputs"], "every grid, staggering, moment, strength, mask, factor, point, radius and coordinate system",
  "the tests use one centered dipole on one grid; staggered points, masks, tilts and mapping are beyond them",
  ["viscid/dipole.py", "viscid/cotr.py"],
  [("field", "viscid/dipole.py: make_dipole / fill_dipole / calc_dip"),
   ("masks", "viscid/dipole.py: make_spherical_mask / set_in_region"),
   ("field lines", "viscid/dipole.py: xyz2lsrlp / dipole_map / dipole_map_value")])
P("P16", "File names with wildcards and slices mean the files they say",
  "A name with wildcards, sets of characters and a slice means exactly the files whose names match, in the order of the number at the place of "
  "the slice, picked by position or value. The kind of a file follows from its name, and opening files in any order, after any others, gives each "
  "run's steps together in one series, in time, with each file's contents once, and files of other kinds one by one.",
  ["inputs", "histories"], "every folder, pattern and slice, and every history of opening files",
  "tests open sample files by plain names and two wildcards",
  ["viscid/vutil.py", "viscid/readers/vfile.py", "viscid/readers/vfile_bucket.py", "viscid/readers/openggcm.py", "viscid/readers/athena.py"],
  [("slices in names", "viscid/vutil.py: slice_globbed_filenames"),
   ("kinds of files", "viscid/readers/vfile.py: VFile.detect_type / resolve_type"),
   ("grouping", "viscid/readers/vfile_bucket.py: VFileBucket.load_files")])
P("P42", "Simulation output shows what its files hold, and what is made of it",
  "A field read from the output of any supported program holds the file's numbers, each at its place: axes, times, names, staggering and components are those written, "
  "also where the file is mirrored (GSE), planar or a single row. A quantity asked for by name (speed, pressure, currents, vectors from components and back) is made from the stored fields as its formula says, "
  "and a name that neither is stored nor can be made is a KeyError.",
  ["inputs", "histories"], "every run's size, axes, staggering, program, plane, set of stored fields, and every request and order of requests",
  "the tests read three sample files; sizes, planes, mirrored frames, other programs and most derived quantities are never read",
  ["viscid/readers/openggcm.py", "viscid/readers/gkeyll.py", "viscid/readers/athena.py", "viscid/readers/athena_bin.py", "viscid/readers/psc.py",
   "viscid/readers/ascii.py", "viscid/readers/ggcm_fortbin.py", "viscid/grid.py", "viscid/coordinate.py"],
  [("derived quantities", "viscid/readers/openggcm.py, gkeyll.py, athena.py, psc.py: _get_*; viscid/grid.py: Grid.get_field"),
   ("binary and text dumps", "viscid/readers/athena_bin.py, athena_tab.py, athena_hst.py, ascii.py, ggcm_fortbin.py"),
   ("mirrored and planar runs", "viscid/readers/openggcm.py: mhd2gse_on_read / GGCMGrid; viscid/coordinate.py: reflect")])
P("P43", "A settings file sets what it says, comments and all",
  "A JSON text with comments and trailing commas means what the text without them means: comment marks, quotes, brackets and commas inside strings stay text, and what is not such a text is refused. "
  "Loading a settings file, in JSON or YAML, sets the attributes it names (classes and instances, nested ones, ones given by path) to the values it gives, leaves every other alone, and refuses names that do not exist.",
  ["inputs", "histories"], "every text over strings, marks, comments and nesting, and every sequence of settings files",
  "no test loads a settings file; the texts are unbounded",
  ["viscid/vjson.py", "viscid/_rc.py"],
  [("texts", "viscid/vjson.py: loads / load / find_all / rfind_all"),
   ("settings", "viscid/_rc.py: load_rc_file / set_attribute / _get_obj")])
P("P44", "Nulls, clusters, topologies and boundary frames are where the data has them",
  "A null is found in every cell in which a trilinear field vanishes and in no other, at its place and of its kind (A or B, by the jacobian there, also at the edges of the grid). "
  "Clusters join exactly the points that neighbour each other, across the ends of axes that close, and are averaged; separators are where all topologies meet; a boundary frame is right handed and orthonormal with "
  "its normal along the boundary's.",
  ["inputs"], "every grid, field, precision, boundary radius, set of points, period, map of topologies and pair of wishes",
  "the tests find nulls of one dipole field on one grid; faces, edges, degenerate components and wraps are beyond them",
  ["viscid/cython/null_tools.pyx", "viscid/calculator/calc.py", "viscid/calculator/cluster.py", "viscid/calculator/separator.py", "viscid/calculator/minvar_tools.py",
   "viscid/calculator/topology.py"],
  [("nulls", "viscid/cython/null_tools.pyx: find_nulls; viscid/calculator/calc.py: jacobian_at_ind / jacobian_at_point"),
   ("clusters and separators", "viscid/calculator/cluster.py: find_clusters; viscid/calculator/separator.py: topology_bitor_clusters"),
   ("frames", "viscid/calculator/minvar_tools.py: _minvar_lmn_directions / find_minvar_lmn")])
