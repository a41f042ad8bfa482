"""Writes /verif/properties.jsonl (kept so that the list has one readable source)."""
import json
P = []
def p(id, title, statement, over, text, why, files, mech):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech])))
W, G, PG, RZ, F, FT, Z, D, B, S = ("zoidberg/weights.py", "zoidberg/grid.py", "zoidberg/poloidal_grid.py",
    "zoidberg/rzline.py", "zoidberg/field.py", "zoidberg/fieldtracer.py", "zoidberg/zoidberg.py",
    "zoidberg/diff.py", "zoidberg/boundary.py", "zoidberg/stencil_dagp_fv.py")

p("C01", "Global cell numbering is a bijection",
  "For every map of any size, the cell numbers given to interior cells, X-boundary cells and forward/backward parallel-boundary cells are pairwise distinct and together are exactly 0..total_cells-1, with the evolving interior cells occupying exactly the first (nx-2*MXG)*ny*nz numbers. A parallel-boundary number exists for exactly those interior cells with at least one sub-sample landing in the radial boundary region, and every other entry is -1.",
  ["inputs"], "all grid sizes nx,ny,nz, guard widths MXG, sub-sample counts and map contents",
  "the numbering depends on which of the nx*ny*nz*nsamples map entries hit the boundary; tests sample none of these patterns",
  [W], [("assign_cell_space_numbers", W), ("hits_radial_boundary", W)])
p("C02", "Leg numbering is complete and leg weights of a cell sum to one",
  "For each direction every interior cell owns one interior leg if some sub-sample stays inside, one boundary leg if some sub-sample hits the boundary (both when split), cells outside the interior own none, and the leg numbers are distinct and exactly 0..n_legs-1. The weights of the legs of one cell sum to one, and for a split cell equal the quadrature weight of the inside and of the boundary sub-samples.",
  ["inputs"], "all grid sizes, sub-sample counts, quadrature weights and map contents, both directions",
  "depends on the joint pattern of boundary hits over all cells and sub-samples",
  [W], [("build_leg_space_metadata", W), ("build_leg_weight_vector", W), ("classify_leg_contributions", W)])
p("C03", "Parallel map operator rows are well formed",
  "In the forward and the backward operator every interior leg row sums to one and refers only to evolving cells lying in the y-plane one step forward (respectively backward, periodically) of the leg's own cell; every boundary leg row is a single entry of value one in the column of that cell's own parallel boundary cell. All column indices lie in 0..total_cells-1 and the operator has exactly one row per leg.",
  ["inputs"], "all grid sizes, guard widths, sub-sample counts, weights and mapped positions",
  "rows depend on every mapped coordinate, including ones next to the guard cells, at exact nodes and wrapped in z",
  [W], [("accumulate_interior_stencil", W), ("build_leg_destination_operator", W), ("calculate_parallel_map_operators", W), ("shift_weights_out_of_x_boundaries", W)])
p("C04", "Interpolation stencil reproduces nodes and linear data, periodic in z",
  "The interpolation weights are the Catmull-Rom weights in x and z around the mapped point: a mapped point that coincides with a cell picks exactly that cell, and away from the x guard cells data that varies linearly in the cell indices is reproduced exactly. Moving the mapped z index by any whole number of periods nz, including to negative values, leaves the stencil unchanged; next to the x guards weight is folded onto the nearest evolving x-plane.",
  ["inputs"], "all mapped (x,z) positions, grid sizes and cells",
  "continuous range of mapped positions incl. negative and out-of-period z",
  [W], [("catmull_rom_weights", W), ("shift_weights_out_of_x_boundaries", W), ("accumulate_interior_stencil", W)])
p("C05", "Sparse matrix export is faithful",
  "For any sequence of row assignments and additions, the exported CSR arrays describe exactly the accumulated matrix: row pointers start at zero, never decrease and end at the number of entries, and row i holds each column added to it once with the sum of its contributions. Assigning a row that already has entries is refused.",
  ["inputs", "histories"], "all operation sequences and row counts, including empty rows",
  "must hold for every history of builder operations",
  [W], [("SparseRowMatrixBuilder", W)])
p("C06", "Map boundary flags agree with the exported operators",
  "After the maps are modified for output, with partial boundaries every cell with any sub-sample hitting the radial boundary is flagged as a boundary hit in the x map and all other entries are unchanged. Without partial boundaries no cell is left split: a partially hit cell takes the fate of its centre sub-sample map, inside sub-samples are otherwise kept, and unaffected cells keep their sub-sample maps; in both modes the sub-sampled maps are removed and the numbering, leg and operator arrays are added.",
  ["inputs"], "all map contents, sizes, sub-sample counts and both boundary modes",
  "depends on joint pattern of centre and sub-sample hits",
  [W], [("modify_maps", W), ("hits_radial_boundary", W)])
p("C07", "3D grid index lookup in y",
  "Looking up an integer y index inside the domain returns that plane's poloidal grid and coordinate; in a periodic domain any integer index, however negative or large, returns the plane at the index modulo ny with the coordinate shifted by the matching whole number of periods Ly, while in a non-periodic domain an index below (above) the domain returns no grid and coordinate 0 (Ly). A fractional index returns no grid and the coordinate linearly interpolated between its two neighbouring integer indices, so the coordinate never decreases as the index increases.",
  ["inputs"], "all integer and fractional indices, all ny, periodic and not, all increasing y coordinates within [0, Ly]",
  "index range is unbounded; fractional and far out-of-range indices are not sampled",
  [G], [("Grid.getPoloidalGrid", G), ("Grid.__init__", G), ("rectangular_grid", G)])
p("C08", "Rectangular poloidal grid geometry",
  "On a rectangular poloidal grid, mapping indices to coordinates and back is the identity for every real index and every coordinate, inside or outside the domain, and the derivative query of any order equals the derivative of the coordinate map (dR or dZ for first derivatives, zero for all higher and mixed ones). The domain edges lie half a cell outside the first and last non-guard points, points are centred on the requested centre, and the y planes of a rectangular 3D grid are equally spaced, starting at 0 when periodic and half a cell in when not.",
  ["inputs"], "all nx, nz, Lx, Lz, centres, guard widths, real indices and derivative orders",
  "continuous parameters and arbitrary derivative orders",
  [PG, G], [("RectangularPoloidalGrid", PG), ("rectangular_grid", G)])
p("C09", "Structured poloidal grid index search",
  "Whenever the index search on a curvilinear poloidal grid returns, each returned point is either flagged -1 (inner boundary), flagged nx (outer boundary), or has x index within [0.5, nx-1.5] and its grid coordinate lies within the square tolerance of the requested point; the result has the shape of the input. Coordinates queried at z indices differing by whole periods are identical, and an x index outside [0, nx-1] is refused.",
  ["inputs"], "all grids, target points, shapes and tolerances for which the search returns",
  "Newton iteration over arbitrary point sets with per-point boundary masks",
  [PG], [("StructuredPoloidalGrid.findIndex", PG), ("StructuredPoloidalGrid.getCoordinate", PG)])
p("C10", "Metric tensors are consistent",
  "At every point the poloidal metric returned for a grid is symmetric positive definite, the covariant and contravariant components are inverse matrices of each other, and together with the returned spacings they equal the inner products of the coordinate derivatives (so g_xx*dx^2 is the squared distance per x index step, and likewise for z and the cross term). The 3D metric holds each plane's own components at that plane, unit y components, and the local spacing of the y coordinates, whatever the number of planes.",
  ["inputs"], "all non-degenerate grids, sizes and numbers of planes",
  "pointwise algebraic identities over all geometries",
  [PG, G], [("StructuredPoloidalGrid.metric", PG), ("RectangularPoloidalGrid.metric", PG), ("Grid.metric", G)])
p("C11", "Parallel metric follows the field and has no side effects",
  "The metric produced for a grid and field has g_yy = (R*B/B_y)^2 with R taken as one for Cartesian fields, gyy*g_yy = 1, B and pressure equal to the field's values at each plane, and unchanged perpendicular components. Computing it any number of times gives the same answer and never changes the metric the grid itself reports.",
  ["inputs", "histories"], "all grids, fields (Cartesian and cylindrical) and repeated calls",
  "needs repeated calls on shared objects with arbitrary fields",
  [Z, G], [("get_metric", Z), ("Grid.metric", G)])
p("C12", "Generated grids follow their boundary lines",
  "An annulus grid has exactly nx by nz points, its first and last x rows lie on the inner and outer lines at equally spaced angles, and every point lies on the straight segment between its two end points at equal fractions. An elliptic grid has the requested size including extra rows, its inner and outer rows lie on the respective lines, the extra rows continue linearly with the last cell's spacing on each side, and interior points satisfy the discretised elliptic equation to the tolerance implied by the last update.",
  ["inputs"], "all boundary lines, sizes and numbers of extra rows",
  "arbitrary boundary shapes and sizes",
  [PG], [("grid_annulus", PG), ("grid_elliptic", PG)])
p("C13", "Periodic lines keep their points, orientation and periodicity",
  "A periodic line holds exactly the given points, reversed only if needed to run anticlockwise; its position passes through point k at angle 2*pi*k/n and is unchanged by whole turns of the angle, and the polygon position at any angle is the linear interpolation between the two neighbouring points. The cumulative distance starts at zero and never decreases, and the closest-point angle lies in [0, 2*pi) and is at least as close, measured along the polygon, as every given point.",
  ["inputs"], "all point sets, angles (including negative and many turns) and query points",
  "continuous angles and arbitrary polygons",
  [RZ], [("RZline.__init__", RZ), ("RZline.positionPolygon", RZ), ("RZline.closestPoint", RZ), ("RZline.distance", RZ)])
p("C14", "Ordering scattered points into a line loses nothing",
  "Every routine that builds a periodic line from scattered points returns a line whose points are exactly the given points, each appearing once with its own (R,Z) pair kept together, and leaves the caller's arrays unchanged. The default routine returns a line no longer than the nearest-neighbour tour from any starting point.",
  ["inputs"], "all point sets of at least three points",
  "permutation property over arbitrary inputs",
  [RZ], [("line_from_points", RZ), ("line_from_points_poly", RZ), ("line_from_points_fast", RZ), ("line_from_points_two_opt", RZ), ("line_from_points_convex_hull", RZ)])
p("C15", "Field direction is tangent to the field",
  "For every field and position the field direction is (R*Bx/By, R*Bz/By), with R taken as one for Cartesian fields, identical for the flattened and the unflattened form with each line's components kept together; the magnitude is the Euclidean norm of the three components. A position with |By| below 1e-8 anywhere is refused with an error.",
  ["inputs"], "all field functions, positions, batch sizes and y values",
  "holds for arbitrary field functions and batch shapes",
  [F], [("MagneticField.field_direction", F), ("MagneticField.Bmag", F)])
p("C16", "Analytic fields obey their defining physics",
  "Slab and curved-slab fields have By constant, Bx zero and Bz linear in x with the requested value and slope at the reference x; the straight stellarator's in-plane field is the curl of its vector potential (so it is divergence free), By is one, and the field repeats after one y period; Dommaschk fields are the normalised gradient of the harmonic potential with the requested mode coefficients as boundary values on R = R_0, so they are divergence and curl free in cylindrical coordinates. Every field function returns values with the shape of its input positions (a component that is constant in space may be a plain number).",
  ["inputs"], "all parameters and positions (Dommaschk: a bounded set of mode numbers)",
  "identities over continuous parameters and positions",
  [F], [("Slab", F), ("CurvedSlab", F), ("StraightStellarator", F), ("DommaschkPotentials", F)])
p("C17", "Tokamak equilibrium field from a g-file is consistent",
  "The poloidal field read from a g-file is tangent to the flux surfaces of the file's psi and scaled so that |Bp| = |grad psi|/R, the toroidal field times R is the flux function f inside the plasma and the vacuum value outside, and the pressure follows the file's profile. Creating one field never changes the attributes, boundary or values of any other field object.",
  ["inputs", "histories"], "all positions in the equilibrium domain and all orders of creating field objects",
  "continuous positions and histories of object creation",
  [F], [("GEQDSK.__init__", F), ("MagneticField.attributes", F)])
p("C18", "Field-line tracer keeps every line's identity and layout",
  "The traced result has shape (number of y values, shape of the start positions, 2); entry 0 along y is the start position, and each line's trajectory is that of its own start point under the field, independent of how many other lines are traced with it, of the internal splitting into pieces and of their order. A scalar start coordinate is broadcast against an array one, and the caller's arrays are never modified.",
  ["inputs"], "all start shapes, numbers of lines (incl. beyond 1000), y sequences and fields",
  "line counts and shapes are unbounded",
  [FT], [("FieldTracer.follow_field_lines", FT), ("FusionSCTracer.follow_field_lines", FT), ("FieldTracerWeb.follow_field_lines", FT)])
p("C19", "Reversible tracer solves the trapezoidal rule",
  "Each sub-step of the reversible tracer ends at a point satisfying the trapezoidal rule with the field directions at both ends, to the tolerance of its Newton update; the sub-steps are equal and reach every requested y value exactly. For a uniform field direction tracing forward and back returns to the start, the first entry is the start position, and the caller's arrays are never modified.",
  ["inputs"], "all fields, start positions, y sequences, step counts and tolerances",
  "implicit equation over arbitrary fields",
  [FT], [("FieldTracerReversible.follow_field_lines", FT)])
p("C20", "Poincare data are indexed by revolution and slice",
  "In Poincare data entry [revolution, slice] is the field line's position at y = slice + revolution * period, for every over-sampling factor, number of slices and revolutions; returned slices are sorted and equal the requested ones, the first entry is at the first slice where the trace starts, and the caller's slice list is left unchanged. Slices outside one period are refused.",
  ["inputs"], "all slice lists, revolution counts and over-sampling factors",
  "index arithmetic over all sizes",
  [FT], [("trace_poincare", FT)])
p("C21", "Caching of traces is transparent",
  "A caching tracer returns the same result, to the printed precision, as the wrapped tracer would for the same call, whatever calls were made before it: two calls that differ in start points, y values, shape or tracing options never share a cache entry. A repeated call returns the stored result without tracing again.",
  ["inputs", "histories"], "all sequences of calls",
  "collisions need specific pairs of calls",
  [FT], [("CachingFieldTracer", FT)])
p("C22", "Field-line maps record where each cell's field line lands",
  "For every cell, plane and slice offset the stored end point is where the traced field line from that cell reaches the target plane's y value, and the stored map indices are the target plane's index search applied to that end point; cells whose line leaves the domain in y or ends outside the field's boundary are marked -1 in both maps, and no others are. Sub-sampled maps exist for every offset, trace from the quadrature points inside each cell, follow the same rules, and their weights sum to one.",
  ["inputs"], "all grids, tracers, fields, boundaries, slice counts and sample counts",
  "depends on every cell, plane, offset and sub-sample",
  [Z], [("make_maps", Z)])
p("C23", "Parallel slice field names are unique and stable",
  "Distinct pairs of a map or metric variable and an offset get distinct stored names, offset +1/-1 get the plain forward_/backward_ names, larger offsets append their distance, and half offsets get the cell-face names; any other fractional offset below one is refused. Every map variable is stored under the name derived for its own offset.",
  ["inputs"], "all field names of the tool and all offsets",
  "offsets are unbounded",
  [Z], [("parallel_slice_field_name", Z), ("update_metric_names", Z)])
p("C24", "Jacobian, parallel length and face fields",
  "For every cell the stored toroidal field is the field's value at the cell centre and at the field-line positions half way to the neighbouring planes, the stored lengths are the lengths of the same field line over the lower, central and upper one-cell stretch, and the Jacobian is the field-line average of R * B0/B times the perpendicular Jacobian. None of these depend on how the calculation is split into pieces in x.",
  ["inputs"], "all grids, fields, tracers, refinements and numbers of pieces",
  "depends on every cell and the chunking",
  [Z, D], [("make_maps", Z), ("field_line_length", D)])
p("C25", "Written grid file is complete, finite and correctly named",
  "A written grid file contains nx, ny, nz equal to the grid's shape, every map variable, the metric under exactly its documented names, and the metric at each parallel slice computed from that slice's own positions and y values. Any non-finite array is refused before it is written, and writing does not alter the grid's own metric.",
  ["inputs"], "all grids, fields, maps, slice counts and naming options",
  "combinations of options and slice offsets",
  [Z], [("MapWriter", Z), ("write_maps", Z), ("update_metric_names", Z)])
p("C26", "Finite-volume perpendicular operator is exact for linear functions",
  "For every grid whose z lines run anticlockwise (as all generated grids do) the perpendicular-flux coefficients give, for any function linear in R and Z, exactly the flux of its gradient through each cell face (area weighted with R unless slab), and the cell volumes equal the enclosed area (weighted with R unless slab), positive in every interior cell, with guard rows holding a defined value. Writing the coefficients and loading them back returns the same arrays.",
  ["inputs"], "all grids with at least 3 x points and 5 z points",
  "identities over arbitrary geometry",
  [S], [("doit", S), ("write", S), ("load", S), ("fixup", S), ("fixup2", S)])
p("C27", "Interrupted operator generation resumes without loss",
  "If generating the perpendicular operator into a file is interrupted at any plane and later resumed any number of times, the final file equals that of an uninterrupted run; the recorded progress never counts a plane whose coefficients are not yet stored.",
  ["histories", "crash_points"], "every interruption point and number of resumptions",
  "needs a crash at each point of the loop",
  [Z], [("MapWriter.add_dagp", Z)])
p("C28", "Boundary objects classify points correctly",
  "No boundary reports no point outside; a rectangular boundary reports exactly the points strictly outside its box; a polygon boundary reports a point outside exactly when it is not enclosed, for every simple polygon in either orientation and start vertex, including points level with a vertex and edges at any angle. The result has the shape of the input points.",
  ["inputs"], "all boxes, simple polygons and points not on the boundary itself",
  "degenerate alignments with vertices and near-vertical edges are not sampled",
  [B], [("PolygonBoundaryXZ.outside", B), ("RectangularBoundaryXZ.outside", B), ("NoBoundary.outside", B)])
p("C29", "Finite differences have their stated order",
  "The second-order derivative is exact for quadratic data and the fourth-order one for quartic data along any axis of arrays of any rank and size, at every point including the edges when not periodic; in the periodic case they are the wrapped central differences. Inputs are never modified.",
  ["inputs"], "all array ranks, axes, sizes and data",
  "tests check convergence only to the larger of the errors",
  [D], [("c2", D), ("c4", D)])
p("C30", "Field-line length is the Cartesian length of the trace",
  "The length computed from a field-line trace is the summed Cartesian distance between finely interpolated points of the trace in cylindrical coordinates, computed independently for every line; it is never negative, exact for straight lines along Z, and independent of the direction in which the line is followed.",
  ["inputs"], "all traces, batch shapes, y samples and refinements",
  "batch shape and y sampling arbitrary",
  [D], [("field_line_length", D)])
open("/verif/properties.jsonl", "w").write("".join(json.dumps(x) + "\n" for x in P))
