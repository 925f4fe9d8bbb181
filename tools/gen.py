"""Writes properties.jsonl and MANIFEST.json from the list below (development helper).

A property is claimed when mc/checks/<id>.py exists.
"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
PY = "/opt/venv/bin/python"


def p(i, title, statement, over, quant, why, files, mech, observe, note, technique=None, state=None):
    P.append(dict(id=i, title=title, statement=" ".join(statement.split()), over=over, quant=quant,
                  why=" ".join(why.split()), files=["magpie/" + f for f in files],
                  mech=[(a, "magpie/" + b) for a, b in mech], observe=observe, note=note,
                  technique=technique or ENUM, state=state or []))


ENUM = ("model checking of the real code: every execution of a bounded input space is run and "
        "compared with an independent reference model")
ENV = ("model checking of the real code with a controlled environment: every answer of the "
       "random source within the bounds is enumerated and injected, every execution is compared "
       "with a reference model")
HIST = ("model checking of the real code: every operation history up to a depth is executed on "
        "fresh objects and each reached state is compared with a reference model")

SCHED = ("model checking of the real code: a controlled scheduler runs two threads and explores "
         "every interleaving at source-line granularity up to a preemption bound")

p("C01", "Grid-to-grid remaps are exact overlap averages",
  """Remapping a field between regular grids in one, two or three dimensions gives each output
  cell the sum of the input values weighted by the fraction of the output cell's length, area or
  volume that each input cell covers; parts of an output cell outside the input box contribute
  nothing, so a cell without overlap gets zero. This holds for every combination of origins, box
  sizes and resolutions, per axis, whichever grid is finer.""",
  ["inputs"], "all origins, box sizes, resolutions and fields in 1D, 2D and 3D",
  """Tests remap a handful of aligned grids; the overlap search has a branch per relative
  position of cell edges and per axis that those grids never reach.""",
  ["remap/grid2grid.py", "src/remap_utils.f90", "src/remap_1d_grid2grid.f90",
   "src/remap_2d_grid2grid.f90", "src/remap_3d_grid2grid.f90"],
  [("overlap of cells along an axis", "src/remap_utils.f90"),
   ("per-dimension accumulation", "src/remap_1d_grid2grid.f90 (2d, 3d alike)"),
   ("argument forms and flattening", "remap/grid2grid.py")],
  ["grid2grid1D/2D/3D return values"],
  "every grid pair of the alphabet and every basis vector: by linearity the whole remap matrix")

p("C02", "Grid-to-grid remaps: argument forms, identity, conservation, symmetry",
  """Box size, resolution, origins and output box may be given as one number for all axes, as a
  sequence per axis, or left to their defaults (origins 0, output box equal to the input box), and
  equal values give equal results; the memory layout and number type of the field do not matter.
  Remapping onto the same grid returns the field, refining or coarsening within the box conserves
  its integral, constants stay constant inside the box, and exchanging axes exchanges the result's axes.""",
  ["inputs", "configurations"], "all argument forms and omissions, field layouts and number types, grids",
  """Tests call each function in one argument form with C-ordered floats.""",
  ["remap/grid2grid.py"], [("argument normalisation", "remap/grid2grid.py")],
  ["grid2grid1D/2D/3D return values"], "every combination of argument forms, layouts and dtypes of the alphabet")

p("C03", "Grid-to-grid remaps depend on their arguments only",
  """A grid-to-grid remap returns the same values whatever calls were made before it and whatever
  memory it is handed: nothing of earlier results, uninitialised memory or cells outside the arrays
  enters the result.""",
  ["histories", "configurations"], "all call histories and contents of fresh memory",
  """A test sees one allocator state; compiled loops with unset entries pass by luck when fresh
  pages are zero.""",
  ["src/remap_utils.f90", "src/remap_1d_grid2grid.f90", "src/remap_2d_grid2grid.f90",
   "src/remap_3d_grid2grid.f90", "remap/grid2grid.py"],
  [("every table entry is set before use", "src/remap_utils.f90")],
  ["grid2grid1D/2D/3D return values"],
  "allocator fill patterns and ordered call pairs are enumerated; concurrency is not (the "
  "extension holds the interpreter lock)",
  "model checking of the real code with a controlled environment: allocator fill patterns, "
  "buffer poisons and ordered pairs of calls are enumerated on the compiled extension")

p("C04", "Rebinned 1D data are weighted means over the overlapped bins",
  """Rebinning one-dimensional data onto new bin edges gives each new bin the mean of the data in
  the old bins it overlaps, weighted by the fraction of each old bin that is covered times the
  optional weights; a new bin that overlaps no old bin gets NaN. This holds for even and uneven
  edges, for new bins that start or end outside, exactly on, or within one old bin, and for new
  bins that contain the whole range. Edges that decrease, and data or weights whose number does not
  fit the edges, are refused.""",
  ["inputs"], "all old and new bin edges, data, weights",
  """Tests rebin one evenly spaced dataset; positions of a new bin's two edges relative to the
  old edges have many cases.""",
  ["one_d/one_d.py"], [("bins around an edge and covered fractions", "one_d/one_d.py: rebin_1d_single_bin_weights, rebin_1d")],
  ["rebin_1d return value"], "all old edge sets over three step sizes x all ordered pairs of edge positions on a refined lattice")

p("C05", "Rebinned 1D errors follow from the same overlaps",
  """When errors are given, rebinning returns with each value its error: the root of the sum over
  the overlapped old bins of covered fraction times (weight times error) squared, divided by the sum
  of covered fractions times weights (a partly covered bin's variance grows as its covered fraction
  shrinks), from the very overlaps the value uses; a new bin without overlap has error NaN. Values
  are the same with and without errors, and the overlap weights reported for a single new bin are
  proportional to the covered fractions.""",
  ["inputs"], "all edges, errors and weights",
  """Tests check the shape or a single case of the errors.""",
  ["one_d/one_d.py"], [("error propagation", "one_d/one_d.py: rebin_1d")], ["rebin_1d return value"],
  "same enumeration as C04")

p("C06", "HEALPix pixel numbers and ring or diamond indices are inverse",
  """For every nside (not only powers of two) pixel number to ring and position in ring, and pixel
  number to the two diamond indices, follow the HEALPix RING layout and invert exactly, as do the
  sizes and starting pixels of rings; scalar and array calls agree.""",
  ["inputs"], "all nside and pixels",
  """Tests sample a few nside; rounding of square roots at ring ends needs every ring end.""",
  ["pixel/healpix_index.py"], [("closed formulas with square roots", "pixel/healpix_index.py")],
  ["healpix_pix2ij, healpix_ij2pix, healpix_pix2xy/ijs conversions"],
  "every pixel up to nside 64, ring ends up to nside 2^20")

p("C07", "HEALPix pixel centres and outlines describe the pixel",
  """The centre of every pixel in the HEALPix plane is the HEALPix centre, and the outline (whole,
  upper and lower part) is an ordered set of points on the four sides of that pixel with the
  requested number of points, corners included and the direction requested.""",
  ["inputs"], "all nside, pixels, point counts and directions",
  """Tests draw single pixels; polar caps, ring corners and the 2 pi seam each have a branch.""",
  ["pixel/healpix_index.py", "pixel/healpix_boundary.py"],
  [("pixel centres", "pixel/healpix_index.py"), ("outlines", "pixel/healpix_boundary.py")],
  ["healpix_pix2xy, healpix_boundary, top and bottom outlines"], "every pixel of small nside")

p("C08", "HEALPix neighbours are the adjacent pixels",
  """The neighbours of a HEALPix pixel given as diamond indices are exactly the up to eight pixels
  sharing a side or corner with it, each once, in every region of the sphere including polar caps
  and the seam at 2 pi.""",
  ["inputs"], "all nside and pixels",
  """Tests look at few pixels; caps, seams and pixels with seven neighbours are special.""",
  ["pixel/healpix_index.py"], [("neighbour rules by region", "pixel/healpix_index.py: healpix_ijs_neighbours")],
  ["healpix_ijs_neighbours return value"],
  "every pixel of nside 1..32; one known finding at nside 1")

p("C09", "The HEALPix plane projection is invertible and equal-area",
  """Mapping longitude and colatitude to the HEALPix plane and back returns the point, everywhere
  on the sphere including poles, facet edges and the cap boundary, and the plane preserves area;
  scalars and arrays agree.""",
  ["inputs"], "all points of the sphere and of the plane's valid region",
  """Tests map a few points; each cap and facet edge is a branch.""",
  ["coords/healpix.py"], [("piecewise projection", "coords/healpix.py")],
  ["healpix_ang2xy, healpix_xy2ang return values"], "lattices containing every branch boundary")

p("C10", "Coordinate conversions follow their definitions and invert",
  """Cartesian, polar, spherical, latitude/longitude and distance conversions give the defining
  coordinates (angles in [0, 2 pi) or as documented, about any centre) and invert each other, for
  every octant, axis, origin, magnitude and for scalars and arrays of any dimension; areas of sphere
  segments equal the exact solid angle.""",
  ["inputs"], "all points, centres and array shapes", """Tests convert a few points in one octant.""",
  ["coords/conversions.py", "coords/polar.py", "coords/usphere_util.py"],
  [("quadrant handling", "coords/conversions.py")], ["conversion functions' return values"],
  "lattices containing every axis, diagonal and octant")

p("C11", "Rotating the sphere moves every point by the same rotation",
  """Rotating positions on the unit sphere from a start point to an end point applies to all of
  them the one proper rotation along the great circle that carries start to end; shifting longitudes
  adds the shift modulo a full turn. Distances are preserved and results are in range.""",
  ["inputs"], "all start and end points and positions", """Tests rotate few points.""",
  ["coords/usphere.py", "coords/usphere_util.py"],
  [("rotation steps", "coords/usphere.py: usphere_rotate, usphere_phi_shift")],
  ["usphere_rotate, usphere_shift, usphere_phi_shift"], "lattice of starts, ends and positions incl. poles; antipodal pairs excluded")

p("C12", "Spinning the sphere turns it rigidly about the chosen centre",
  """Spinning positions by an angle in [0, 2 pi] about a centre on the unit sphere is the rotation
  by that angle about the axis through the centre: the centre stays, distances stay, and spins
  compose by adding angles.""",
  ["inputs"], "all centres, angles and positions", """Tests spin about few centres.""",
  ["coords/usphere.py"], [("spin by rotation to the pole and back", "coords/usphere.py: usphere_spin")],
  ["usphere_spin return value"], "lattice of centres, angles and positions")

p("C13", "Inputs are never modified",
  """No call of the library changes the values of any array or list passed to it, in that call or
  in later calls on an object it was given to, nor its own default arguments; arrays that are
  read-only, strided or in any memory order can be passed everywhere and give the same results.""",
  ["inputs", "histories"], "all public functions and classes, array shapes and values",
  """Tests look at results, not at their inputs afterwards; in-place updates happen only on
  particular values (angles out of range, masked cells).""",
  ["coords/usphere.py", "montecarlo/box2ring.py", "densegrid/box2ring.py", "remap/grid2grid.py",
   "one_d/one_d.py"], [("copies before in-place edits", "coords/usphere.py: usphere_phi_shift")],
  ["the argument arrays after every call"], "every public callable with an alphabet of inputs that reaches its branches")

p("C14", "Uniform random points fill their domain evenly",
  """Random points in lines, boxes, discs, balls and sphere segments lie inside the stated ranges
  and are uniform in length, area, volume or solid angle: equal-measure parts of the domain receive
  equal shares of equally likely random numbers, and the number of points is the number asked for.""",
  ["inputs", "schedules"], "all ranges, sizes and outcomes of the random source",
  """Tests draw one sample and look at its extremes.""",
  ["randoms/cart.py", "randoms/polar.py", "randoms/sphere.py", "randoms/usphere.py"],
  [("inverse measure maps", "randoms/*.py")], ["generated coordinates"], "every combination of K answers per draw", ENV)

p("C15", "Random points in a HEALPix pixel fill that pixel evenly",
  """Random points generated in a HEALPix pixel lie in that pixel, for every pixel including polar
  and seam pixels, and fill it evenly in solid angle.""",
  ["inputs", "schedules"], "all nside, pixels and outcomes of the random source",
  """Tests draw in a few pixels.""", ["randoms/usphere.py", "pixel/healpix_index.py"],
  [("uniform in the plane, projected", "randoms/usphere.py")], ["generated coordinates"],
  "every pixel of small nside, all answer combinations", ENV)

p("C16", "Sampling a density by inversion reproduces it",
  """The cumulative distribution built from a binned density starts at 0, ends at 1, does not
  decrease and rises in each bin by that bin's share; sampling inverts it, so a bin receives random
  numbers in proportion to its share and every draw lies within the grid.""",
  ["inputs", "schedules"], "all densities, grids, interpolation kinds and outcomes of the random source",
  """Tests draw one sample from one density.""", ["randoms/pdf.py"],
  [("cumulative sum and inverse interpolation", "randoms/pdf.py")], ["pdf2cdf, randoms_cdf, randoms_pdf"],
  "every density over a value alphabet", ENV)

p("C17", "Shuffles and subsamples draw each item at most once, fairly",
  """Shuffling returns a permutation of the items, drawing without repeats returns that many
  different items, all orders being equally likely; probabilistic drawing keeps each item with
  exactly its probability (never at zero, always at one), and a requested size is met with
  items chosen fairly.""",
  ["inputs", "schedules"], "all samples, probabilities, sizes and outcomes of the random source",
  """Tests check the length of one draw.""", ["randoms/subsample.py"],
  [("order by random keys", "randoms/subsample.py")], ["shuffle, random_draw, random_prob_draw"],
  "all orders of answers up to six items; only one uniform double per item is assumed", ENV)

p("C18", "Stochastic weights have the right mean and neighbours",
  """A stochastic integer weight is the floor or ceiling of the weight, a stochastic binary weight
  is 0 or 1, and over the outcomes of the random source their mean is the weight (clipped to [0, 1]
  for binary); scalars give scalars and arrays give arrays.""",
  ["inputs", "schedules"], "all weights and outcomes of the random source",
  """Tests look at one random outcome.""", ["randoms/subsample.py", "randoms/__init__.py"],
  [("floor plus Bernoulli remainder", "randoms/subsample.py")], ["stochastic weights"], "all answers of a 10-level source", ENV)

p("C19", "Grids have evenly spaced cells and exact mid-points",
  """Cartesian, polar and equal-area polar grids have cells of equal width spanning exactly the
  stated range from the stated minimum, mid-points in the middle of their cells, per axis, in all
  argument forms; the cells of the equal-area polar grid have equal areas that add up to the disc.""",
  ["inputs", "configurations"], "all lengths, minima, resolutions and argument forms",
  """Tests build a few grids.""", ["grids/cartesian.py", "grids/polar.py"],
  [("edges and mid-points", "grids/cartesian.py"), ("rings", "grids/polar.py")], ["grid functions' return values"],
  "all small grids and forms; one known finding (edges recovered from mid-points)")

p("C20", "Outlines of shapes lie on the shape and close",
  """Outlines of rectangles, arcs, disc segments and boxes consist of the requested number of
  points, on the shape's edges in order, corners included; the outline of a box seen from a point
  outside shows exactly the edges that are not hidden behind it.""",
  ["inputs"], "all extents, point counts and viewpoints", """Tests draw one of each.""",
  ["pixel/basic_shapes.py"], [("side by side construction", "pixel/basic_shapes.py")],
  ["outline coordinates"], "lattice of extents and viewpoints")

p("C21", "Polar areas, radial profiles and cumulative profiles are exact",
  """Areas of polar cells equal the exact annulus segments, the radial profile is the weighted mean
  over angle in each radial bin with the standard error of that mean corrected for pixel size, and
  the cumulative profile is the running sum of profile times annulus area with errors added in
  quadrature.""",
  ["inputs"], "all edges, fields, weights and errors", """Tests use one smooth field.""",
  ["polar/polar2radial.py", "polar/radial.py"], [("sums over the angle axis", "polar/polar2radial.py")],
  ["get_polar_area2d, polar2radial, cumulative_radial"], "all fields and weights over a value alphabet")

p("C22", "Dense box-to-ring remap averages the cells under each polar cell",
  """Remapping a 2D box field onto polar rings by sub-dividing each polar cell (by its own factor
  along radius and angle) gives the average, weighted by sub-cell area, of the box cells containing
  the sub-cell centres, about the chosen centre and turned by the chosen angle; with weights it is
  the weighted mean, and sub-cells outside the box count as zero.""",
  ["inputs"], "all boxes, polar grids, centres, sub-divisions, fields and weights",
  """Tests remap a constant or smooth field on one grid.""", ["densegrid/box2ring.py", "utils/check.py"],
  [("sub-cells and rebinning", "densegrid/box2ring.py")], ["Box2Ring.remap"], "alphabet of boxes, grids and every basis field")

p("C23", "Monte Carlo box-to-ring remap averages the cells under its points",
  """Remapping a 2D box field onto polar rings by random points gives each polar cell the mean of
  the box cells its points fall in, weighted if weights are given; cells without points in the
  box get NaN. The points of a cell are spread evenly over its area, about the chosen centre and
  turned by the chosen angle, for linear and logarithmic rings.""",
  ["inputs", "schedules"], "all boxes, polar grids, fields, weights and outcomes of the random source",
  """Tests remap a constant or smooth field with one random sample.""", ["montecarlo/box2ring.py"],
  [("points to pixels to means", "montecarlo/box2ring.py")], ["Box2Ring.remap"], "all answer combinations of a K-level source", ENV)

p("C24", "Dense cube-to-shell remap averages the cells under each pixel",
  """Remapping a 3D cube onto HEALPix shells by sub-dividing each shell cell (finer HEALPix pixels
  and finer shells) gives the average of the cube cells containing the sub-cell centres, weighted by
  volume, in the layout of the cube's own coordinates. Points outside the cube count as zero, or take
  the value of the requested periodic images of the cube; no point is lost between two images.""",
  ["inputs", "configurations"], "all cubes, shells, nside, sub-divisions and fields",
  """Tests remap one field.""", ["densegrid/cube2shell.py"], [("sub-cells to cube cells", "densegrid/cube2shell.py")],
  ["Cube2Shell.remap"], "alphabet of cubes and shells and every basis field")

p("C25", "Monte Carlo cube-to-shell remap averages the cells under its points",
  """Remapping a 3D cube onto HEALPix shells by random points gives each pixel of each shell the mean
  of the cube cells its points fall in, weighted if weights are given, and
  the HEALPix value for unseen pixels where no point falls in the cube. The points are uniform in the shell cell's volume, about the chosen centre, for
  linear and logarithmic shells.""",
  ["inputs", "schedules", "configurations"], "all cubes, shells, fields and outcomes of the random source",
  """Tests remap one field with one random sample.""", ["montecarlo/cube2shell.py"],
  [("points to cells to means", "montecarlo/cube2shell.py")], ["Cube2Shell.remap"], "all answer combinations of a K-level source", ENV)

p("C26", "HEALPix-to-ring remaps average the map around the centre",
  """Remapping a HEALPix map onto polar rings about a centre on the sphere gives each ring cell the
  solid-angle average of the map over the part of the sphere at those angular distances and position
  angles (plus the chosen shift) from the centre, weighted by a weight map if given, for the dense
  version (at sub-cell centres) and the Monte Carlo version (at random points).""",
  ["inputs", "schedules"], "all maps, centres, rings, weights and outcomes of the random source",
  """Tests remap a constant map.""", ["densegrid/heal2ring.py", "montecarlo/heal2ring.py", "coords/usphere.py"],
  [("rotation to the centre", "densegrid/heal2ring.py, montecarlo/heal2ring.py")], ["Heal2Ring.remap"],
  "alphabet of centres and rings incl. the poles, every basis map", ENV)

p("C27", "HEALPix-to-patch remaps average the map over each patch cell",
  """Remapping a HEALPix map onto a longitude-latitude patch about a centre gives each cell the
  average of the map over that cell after rotating the patch to the centre and spinning it by the
  given angle, weighted by a weight map if given, for the dense and the Monte Carlo version.""",
  ["inputs", "schedules"], "all maps, centres, spins, patches, weights and outcomes of the random source",
  """Tests remap a constant map.""", ["densegrid/heal2polar.py", "montecarlo/heal2polar.py", "coords/usphere.py"],
  [("rotation to the centre", "densegrid/heal2polar.py, montecarlo/heal2polar.py")], ["Heal2Polar.remap"],
  "alphabet of centres, spins and patches, every basis map", ENV)

p("C28", "HEALPix-to-orthographic remap shows the hemisphere about the centre",
  """Remapping a HEALPix map onto an orthographic grid gives each cell the mean of the map under
  the part of it that lies on the disc, rotated to the chosen centre; cells whose centre is off
  the disc are NaN, and transforming sky positions gives the matching coordinates on that grid.""",
  ["inputs"], "all maps, centres, grids, sub-divisions and weights", """Tests remap a constant map.""",
  ["densegrid/heal2ortho.py"], [("orthographic sub-cells", "densegrid/heal2ortho.py")], ["Heal2Ortho.remap, transform"],
  "alphabet of centres and grids, every basis map")

p("C29", "Rotating polar grids moves the field by the angle",
  """Rotating polar coordinates adds the angle modulo a full turn, and rotating a polar grid
  interpolates linearly between neighbouring angular cells so that the field read at an angle is the
  original field at that angle plus the shift, wrapping on a full-circle grid; rotations by whole
  cells only roll the grid. Angles outside (0, 2 pi) are refused, and a grid of another shape than
  the object's is refused.""",
  ["inputs"], "all grids, shifts and fields", """Tests rotate by one angle.""",
  ["coords/polar.py", "montecarlo/box2ring.py", "densegrid/box2ring.py"],
  [("roll and interpolation", "coords/polar.py")], ["rotate_polar, rotate_polar_grid, ring classes"], "every grid size, shift and basis field")

p("C30", "Polar cells are kept or masked by how much of them is inside",
  """The in-bound mask of the dense box-to-ring remapper is the fraction of each polar cell's area
  (by sub-cells) inside the box, that of the Monte Carlo remapper tells whether any point of the cell is
  inside, and radial profiles made from a remapped ring are means over the cells whose mask is one,
  combined with the caller's weights; profiles of HEALPix rings are means over all cells with errors
  scaled by solid-angle areas.""",
  ["inputs"], "all boxes, rings and centres", """Tests use rings inside the box.""",
  ["densegrid/box2ring.py", "montecarlo/box2ring.py", "polar/polar2radial.py"],
  [("mask by covered fraction", "montecarlo/box2ring.py, densegrid/box2ring.py")], ["Box2Ring.polar2radial, mask"],
  "rings inside, crossing and outside the box")

p("C31", "Remapper objects forget their past when set up again",
  """What a remapper returns depends only on its latest set-up: after any sequence of set-ups, remaps
  and clean-ups it gives what a fresh object with the same last set-up gives, and two objects never
  influence each other.""",
  ["histories"], "all sequences of set-up, remap and clean operations",
  """Tests set up each object once.""", ["montecarlo/box2ring.py", "montecarlo/heal2ring.py", "montecarlo/heal2polar.py",
   "montecarlo/cube2shell.py", "densegrid/box2ring.py", "densegrid/heal2ring.py", "densegrid/heal2polar.py",
   "densegrid/heal2ortho.py", "densegrid/cube2shell.py"],
  [("set-up overwrites derived state", "montecarlo/box2ring.py: setup_polar_grid and peers")], ["remap results after histories"],
  "every operation sequence up to the depth", HIST)

p("C32", "A point of view looks along its axis without distortion",
  """Transforming points to a point of view puts the viewpoint's forward direction on the first axis,
  preserves distances and handedness, applies the spin about that axis, and projects at the given
  distance by perspective; reversing a projection returns the original direction.""",
  ["inputs"], "all viewpoints, directions, spins and points", """No test covers it.""",
  ["densegrid/pointofview.py"], [("rotations and perspective", "densegrid/pointofview.py")], ["PointOfView.transform, reverse"],
  "lattice of viewpoints, directions, spins and points")

p("C33", "Random results are reproducible from the seed",
  """Calling any random generator or Monte Carlo remapper after seeding NumPy's global generator
  gives the same result every time, whatever was called before the seed and whatever other object
  was used; functions that use no randomness do not advance the generator, and a repeated call
  without reseeding gives fresh randoms.""",
  ["histories"], "all call histories before the seed", """Tests do not seed twice.""",
  ["randoms/cart.py", "randoms/polar.py", "randoms/sphere.py", "randoms/usphere.py", "randoms/pdf.py", "randoms/subsample.py"],
  [("only the global generator is used", "randoms/*.py")], ["results of all random functions"],
  "every ordered pair of calls before the seed", HIST)

p("C34", "Progress output is well formed and changes no result",
  """Turning progress output on changes no result of any function and turning it off silences
  it; the bar shown has constant width, is filled in proportion to the work done (rounded down)
  inside its edges, shows that percentage, is refreshed about the requested number of times, does not
  run backwards, and ends full with a line break.""",
  ["inputs", "configurations"], "all lengths and refresh settings", """No test reads the output.""",
  ["utils/progress.py"], [("bar and refresh", "utils/progress.py")], ["standard output, results"],
  "every length and step up to the bound")

p("C35", "Remaps treat each cell on its own and in proportion, however it is stored",
  """In every remap (grid to grid, 1D rebinning, box to ring, cube to shell, HEALPix to ring, patch
  and orthographic grid, dense and Monte Carlo, radial and cumulative profiles, rotated polar grids) a
  field is remapped as the sum of its cells: a cell that is NaN or infinite, in the field, the weights
  or the errors, reaches only the target cells it covers; multiplying the field (or the errors) by a
  factor, however large or small, multiplies the result (or its errors) and nothing else, and
  multiplying the weights changes nothing; integer, boolean, single precision or byte-swapped
  numbers and any memory layout give the result of the same values as contiguous doubles.""",
  ["inputs"], "all fields, weights and errors, their number types and layouts",
  """Tests remap finite double precision fields of order one.""",
  ["src/remap_utils.f90", "one_d/one_d.py", "densegrid/box2ring.py", "montecarlo/box2ring.py",
   "polar/polar2radial.py", "coords/polar.py"],
  [("weights of cells that are not covered", "src/remap_utils.f90: remap_1d_grid2grid_pixel"),
   ("bins that are only touched", "one_d/one_d.py: _rebin_1d_single_bin")],
  ["results of all remaps"], "every cell in turn not finite, every storage form")

p("C36", "No call leaves anything behind",
  """The answer of any public function or freshly set-up object depends on its arguments (and, for random
  ones, on the seeded generator) only: not on which calls were made before it in the process, with the same,
  similar or other arguments, on other objects or the same one, and not on what the caller did since with
  arrays it had passed or received. Results handed out earlier keep their values. No call changes NumPy's error
  handling, printing or warning settings, the environment or the working directory, and calls that are
  not random leave the random generators untouched.""",
  ["histories", "inputs"], "all sequences of calls in a process",
  """Tests call each function once or twice with unrelated arguments, so a value kept under too
  little information is never asked for again.""",
  ["coords/usphere.py", "randoms/usphere.py", "pixel/healpix_index.py", "densegrid/box2ring.py",
   "montecarlo/box2ring.py", "remap/grid2grid.py"],
  [("no state at module or class level", "all modules"),
   ("set-up replaces every derived array", "densegrid/*.py, montecarlo/*.py")],
  ["results of all public functions and objects", "process-wide settings"],
  "every ordered pair of calls that differ in one argument, in fresh processes", technique=HIST)

p("C37", "Calls that overlap in two threads do not disturb each other",
  """Two threads may use the library at the same time, with different objects and sharing arrays they only
  read: wherever one thread is interrupted and the other runs, every call that does not draw random numbers
  answers as it does alone. In particular nothing passed to a call is changed even for a moment, and
  no intermediate value is kept where another call can reach it.""",
  ["schedules"], "all interleavings of two calls at the granularity of source lines",
  """Tests are sequential; an intermediate value kept in a module or class is only wrong under the one
  schedule that interleaves two calls.""",
  ["coords/usphere.py", "pixel/healpix_boundary.py", "one_d/one_d.py", "densegrid/box2ring.py",
   "densegrid/heal2ring.py", "densegrid/cube2shell.py", "densegrid/pointofview.py"],
  [("intermediate values are local or belong to the object", "all modules")],
  ["results of calls in both threads"],
  "every interleaving with one switch (two switches for short calls) of calls of the real code",
  technique=SCHED)

p("C38", "Size makes no difference",
  """What a call gives for one point, pixel, cell, bin, shell or random draw does not depend on how many of them are
  handled together: functions of points and pixels give every element of an array of any length the value it has alone;
  samplers turn each random number into the same point whatever the sample size; remaps between
  grids of any size follow the overlap rule, keep all digits of large values, and
  a target cell of a large grid gets what it gets in a grid of its own.""",
  ["inputs"], "all array lengths, sample sizes, grid sizes and numbers of sub-cells or random points",
  """Tests use a few points and cells; work in blocks, a limit on lengths, single precision for large inputs or a counter
  that overflows shows only beyond some size.""",
  ["src/remap_1d_grid2grid.f90", "src/remap_2d_grid2grid.f90", "src/remap_3d_grid2grid.f90", "one_d/one_d.py",
   "coords/usphere.py", "coords/conversions.py", "coords/healpix.py", "pixel/healpix_index.py", "grids/cartesian.py",
   "densegrid/box2ring.py", "densegrid/heal2ring.py", "montecarlo/box2ring.py", "montecarlo/heal2ring.py"],
  [("array and scalar branches", "coords/*.py, pixel/healpix_index.py"),
   ("loops over cells", "densegrid/*.py, montecarlo/*.py")],
  ["results of all functions and objects"],
  "every array length in the bounds, every pair of grid sizes, every block of target cells; samplers with the "
  "random source answering a constant")

p("C39", "Every parameter counts, however small its change",
  """A remap uses its parameters exactly as given: edges, radii, angles, centres, shifts and spins that differ slightly from
  another value, from zero or from a special angle give the result of the value given, not of the nearby one,
  on new objects and on objects that were set up with the nearby value before. Slivers of overlap count with their
  fraction however large the values in them. Coordinate functions and samplers move with their parameters to the last
  digits.""",
  ["inputs", "histories"], "all parameter values, in particular pairs that nearly agree",
  """Tests use round numbers and one set-up per object; comparing with a tolerance, rounding, or a threshold
  below which a parameter is ignored gives the same results there.""",
  ["densegrid/box2ring.py", "densegrid/cube2shell.py", "densegrid/heal2ring.py", "densegrid/heal2polar.py",
   "densegrid/heal2ortho.py", "densegrid/pointofview.py", "montecarlo/box2ring.py", "montecarlo/cube2shell.py",
   "montecarlo/heal2ring.py", "montecarlo/heal2polar.py", "one_d/one_d.py", "src/remap_utils.f90", "coords/usphere.py"],
  [("shifts and spins applied when not zero", "setup_* and get_weights"),
   ("overlap of cells along an axis", "src/remap_utils.f90")],
  ["remapped fields, coordinates, random points"],
  "every parameter of every remapper at every base value times every change of the alphabet, new and reused objects")

p("C40", "Units and origin make no difference",
  """Lengths may be given in any unit and values in any unit or sign: multiplying every length by a factor multiplies
  lengths in the results by it, areas by its square, and leaves values, angles and fractions alone; multiplying
  every value by a factor multiplies averages and values by it. Moving the origin of all positions moves positions in the
  results and nothing else. This holds from tiny to huge factors, for grids, remaps, coordinates, radial
  profiles, random points and projections: nothing compares a length or a value with an absolute number.""",
  ["inputs"], "all units of length and value, all translations",
  """Tests use numbers of order one, where a tolerance or limit written as an absolute number looks right.""",
  ["one_d/one_d.py", "src/remap_utils.f90", "polar/radial.py", "densegrid/box2ring.py",
   "densegrid/cube2shell.py", "montecarlo/box2ring.py", "montecarlo/cube2shell.py", "densegrid/pointofview.py",
   "coords/polar.py", "coords/conversions.py", "randoms/polar.py", "randoms/pdf.py"],
  [("comparisons are between quantities of the same dimension", "all modules")],
  ["results of all functions and objects"],
  "every scene in every unit of length and of value and about every origin of the alphabet")


p("C41", "Impossible arguments are refused, possible ones answered",
  """Functions and remappers that state the domain of their arguments (angles within a turn, colatitudes within [0, pi],
  minimum below maximum, positive numbers of cells, centres with the right number of coordinates, valid nside, arrays of the
  shape of the grid, matching lengths, ordered edges, steps that divide, sizes below the sample's, cdfs from 0 to 1)
  raise an error for every argument outside it, by however little and whatever the other arguments are, and answer
  for every argument inside it, borders included where they are allowed. A refused call leaves the remapper as it was:
  one that was set up goes on answering from that set-up.""",
  ["inputs", "histories"], "all arguments and combinations of arguments; all states of the remapper",
  """Tests call functions with valid arguments; a missing or weakened refusal needs the one argument just outside, with
  all others valid, and a refusal that comes too late leaves a remapper half changed.""",
  ["coords/usphere.py", "coords/usphere_util.py", "coords/polar.py", "one_d/one_d.py", "randoms/subsample.py",
   "randoms/pdf.py", "pixel/basic_shapes.py", "densegrid/box2ring.py", "densegrid/cube2shell.py", "densegrid/heal2ring.py",
   "densegrid/heal2polar.py", "densegrid/heal2ortho.py", "montecarlo/box2ring.py", "montecarlo/cube2shell.py",
   "montecarlo/heal2ring.py", "montecarlo/heal2polar.py", "utils/check.py"],
  [("assertions at the start of each function", "all modules"), ("set-up order", "setup_* methods of the remappers")],
  ["raised or not; answers of the remapper afterwards"],
  "the decision table of every function, all classes of all arguments in pairs or the full product")


p("C42", "Splitting cells changes nothing",
  """Results depend on what the data say, not on how finely they are stored: splitting the cells of a source grid, the
  bins of a histogram, the pixels of a HEALPix map or the cells of a density into equal parts with the same value
  leaves every remap, re-binning, mask, profile, rotation, distribution and draw as it was, in any direction and by any
  factor; and a target cell of a dense or exact remap is the area-weighted mean of the cells it is split into. Areas of
  parts add up to the area of the whole.""",
  ["inputs"], "all sources, all splits of source and target cells, all set-ups",
  """Tests use one resolution; treating some resolutions, directions or sizes differently needs the same data at two
  resolutions to show.""",
  ["one_d/one_d.py", "remap/grid2grid.py", "src/remap_utils.f90",
   "densegrid/box2ring.py", "densegrid/cube2shell.py", "densegrid/heal2ring.py", "densegrid/heal2polar.py",
   "densegrid/heal2ortho.py", "montecarlo/box2ring.py", "montecarlo/cube2shell.py", "montecarlo/heal2ring.py",
   "montecarlo/heal2polar.py", "polar/polar2radial.py", "polar/radial.py", "coords/polar.py", "randoms/pdf.py"],
  [("remapping by overlap", "remap modules, one_d"), ("sampling of source cells", "densegrid and montecarlo modules")],
  ["remapped grids, masks, profiles, errors, draws"],
  "all factors of the alphabet along all sets of axes, on every scene")


p("C43", "Drawings show the coordinates they claim",
  """Drawings of the orthographic view put everything where it is: images cover the cells of the map, grid lines are
  all the visible meridians and parallels of the step asked for, labels on the sphere stand at the (shifted) point they
  name, inside the view only, with the decimals, convention (colatitude or latitude) and direction asked for; labels along the axes stand where
  the edge of the view has that coordinate, also across the seam; outlines of patches, boxes and circles lie on the shape
  and close; finishing sets the limits (mirrored for the view from inside). Axes that are given are drawn on, else
  the current ones, and no others; drawing changes neither view nor map and follows a view that is set up again.""",
  ["inputs", "histories"], "all views, steps, labels and patches; all sequences of drawings on several axes",
  """No test draws. Mistakes show only for unequal steps, oblong views, hidden poles, the seam, or given axes.""",
  ["plots/ortho.py", "plots/shapes.py", "densegrid/heal2ortho.py", "pixel/basic_shapes.py"],
  [("drawing through transform", "PlotOrtho methods"), ("outlines", "plot_box, plot_circle")],
  ["artists of the axes"],
  "every view and option of the alphabet (labels on the sphere: options in covering combinations), all sequences of 3 drawings")

p("C44", "A number is the same number whatever its type",
  """Every function and remapper gives the same result when a number, list or array it takes is given in another type that
  holds the same values: Python or NumPy integers of any width, single, double or byte-swapped reals, tuples, arrays or
  lists, strided, Fortran-ordered or read-only arrays, alone and in any combination. Integers are not truncated, wrapped
  or divided as integers on the way, counts may come from NumPy, and single precision costs no more than its own rounding:
  no cell, mask, branch or draw changes because of it.""",
  ["inputs"], "all arguments of all public functions and set-ups, all types, all combinations of types",
  """Tests give doubles (or whatever the literal is). Integer arithmetic, in-place operations on the caller's type, type
  tests and exact comparisons after rounding only show with one type at one argument.""",
  ["coords/conversions.py", "coords/polar.py", "coords/usphere.py", "grids/cartesian.py", "grids/polar.py",
   "one_d/one_d.py", "pixel/healpix_index.py", "polar/polar2radial.py", "randoms/cart.py", "randoms/pdf.py",
   "remap/grid2grid.py", "densegrid/box2ring.py", "montecarlo/box2ring.py"],
  [("set-ups and functions", "all modules")], ["returned arrays"],
  "209 calls; each argument alone (with round and broken values of the others), all pairs and all together in each type; thorough: all pairs of different types")


def main():
    claimed = [q for q in P if os.path.exists(os.path.join(HERE, "mc", "checks", q["id"].lower() + ".py"))]
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for q in claimed:
            f.write(json.dumps({
                "id": q["id"], "title": q["title"], "statement": q["statement"],
                "quantifier": {"over": q["over"], "text": q["quant"]},
                "why_tests_cant": q["why"],
                "anchors": {"files": q["files"], "state": q["state"],
                            "mechanism": [{"name": a, "where": b} for a, b in q["mech"]],
                            "observe_at": q["observe"], "hook_needed": None}}) + "\n")
    man = {"version": 1, "setup_cmd": PY + " -B -m mc.selftest",
           "checks": [{"property": q["id"],
                       "quick_cmd": "%s -B -m mc.run %s --tier quick" % (PY, q["id"]),
                       "thorough_cmd": "%s -B -m mc.run %s --tier thorough" % (PY, q["id"]),
                       "evidence_file": "evidence/%s.json" % q["id"],
                       "technique": q["technique"], "level": "model_checking",
                       "level_note": q["note"]} for q in claimed],
           "not_applicable": [],
           "notes": "Run from /verif. Replay a violation with: %s -B -m mc.run ID --replay FILE" % PY}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    import jsonschema
    ps = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for ln in open(os.path.join(HERE, "properties.jsonl")):
        jsonschema.validate(json.loads(ln), ps)
    jsonschema.validate(man, json.load(open("/root/.vp/MANIFEST.schema.json")))
    print(len(claimed), "claimed")


if __name__ == "__main__":
    main()
