# (executed by spec.py)

prop('C01', 'Axis search returns the nearest element and the enclosing pair',
     'On every real or integer axis (regular or not, ascending or descending, '
     'obtained directly or by any sequence of flips, copies and pickling), the '
     'index search gives a closest element of any finite coordinate of the '
     'axis range, -1 (or, when bounded, the closest end) outside, and the '
     'pair search gives two neighbouring elements that enclose the coordinate, '
     'or -1 outside; an undefined coordinate is outside. '
     'Elements, slices, bounds, order and equality of an axis are those of the '
     'list of values it was built from; values that are not strictly '
     'monotonic are refused.',
     ['inputs', 'histories'],
     'all axes over a small lattice, all coordinates of a finer lattice, all '
     'sequences of flip/copy/pickle up to a depth',
     'Tests use a few hand-made ascending axes; the search has separate code '
     'for regular/irregular, real/integer, ascending/descending and bounds.',
     [INC + 'detail/axis.hpp', INC + 'detail/axis/container.hpp',
      INC + 'axis.hpp', CORE + 'module/axis.cpp'],
     [M(INC + 'detail/axis/container.hpp', 'find_index of the containers'),
      M(INC + 'detail/axis.hpp', 'find_indexes')],
     'explicit-state enumeration of axes and derivation histories, replayed '
     'on the bindings against a list model', NOTE)

prop('C02', 'Angular axes are invariant under whole turns',
     'On an axis declared as a circle, a coordinate and the same coordinate '
     'shifted by any number of turns give the same elements. '
     'When the axis covers the circle, every coordinate has a closest element '
     'and an enclosing pair, the last and first elements being neighbours, '
     'whatever the order, origin or seam of the values; a sector only answers '
     'inside of it. '
     'Flips, copies and pickling keep all of this.',
     ['inputs', 'histories'],
     'all regular circles up to a size, sectors, irregular and wrapped '
     'vectors, both orders, several origins, all coordinates of a lattice '
     'shifted by -2..2 turns',
     'Tests look at a few longitudes on ascending regular axes.',
     [INC + 'detail/axis.hpp', INC + 'axis.hpp', INC + 'detail/math.hpp'],
     [M(INC + 'detail/axis.hpp', 'normalize_coordinate, compute_properties')],
     'explicit-state enumeration of circular axes against exact modular '
     'arithmetic', NOTE)

prop('C03', 'Temporal axes search exactly, in the unit of the axis',
     'A temporal axis answers like an integer axis over its dates: dates or '
     'durations given in another unit are converted to the unit of the axis '
     'as numpy converts them (with a warning when that truncates), dates are '
     'never mixed with durations, and no precision is lost for any unit from '
     'years to attoseconds.',
     ['inputs', 'configurations'],
     'all pairs of units of axis and coordinates, dates before and after the '
     'epoch, both orders',
     'Tests use a few microsecond axes.',
     [INC + 'temporal_axis.hpp', INC + 'dateutils.hpp',
      CORE + 'module/axis.cpp'],
     [M(INC + 'temporal_axis.hpp', 'safe_cast')],
     'exhaustive enumeration of unit pairs and dates against numpy and '
     'integer models', NOTE)

prop('C04', 'Calendar fields of dates are those of the Gregorian calendar',
     'For every datetime64 from seconds to nanoseconds within the range of '
     'years 1 to 9999 that the unit can hold, the year, month, day, time, '
     'weekday, ISO calendar, second and time elapsed since January 1st agree '
     'with the proleptic Gregorian calendar; arrays give the same answers '
     'element by element.',
     ['inputs'],
     'every day of the years 1..9999 at the second unit, and every day the '
     'finer units can represent, at several times of day',
     'Tests sample a few random dates after 1970.',
     [INC + 'dateutils.hpp', CORE + 'module/dateutils.cpp'],
     [M(INC + 'dateutils.hpp', 'date_from_days_since_epoch, isocalendar')],
     'exhaustive enumeration of all days against the Python calendar', NOTE)

prop('C05', 'Periods and lists of periods behave as sets of instants',
     'Containment, order, adjacency, intersection, merge and duration of '
     'periods are those of the sets of instants they denote, for open and '
     'closed ends and mixed units. '
     'A list of periods stays sorted; joining, merging, intersecting, '
     'filtering, "within", "belongs to" and "crosses" agree with the same '
     'operations on sets, for every list and every sequence of operations.',
     ['inputs', 'histories'],
     'all pairs of periods over a small range of instants, all lists of up to '
     '3 periods and all short sequences of operations on them',
     'Tests exercise a handful of pairs and one list.',
     [INC + 'period.hpp', CORE + 'module/period.cpp',
      'src/pyinterp/period.py'],
     [M(INC + 'period.hpp', 'Period, PeriodList')],
     'explicit-state enumeration of periods and lists against a model of sets '
     'of integers', NOTE)

prop('C06', 'Multilinear interpolation of grids is exact and bounded',
     'Bilinear interpolation of 2, 3 and 4 dimensional grids (with linear '
     'third and fourth axes, real or temporal) returns the weighted mean of '
     'the nodes of the cell that contains the point: exact at the nodes and '
     'for functions linear in each coordinate, within the range of the nodes, '
     'undefined only if the point is outside the grid or undefined, or if a '
     'node of its cell is undefined. '
     'It does not depend on the order of the axes, nor on the turn of a '
     'longitude, the cell across the seam of a circle included; with bounds '
     'errors on, a point is rejected exactly if it is outside.',
     ['inputs', 'configurations'],
     'all small grids over 0/1 node values and axis layouts, every point of a '
     'sub-cell lattice including seams and outsides',
     'Tests compare a few points of one data file, ascending axes only.',
     [INC + 'bivariate.hpp', INC + 'trivariate.hpp', INC + 'quadrivariate.hpp',
      INC + 'detail/math/bivariate.hpp', INC + 'detail/math/trivariate.hpp',
      INC + 'detail/math/linear.hpp', INC + 'grid.hpp',
      'src/pyinterp/interpolator/bivariate.py', 'src/pyinterp/grid.py'],
     [M(INC + 'detail/math/bivariate.hpp', 'Bilinear'),
      M(INC + 'trivariate.hpp', 'z interpolation')],
     'exhaustive enumeration of grids and points against exact rational '
     'interpolation', NOTE)

prop('C07', 'Nearest and inverse distance interpolation of grids',
     'Nearest interpolation of a 2, 3 or 4 dimensional grid returns the value '
     'of a node of the enclosing cell that is closest to the point, on every '
     'axis including temporal ones; inverse distance interpolation returns '
     'the mean of the corner values weighted by the inverse power of their '
     'distances, the value of the node at a node.',
     ['inputs', 'configurations'],
     'all small grids and axis layouts, every point of a sub-cell lattice',
     'Tests compare a few points of one data file.',
     [INC + 'detail/math/nearest.hpp', INC + 'detail/math/bivariate.hpp',
      INC + 'detail/math/trivariate.hpp', INC + 'bivariate.hpp',
      INC + 'trivariate.hpp', INC + 'quadrivariate.hpp'],
     [M(INC + 'detail/math/bivariate.hpp', 'Nearest, '
                                         'InverseDistanceWeighting')],
     'exhaustive enumeration of grids and points against brute force', NOTE)

prop('C08', 'One-dimensional interpolators pass through their data',
     'The linear, polynomial, natural and periodic cubic spline, Akima and '
     'Steffen interpolators return the data at the nodes and reproduce the '
     'functions of their class exactly; Steffen does not overshoot; the '
     'windowed interpolation of a series gives, point by point, what the '
     'interpolator gives on the window around the point, whatever the order of '
     'the points and the previous calls, and outside of the data either an '
     'error or an undefined value.',
     ['inputs', 'histories'],
     'all small data sets over a lattice of values and abscissae, every point '
     'of a finer lattice',
     'Tests compare one data set per method with values recorded from the '
     'implementation.',
     [INC + 'interpolate1d.hpp', INC + 'detail/interpolation/polynomial.hpp',
      INC + 'detail/interpolation/akima.hpp',
      INC + 'detail/interpolation/cspline.hpp',
      INC + 'detail/interpolation/steffen.hpp',
      INC + 'detail/interpolation/linear.hpp'],
     [M(INC + 'detail/interpolation', 'coefficients and search')],
     'exhaustive enumeration of data sets and points against independent '
     'definitions of the interpolants', NOTE)

prop('C09', 'Spline and bicubic interpolation of grids',
     'Bicubic interpolation of a 2, 3 or 4 dimensional grid with any fitting '
     'model returns the node values at the nodes, reproduces the product of '
     'functions its model reproduces, depends only on the window of nodes '
     'around the point as built by the boundary condition, and is undefined '
     'when the window is not available or holds an undefined node.',
     ['inputs', 'configurations'],
     'all fitting models, boundary conditions, window sizes and axis orders on '
     'small grids, every point of a sub-cell lattice',
     'Tests check a few points of one data file for default windows.',
     [CORE + 'module/bicubic.cpp', INC + 'frame.hpp',
      INC + 'detail/math/bicubic.hpp', INC + 'detail/math/spline2d.hpp',
      INC + 'detail/math/frame.hpp', 'src/pyinterp/interpolator/bicubic.py'],
     [M(INC + 'detail/axis.hpp', 'find_indexes(size, boundary)'),
      M(INC + 'frame.hpp', 'load_frame')],
     'exhaustive enumeration of configurations and points against one '
     'dimensional reference interpolants', NOTE)

prop('C10', 'Results do not depend on threads, and errors are reported',
     'Every function that takes a number of threads returns the same result '
     'for any number of threads and any schedule; the work is cut into '
     'disjoint chunks that cover it exactly, no two threads touch the same '
     'data without order, and an exception raised by any worker reaches the '
     'caller after all workers have stopped.',
     ['schedules', 'inputs', 'configurations'],
     'all sizes and thread counts of a range, all interleavings of the workers '
     'up to a preemption bound, all subsets of failing workers',
     'Tests run one schedule and mostly one thread count.',
     [INC + 'detail/thread.hpp', INC + 'fill.hpp', INC + 'geohash.hpp',
      INC + 'rtree.hpp', INC + 'bivariate.hpp'],
     [M(INC + 'detail/thread.hpp', 'dispatch')],
     'stateless exploration of all thread interleavings of the dispatcher '
     'under a controlled scheduler, plus exhaustive thread counts', NOTE)

prop('C11', 'Geohash encoding and decoding are inverse of each other',
     'For every precision, a position is encoded to the cell that contains it, '
     'the string and integer codes of a position agree, a code decodes to the '
     'centre of its cell and is found again when that centre is encoded, and '
     'codes of lower precision are prefixes of codes of higher precision. '
     'The bounding box of a code has the published size; an invalid code is '
     'refused.',
     ['inputs'],
     'all codes of up to 3 characters (4 in thorough) and all integer '
     'precisions, at the corners, edges and centres of the cells',
     'Tests check a table of recorded positions.',
     [CORE + 'lib/geohash/int64.cpp', CORE + 'lib/geohash/base32.cpp',
      CORE + 'lib/geohash/string.cpp', INC + 'geohash.hpp',
      'src/pyinterp/_geohash.py'],
     [M(CORE + 'lib/geohash/int64.cpp', 'encode, decode, bounding_box')],
     'exhaustive enumeration of codes against interval bisection on rationals',
     NOTE)

prop('C12', 'Geohash neighbours and covers',
     'The neighbours of a code are the cells that touch it, across the date '
     'line and the poles too; the codes that cover a box are exactly the '
     'cells of the precision whose interior meets it, without duplicates, and '
     'the codes that cover a polygon those that meet the polygon. '
     'Changing the precision of a set of codes and locating codes in an array '
     'keep the cells they denote.',
     ['inputs'],
     'all codes of one and two characters and all boxes of a lattice of '
     'corners aligned, and not aligned, with the cells',
     'Tests check a handful of boxes.',
     [CORE + 'lib/geohash/string.cpp', CORE + 'lib/geohash/int64.cpp',
      CORE + 'module/geohash/string.cpp', 'src/pyinterp/geohash'],
     [M(CORE + 'lib/geohash/int64.cpp', 'neighbors, grid_properties')],
     'exhaustive enumeration of codes and boxes against brute force over all '
     'cells', NOTE)

prop('C13', 'Binning counts every point once, in the right bin',
     'In one and two dimensional binning, after any sequence of pushes, clears '
     'and merges, the statistics of each bin are those of the points that fall '
     'in it: in simple mode the nearest bin (the outermost one for a point '
     'beyond the axes), in linear mode the surrounding bins with bilinear '
     'weights that sum to one, the points outside the axes being ignored; '
     'undefined points and values are ignored. '
     'Merging two binnings equals pushing all points in one, as does pushing '
     'them by chunks of any size.',
     ['inputs', 'histories'],
     'all sequences of pushes of points of a lattice, merges and clears up to '
     'a depth, on regular and circular axes',
     'Tests push one fixed data set.',
     [INC + 'binning.hpp', INC + 'detail/math/binning.hpp',
      'src/pyinterp/binning.py'],
     [M(INC + 'binning.hpp', 'push_nearest, push_linear')],
     'explicit-state exploration of operation sequences against a list of '
     'weighted points', NOTE)

prop('C14', 'Histograms conserve what was pushed',
     'A streaming histogram and each cell of a two dimensional histogram never '
     'hold more bins than asked, and after any sequence of pushes, resizes and '
     'merges their bins are sorted and conserve the number of points, the sum '
     'of weights, the weighted mean, the minimum and the maximum of what was '
     'pushed; when there are too many, the two closest bins are merged in '
     'their weighted mean. '
     'While the distinct values fit in the bins, every statistic is exact; '
     'quantiles are monotonic and stay between the minimum and the maximum.',
     ['inputs', 'histories'],
     'all sequences of pushes of a small alphabet of values and weights, '
     'merges and resizes, up to a depth, for several bin counts',
     'Tests push one random sample and compare loosely.',
     [INC + 'detail/math/streaming_histogram.hpp',
      INC + 'streaming_histogram.hpp', INC + 'histogram2d.hpp',
      'src/pyinterp/statistics/streaming_histogram.py',
      'src/pyinterp/histogram2d.py'],
     [M(INC + 'detail/math/streaming_histogram.hpp', 'weighted_mean, merge')],
     'explicit-state exploration of operation sequences against a multiset '
     'model', NOTE)

prop('C15', 'Descriptive statistics are exact, in one pass or merged',
     'For any array, any subset of axes, any weights and any undefined '
     'values, count, sum, weights, minimum, maximum, mean, variance, skewness '
     'and kurtosis are those of the definition applied to the defined values '
     '(minimum and maximum being those of the weighted values). '
     'Cutting the data in pieces and adding the statistics of the pieces, in '
     'any order and with empty pieces, gives the same result.',
     ['inputs', 'histories'],
     'all arrays of up to 4 elements over a small alphabet with NaN, all '
     'shapes and axes, all ways of cutting them',
     'Tests use one random array and one split.',
     [INC + 'detail/math/descriptive_statistics.hpp',
      INC + 'descriptive_statistics.hpp',
      'src/pyinterp/statistics/descriptive_descriptive.py'],
     [M(INC + 'detail/math/descriptive_statistics.hpp', 'accumulator')],
     'exhaustive enumeration of arrays, axes and partitions against exact '
     'rational moments', NOTE)

prop('C16', 'Filling only replaces undefined values',
     'Every filling method leaves the defined values as they are and gives '
     'each undefined value that can be filled the value the method defines: '
     'the weighted local regression for loess, the interpolation along rows '
     'then columns for matrices, the interpolation between neighbours for '
     'vectors, and a solution of the Laplace equation within the requested '
     'residual for Gauss-Seidel; interpolated and converged values stay '
     'within the range of the data.',
     ['inputs', 'configurations'],
     'all masks of small grids and vectors, several value fields, all options',
     'Tests compare one grid with recorded values.',
     [INC + 'fill.hpp', CORE + 'module/fill.cpp', 'src/pyinterp/fill.py'],
     [M(INC + 'fill.hpp', 'loess, gauss_seidel, matrix, vector')],
     'exhaustive enumeration of masks against independent definitions', NOTE)

prop('C17', 'RTree queries find exactly the nearest points',
     'After any sequence of packing, insertions, clears and pickling, an RTree '
     'holds exactly the points inserted, a query returns the k points nearest '
     'to the position, nearest first, with their distances and values, and '
     'with the "within" option only if the neighbours surround the position; '
     'the bounds are those of the points.',
     ['inputs', 'histories'],
     'all small sets of points of a lattice, all positions of a finer '
     'lattice, all k and options, all short histories',
     'Tests query one tree with random points.',
     [INC + 'rtree.hpp', INC + 'detail/geometry/rtree.hpp',
      CORE + 'module/rtree.cpp', 'src/pyinterp/rtree.py'],
     [M(INC + 'detail/geometry/rtree.hpp', 'query, query_within')],
     'explicit-state exploration of tree histories against brute force',
     NOTE)

prop('C18', 'RTree interpolators compute their definition',
     'Inverse distance, radial basis function, window function and kriging '
     'interpolation of scattered points use, among the k nearest, the '
     'neighbours found within the radius, return what their definition gives on these neighbours, return '
     'the number of neighbours used, and are undefined without neighbours; the '
     'exact methods return the value of a data point at that point. With the '
     '"within" option the result is undefined unless the neighbours surround '
     'the position: the k nearest for inverse distance and window functions, '
     'those within the radius for the other methods.',
     ['inputs', 'configurations'],
     'all kernels, windows, covariances and drifts on small sets of points and '
     'all positions of a lattice',
     'Tests check a few kernels against a smooth function.',
     [INC + 'rtree.hpp', INC + 'detail/math/radial_basis_functions.hpp',
      INC + 'detail/math/kriging.hpp',
      INC + 'detail/math/window_functions.hpp'],
     [M(INC + 'detail/geometry/rtree.hpp', 'interpolators')],
     'exhaustive enumeration of configurations against direct linear algebra',
     NOTE)

prop('C19', 'Geodetic coordinates and distances',
     'Conversion between geodetic and Cartesian coordinates is invertible for '
     'every position and spheroid of a flattening up to 1/100, and satisfies '
     'the definition of the ellipsoid; transforming between spheroids keeps '
     'the place. Longitudes are normalized to [min, min + 360). The derived '
     'parameters of a spheroid satisfy their definitions; distances are symmetric, zero only for equal points, and '
     'do not depend on the turn of the longitudes (from -180 to 360) or on '
     'the number of points given at once.',
     ['inputs', 'configurations'],
     'a lattice of positions with the poles, the date line and altitudes from '
     'below the surface to orbit, for several spheroids',
     'Tests check a few positions on one spheroid.',
     [INC + 'detail/geodetic/coordinates.hpp',
      INC + 'detail/geodetic/spheroid.hpp', INC + 'geodetic/coordinates.hpp',
      INC + 'geodetic/algorithm.hpp', CORE + 'module/geodetic.cpp'],
     [M(INC + 'detail/geodetic/coordinates.hpp', 'ecef_to_lla')],
     'exhaustive enumeration of a lattice of positions against definitions',
     NOTE)

prop('C20', 'Geometries on the sphere behave as sets of points',
     'Boxes, polygons and multi-polygons of moderate size (edges of less than '
     '170 degrees, none along the equator) answer "covered by", "intersects", '
     '"disjoint", "touches" and "equals" as the sets of points they enclose, '
     'consistently with each other; union, intersection and difference enclose '
     'the corresponding sets; envelope, centroid, area and length satisfy '
     'their definition. Text, GeoJSON and pickle forms restore '
     'an equal geometry.',
     ['inputs', 'histories'],
     'all rectangles and triangles of a small lattice, all pairs of them and '
     'all points of a finer lattice',
     'Tests check a few hand-made pairs.',
     [CORE + 'lib/geodetic', INC + 'geodetic/polygon.hpp',
      INC + 'geodetic/box.hpp', INC + 'geodetic/multipolygon.hpp'],
     [M(CORE + 'lib/geodetic/polygon.cpp', 'predicates and set operations')],
     'exhaustive enumeration of pairs of geometries against point sets', NOTE)

prop('C21', 'Tracks cross where their polylines do',
     'Two tracks have a crossover exactly if their polylines intersect: each '
     'crossing is listed once and lies on both tracks whatever the date line '
     'does to their longitudes, and the nearest indexes given are those of '
     'the track points closest to it, or none when they are farther than the '
     'limit. '
     'The length of a line string, the distance along it, its closest point, '
     'simplification, text forms, pickling and appends agree with its list of '
     'points.',
     ['inputs'],
     'all pairs of short polylines of a lattice, also shifted across the date '
     'line and in both conventions of longitude',
     'Tests check two real passes.',
     [CORE + 'lib/geodetic/crossover.cpp', CORE + 'lib/geodetic/line_string.cpp',
      INC + 'geodetic/crossover.hpp', INC + 'geodetic/line_string.hpp',
      INC + 'detail/geometry/crossover.hpp'],
     [M(CORE + 'lib/geodetic/crossover.cpp', 'search, nearest')],
     'exhaustive enumeration of pairs of polylines against exact segment '
     'intersection', NOTE)

prop('C22', 'Nearest neighbours and interpolation on the ellipsoid',
     'The spatial index over longitudes and latitudes returns, for any '
     'history of insertions, packing, clears and pickling and any position, '
     'the k nearest points by their distance on the ellipsoid, nearest first, '
     'with their distances and values, whatever the convention of the '
     'longitudes and the side of the date line; with the "within" option only '
     'if the smallest box of their longitudes and latitudes covers the '
     'position. '
     'Inverse distance, radial basis and window function interpolation return '
     'what their definition gives on these neighbours.',
     ['inputs', 'histories', 'configurations'],
     'all small sets of positions of a lattice, all positions of a finer '
     'lattice, all k, kernels and options, trees of several levels',
     'Tests query one tree.',
     [CORE + 'lib/geodetic/rtree.cpp', INC + 'geodetic/rtree.hpp',
      INC + 'detail/geometry/rtree.hpp', CORE + 'module/geodetic.cpp',
      'src/pyinterp/geodetic/__init__.py'],
     [M(CORE + 'lib/geodetic/rtree.cpp', 'query, interpolators')],
     'explicit-state exploration of tree histories against a linear search '
     'by Vincenty distances', NOTE)

prop('C23', 'Pickling and copying give an equal, independent object',
     'Every object restored from its pickle, whatever the protocol, is of the '
     'same class as the original, equal to it, and answers every query in the '
     'same way; it shares no state with it: operations on one are never '
     'visible through the other. The same holds for deep copies, for the '
     'copy() methods and for the shallow copies, except that the shallow '
     'copies of the Cartesian spatial index, of the grids and of the wrappers '
     'written in Python may share their content. A truncated state is '
     'refused, unless it is that of a previous version.',
     ['histories', 'configurations'],
     'every class of the library, in every state reached by short sequences of '
     'operations, followed by every operation on the original or the copy',
     'Tests pickle one instance of some classes and compare one attribute.',
     [CORE + 'module', 'src/pyinterp/period.py', 'src/pyinterp/rtree.py',
      'src/pyinterp/_geohash.py', INC + 'binning.hpp', INC + 'grid.hpp'],
     [M(CORE + 'module', 'py::pickle, __copy__')],
     'explicit-state exploration of operation sequences on original and copy',
     NOTE)

prop('C24', 'Results do not depend on the memory layout of the inputs',
     'For every function that takes arrays, inputs that hold the same values '
     'in a C, Fortran, strided, reversed, read-only or byte-offset layout give '
     'the same result, and the inputs that are not documented as outputs are '
     'left unchanged.',
     ['inputs', 'configurations'],
     'every array argument of every function, every layout, one argument and '
     'all arguments at a time',
     'Tests always pass contiguous arrays.',
     [CORE + 'module', INC + 'rtree.hpp', INC + 'axis.hpp', INC + 'grid.hpp'],
     [M(INC + 'detail/broadcast.hpp', 'array checks')],
     'exhaustive enumeration of layouts per argument, differential against '
     'contiguous arrays', NOTE)

prop('C25', 'Orbits, passes and swaths',
     'An ephemeris that covers a repeat cycle, whatever its first point, '
     'sampling, unit of time, longitude convention or spheroid, gives an orbit '
     'that follows the ephemeris, with a constant step along the track, '
     'starting at the southernmost latitude, made of two passes per '
     'revolution, ascending then descending; the ephemeris is not modified. '
     'The durations of the passes add up to the cycle; absolute pass numbers '
     'and (cycle, pass) pairs are in bijection for every integer; iterating '
     'visits the passes in order, without gap or overlap in time, from the '
     'first to the last date included. The passes split the points of the '
     'orbit, a box keeps exactly the points it covers, the equator coordinates '
     'are those of the crossing or undefined when there is none. A swath has '
     'the requested number of pixels, symmetric, perpendicular to the track, '
     'negative distances on the left, at the requested distances from the '
     'nadir (rotation around the direction of motion); the mask, the central '
     'pixel and the nadir data agree with them, for passes of two points or '
     'more; a single point is refused.',
     ['inputs', 'configurations', 'histories'],
     '14 to 72 circular repeat orbits, every pass in 7 boxes; 60 to 300 '
     'handmade orbits with every first date, duration and pass number of a '
     'lattice; 240 to 1200 short tracks with 24 to 60 swaths each',
     'Tests check one ephemeris: a number of passes and that nothing fails.',
     ['src/pyinterp/orbit.py', INC + 'geodetic/swath.hpp',
      INC + 'detail/math/orbit.hpp'],
     [M('src/pyinterp/orbit.py', 'Orbit, calculate_pass, calculate_swath')],
     'exhaustive enumeration of passes and intervals against spherical '
     'geometry', NOTE)

prop('C26', 'Grids built from labelled arrays',
     'A grid or regular grid interpolator built from a labelled array (xarray) '
     'of 2 to 4 dimensions gives, at positions given by names, the values of '
     'the array interpolated along the dimensions of these names: whatever the '
     'order of the dimensions, of the coordinates and of the mapping, the '
     'direction of the axes (flipped or not) and the coordinates without '
     'dimension. Longitudes and latitudes are recognized by every CF unit, '
     'longitudes are then angles; a time or a duration is the Z axis, and '
     'positions in another unit are converted; the other dimensions are Z then '
     'U in their order, and each method applies to its own axis. All methods '
     'give what the grid built by hand gives; pickles too. The array is left '
     'unchanged; names that are missing or unknown, arrays without the units '
     'or of another number of dimensions are refused.',
     ['inputs', 'configurations'],
     'all orders of the dimensions and coordinates of arrays of 2 to 4 '
     'dimensions, all directions, units, times, options and methods',
     'Tests read one file per dimension and compare a few positions.',
     ['src/pyinterp/backends/xarray.py', 'src/pyinterp/cf.py',
      'src/pyinterp/grid.py', 'src/pyinterp/interpolator'],
     [M('src/pyinterp/backends/xarray.py', 'Grid2D, Grid3D, Grid4D, '
        'RegularGridInterpolator')],
     'exhaustive enumeration of labelled arrays against interpolation by '
     'names', NOTE)
