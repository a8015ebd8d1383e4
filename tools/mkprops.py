"""Writes properties.jsonl (kept as a program only to make editing bearable)."""
import json, os
G='geotiepoints/'
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    a={"files":[G+f if '/' not in f else f for f in files],"mechanism":[{"name":n,"where":G+w} for n,w in mech],"hook_needed":None}
    if observe: a["observe_at"]=observe
    if state: a["state"]=[{"name":n,"meaning":m,"where":G+w} for n,m,w in state]
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("G01","Geographic to Cartesian conversion and back is the identity",
 "Converting any longitude/latitude to Cartesian coordinates gives the point of the sphere of the given (default: Earth's) radius in that direction: x towards (0E, 0N), y towards (90E, 0N), z towards the north pole. Converting that point back with the same radius returns the same latitude and, away from the poles, the same longitude. This holds for the Cartesian conversions of every interpolation family (generic, MODIS and VII) and with and without the low-latitude formula.",
 ["inputs"],"every longitude in (-180, 180] and latitude in [-90, 90]; radius argument; every threshold in (0, 1]; low_lat_z on and off",
 "The tests convert a handful of positions; the statement is about every point of the sphere, and the errors sit at regime boundaries (0.8 R, the antimeridian, quadrants, the southern hemisphere).",
 ["geointerpolator.py","_modis_utils.pyx","viiinterpolator.py"],
 [("lonlat2xyz / xyz2lonlat","geointerpolator.py"),("lonlat2xyz / xyz2lonlat","_modis_utils.pyx"),("_lonlat2xyz / _xyz2lonlat","viiinterpolator.py")],
 ["geotiepoints.geointerpolator.lonlat2xyz","geotiepoints.geointerpolator.xyz2lonlat","longitudes/latitudes returned by every geographic interpolator"])

p("G02","Any Cartesian position near the sphere decodes to its true direction",
 "For every Cartesian position other than the origin and not outside the sphere, including interpolated positions below the surface, the decoded longitude is the direction of (x, y) in [-180, 180] (the antimeridian is +-180, never 0), it is a finite number on the polar axis, and the decoded latitude is finite, in [-90, 90] and on the hemisphere of z. With the low-latitude formula on, the latitude is arcsin(z/R) where |z| is below the threshold (0.8 R by default); with it off or |z| above the threshold, it is the one whose distance from the polar axis is that of (x, y).",
 ["inputs"],"every (x, y, z) inside or on the sphere, except the origin; the z threshold regimes",
 "The antimeridian and the polar axis are measure-zero sets that sampled tests never hit, and interpolated points are never exactly on the sphere.",
 ["geointerpolator.py","_modis_utils.pyx","viiinterpolator.py"],
 [("xyz2lonlat","geointerpolator.py"),("xyz2lonlat","_modis_utils.pyx"),("_xyz2lonlat","viiinterpolator.py")],
 ["geotiepoints.geointerpolator.xyz2lonlat"])

p("G03","Geographic interpolators interpolate positions on the sphere",
 "GeoInterpolator, GeoGridInterpolator and GeoSplineInterpolator give, at every fine position, the longitude and latitude of the Cartesian position whose x, y and z are what the plain interpolator of the same kind gives, with the same grids, options and calls (border filling included), for the x, y and z of the tie points. So swaths across the antimeridian or a pole need no special care, and the result depends only on where the tie points are: not on whole turns in their longitudes, nor on whether they are given as longitude and latitude arrays or as a swath definition object.",
 ["inputs"],"every position of every tie point; some 45 combinations of class, way of calling, grids, options and form of the tie points",
 "Tests interpolate one small swath; a shortcut in degrees, a mixed-up coordinate or a special case for some positions needs a swath it applies to.",
 ["geointerpolator.py","interpolator.py"],
 [("GeoInterpolator","geointerpolator.py"),("_work_with_lonlats, to_xyz","geointerpolator.py")],
 ["longitudes and latitudes returned by the geographic interpolators"])

p("I01","Fixed-geometry helpers put every pixel at its position on the sensor grid",
 "The 5 km to 1 km MODIS helpers take tie points to lie at 1 km row and column 2, 7, 12, ... of a 1354 pixel wide swath; the 1 km to 500 m (250 m) helpers put fine row r at coarse row (r - 0.5)/2 ((r - 1.5)/4) and fine column c at coarse column c/2 (c/4); the 20 km to 1 km AVHRR helper takes tie points at columns 0, 4, 24, ..., 2044, 2047 of 2048. Tie point data whose coordinates vary linearly along the track within each scan and linearly across the track are therefore reproduced at each fine pixel's own position, including the rows and columns outside the outermost tie points, and each output has the full fine shape.",
 ["inputs"],"every value of the tie data of that form (independent offset and gradient per row and scan), 1 to 3 scans",
 "The tests compare one granule against stored reference output with a tolerance; a half-pixel or one-row misplacement of an edge or of one scan stays below it or is baked into it.",
 ["__init__.py","interpolator.py","geointerpolator.py"],
 [("row/column indices of modis5kmto1km, modis1kmto500m, modis1kmto250m, metop20kmto1km","__init__.py"),("generic_modis5kmto1km","interpolator.py"),("fill_borders, _fill_row_borders, _extrapolate_rows, _extrapolate_cols","interpolator.py")],
 ["return values of geotiepoints.modis5kmto1km, modis1kmto500m, modis1kmto250m, metop20kmto1km and geotiepoints.interpolator.generic_modis5kmto1km"])

p("I02","Scans do not influence each other",
 "In every scan-wise interpolation (the 5 km to 1 km, 1 km to 500 m and 1 km to 250 m helpers, the satellite-zenith-angle and the simple MODIS interpolation) the output rows of a scan depend only on the tie points of that same scan. So interpolating any sequence of scans is the concatenation of interpolating each one, whatever the other scans contain.",
 ["inputs","histories"],"every content of the other scans; 2 to 3 scans, every scan position",
 "Tests use one granule; a leak from a neighbouring scan (state kept between scans, a row taken from the next scan) changes values by less than their tolerance or needs scans with unrelated contents.",
 ["__init__.py","interpolator.py","_modis_interpolator.pyx","_simple_modis_interpolator.pyx"],
 [("chunk_size handling of _fill_row_borders","interpolator.py"),("scan loop of _interpolate_lons_lats","_modis_interpolator.pyx"),("scan loop of interpolate_geolocation_cartesian","_simple_modis_interpolator.pyx")],
 ["return values of the scan-wise helpers"])

p("I03","Border filling extrapolates each chunk linearly to its first and last pixel",
 "Filling the borders of an interpolator adds, for each chunk along the track (each chunk_size fine rows and the two or more tie rows whose positions, in units of the tie row spacing, fall in them), a first and a last tie row at the chunk's first and last fine row, and across the track a first and last tie column at the outermost fine columns where there is no tie column already; their values are the linear extrapolation of the two nearest tie rows (columns) of that same chunk. Existing tie points and their positions stay as they are and in order, every data array is treated alike, and an unknown dimension name is rejected.",
 ["inputs","configurations"],"every tie value and every (ordered) symbolic tie and fine positions; 1 or 2 chunks, 2 to 4 tie rows per chunk, 1 to 3 data arrays, every combination of present/missing border columns and of dimensions filled; two or more tie rows in every chunk, none of them itself the chunk's first or last fine row",
 "Tests fill the borders of a few fixed index vectors with integer data; positions are free inputs.",
 ["interpolator.py"],[("fill_borders and helpers","interpolator.py"),("_linear_extrapolate","interpolator.py")],
 ["tie_data, row_indices, col_indices of Interpolator after fill_borders"])

p("I04","Tie points pass through unchanged and arrays do not mix",
 "At fine positions that coincide with tie points of floating-point data every interpolator (generic, geographic, one-dimensional, grid, spline) returns the tie point's own value (for geographic data its own longitude and latitude). Each of several data arrays is interpolated by itself, in the order given, and with first order in a dimension the result between two neighbouring tie points (of the same chunk) is their linear blend.",
 ["inputs"],"every tie value; tie grids up to 6 by 6, interpolation orders 1 to 3, 1 to 3 arrays",
 "Tests check a few values of smooth fields, in which swapped arrays or orders change little.",
 ["interpolator.py","geointerpolator.py"],[("_interp, _interp1d","interpolator.py"),("SingleGridInterpolator, SingleSplineInterpolator","interpolator.py"),("AbstractMultipleInterpolator.interpolate","interpolator.py"),("GeoInterpolator, _work_with_lonlats","geointerpolator.py")],
 ["interpolate() of Interpolator, GeoInterpolator, MultipleGridInterpolator, MultipleSplineInterpolator, GeoGridInterpolator, GeoSplineInterpolator"])

p("I05","Lazy interpolation equals eager interpolation for every chunking",
 "For the grid and spline interpolators (single, multiple and geographic), interpolating lazily with any chunk sizes yields an array of the full fine shape with the requested chunks and the data's type, whose every element is what eager interpolation to the same fine points gives. This holds for any fine points, not only 0, 1, 2, ..., and with any interpolator options.",
 ["inputs","configurations"],"every fine position (symbolic), every interpolation function (uninterpreted), fine grids up to 5 by 5, every chunking of them",
 "Tests use integer fine points that happen to equal the pixel indices, and one chunk size.",
 ["interpolator.py","geointerpolator.py"],[("interpolate_dask, _enumerate_chunk_slices, interpolate_numpy","interpolator.py"),("GeoKlass.interpolate","geointerpolator.py")],
 ["interpolate(fine_points, chunks=...) of the grid and spline interpolators"])

p("I06","Different lazy interpolations never share a name",
 "Two lazy interpolations that can give different results - different interpolator kind, construction options, tie points, tie values, fine points, chunks or call options - have different dask names, so that combining them in one graph never substitutes one for the other. Equal interpolations have equal names.",
 ["inputs","histories"],"every pair of interpolations that differ in any one of those, with symbolic tie values, positions and options; dask's tokenize taken to be injective",
 "A test would have to guess which ingredient is missing from the name; today they compute results one at a time.",
 ["interpolator.py"],[("token of interpolate_dask","interpolator.py")],
 ["name of the dask array returned by interpolate(..., chunks=...)"])

p("I07","Interpolation reproduces polynomials up to its order exactly",
 "Where the tie data are a polynomial in row and column position whose degree in each dimension is at most the interpolation order of that dimension (for the Interpolator class kx_ along the rows and ky_ along the columns, 1 by default; for spline interpolators kx and ky, 3 by default; for grid interpolators 1 for linear, 3 for cubic), every interpolated element between the outermost tie points is the value of that polynomial at its own fine row and column position. Beyond the outermost tie points this holds for degree 1 after border filling and for linear grid interpolation with extrapolation switched on.",
 ["inputs"],"every coefficient of the polynomials; some 90 combinations of interpolator class, way of calling, irregular tie positions, fine positions and options",
 "Tests use one or two orders on regular positions; a swapped or ignored order or a position taken from the wrong vector agrees with them there.",
 ["interpolator.py"],
 [("Interpolator._interp, _interp1d","interpolator.py"),("SingleGridInterpolator, SingleSplineInterpolator and their multiple forms","interpolator.py"),("fill_borders","interpolator.py")],
 ["arrays returned by interpolate, interpolate_to_shape, interpolate_slices"])

p("M01","Satellite-zenith MODIS interpolation blends the four ties of each pixel's cell",
 "In the satellite-zenith-angle based MODIS interpolation every output position is, in Cartesian space, a combination of exactly the four tie points of the tie cell the pixel belongs to (the nearest cell of its scan for pixels outside the outermost tie points), with track weights given by the pixel's position in the cell and scan weights whose sum is one. Where no viewing-angle correction applies (nadir) the weights are the bilinear ones at the pixel's true position (tie points at column 2 + 5i and row 2 + 5j of the 1 km grid for 5 km data; fine rows centred on the coarse pixel and fine columns starting at it), so a tie point's own pixel reproduces the tie point.",
 ["inputs","configurations"],"every tie longitude/latitude/zenith angle; all five resolution pairs, 270 and 271 columns, float32 and float64, 1 and 2 scans",
 "The tests bound the error of one granule by tens of metres; a pixel that uses the neighbouring cell, or an edge column that is never written, passes.",
 ["_modis_interpolator.pyx","modisinterpolator.py"],
 [("_get_coords_1km, _get_coords_5km","_modis_interpolator.pyx"),("_expand_tiepoint_array_*","_modis_interpolator.pyx"),("_compute_fine_xyz","_modis_interpolator.pyx")],
 ["modis_1km_to_250m, modis_1km_to_500m, modis_5km_to_1km, modis_5km_to_500m, modis_5km_to_250m of geotiepoints.modisinterpolator"])

p("M02","The viewing-angle correction follows the CVIIRS expansion/alignment formula",
 "The scan coordinate of a pixel at relative position (s, t) in a tie cell is s + s(1-s) C_exp + t(1-t) C_align, where C_exp and C_align are the expansion and alignment coefficients of the Compact VIIRS format computed from the zenith angles of the cell's two upper tie points, with the Earth radius 6370.997 km, the altitude 709 km and the scan width of the tie resolution. The same angles always give the same correction, whatever cell, scan or resolution pair they appear in.",
 ["inputs"],"every pair of zenith angles in [0, 80] degrees, on every cell position class (first, interior, last; with 270 and 271 columns)",
 "The correction moves pixels by tens of metres, about the tolerance of the tests.",
 ["_modis_interpolator.pyx"],[("_compute_expansion_alignment, _compute_phi, _compute_theta, _compute_zeta","_modis_interpolator.pyx"),("_calculate_atrack_ascan","_modis_interpolator.pyx")],
 ["longitudes/latitudes of geotiepoints.modisinterpolator"])

p("M03","Every valid zenith angle gives finite MODIS weights and positions",
 "For zenith angles from 0 to 80 degrees - including zero at both tie points, equal angles, and angles that change by any amount between neighbouring tie points - no step of the satellite-zenith-angle interpolation divides by zero or leaves the domain of a square root or inverse sine, so finite tie points give finite weights and finite Cartesian positions.",
 ["inputs"],"every pair of zenith angles in [0, 80] degrees",
 "The two zero-denominator cases are isolated points of the input space; the test granules do not contain them.",
 ["_modis_interpolator.pyx"],[("_compute_expansion_alignment","_modis_interpolator.pyx")],
 ["longitudes/latitudes of geotiepoints.modisinterpolator"])

p("M04","Simple MODIS interpolation is bilinear in Cartesian space within each scan",
 "The simple (no zenith angle) 1 km to 500 m and 250 m interpolation gives, in Cartesian space, the bilinear interpolation of the scan's tie points at coarse row (r - 0.5)/2 or (r - 1.5)/4 and coarse column c/2 or c/4. Rows before the first and after the last tie row of the scan and columns right of the last tie column are the linear continuation of the neighbouring interior values.",
 ["inputs"],"every tie longitude/latitude; 1 and 2 scans; widths 2 to 6 with all ties symbolic; float32 and float64",
 "The tests compare with stored results of one granule within a tolerance.",
 ["_simple_modis_interpolator.pyx","simple_modis_interpolator.py"],
 [("_compute_yx_coordinate_arrays","_simple_modis_interpolator.pyx"),("_extrapolate_xyz_rightmost_columns, _interpolate_xyz_250, _interpolate_xyz_500","_simple_modis_interpolator.pyx")],
 ["modis_1km_to_250m and modis_1km_to_500m of geotiepoints.simple_modis_interpolator"])

p("M05","Lazy MODIS interpolation equals eager interpolation for every chunking",
 "MODIS interpolation of dask arrays, whatever their row and column chunks and even if the chunks differ between the inputs, hands the interpolation pieces that consist of whole scans over the full width, in order and without loss or repetition, with each piece containing the same rows of every input. The result's declared shape and chunks match what the pieces compute and equal eager interpolation; DataArrays come back as DataArrays with the same dimension names, for dask and for numpy content. Data that do not consist of whole scans are rejected.",
 ["inputs","configurations"],"every (symbolic) row chunking of up to 4 scans into up to 3 chunks, column chunkings into up to 2 chunks, differing chunkings of the inputs, all resolution pairs, numpy / dask / DataArray inputs",
 "Tests use three chunkings; the number of chunkings is exponential and errors need chunks that are not multiples of a scan.",
 ["_modis_utils.pyx","modisinterpolator.py","simple_modis_interpolator.py"],
 [("scanline_mapblocks, _rechunk_dask_arrays_if_needed, _call_map_blocks_interp","_modis_utils.pyx")],
 ["return values of geotiepoints.modisinterpolator and geotiepoints.simple_modis_interpolator functions for dask / xarray input"])

p("M06","Compiled interpolation never touches memory outside its arrays",
 "With any shapes of the input arrays the compiled MODIS and multilinear interpolators either raise an exception or read and write only elements inside their arrays, and every element of the arrays they return has been written. Wrong shapes (differing shapes, incomplete scans, wrong widths, dimension mismatches, too small grids) are rejected with an exception.",
 ["inputs"],"every (symbolic) array shape for the argument checks; kernels at every accepted width class with whole-scan row counts",
 "The compiled code runs without bounds checks; an out-of-bounds read usually returns plausible memory and no test notices.",
 ["_modis_interpolator.pyx","_simple_modis_interpolator.pyx","multilinear_cython.pyx"],
 [("shape checks of MODISInterpolator.interpolate","_modis_interpolator.pyx"),("shape checks of interpolate_geolocation_cartesian","_simple_modis_interpolator.pyx"),("shape checks of multilinear_interpolation","multilinear_cython.pyx")],
 ["exceptions and return values of geotiepoints.modisinterpolator, simple_modis_interpolator, multilinear_cython"])

p("L01","Multilinear interpolation is the multilinear interpolant in 1 to 4 dimensions",
 "Inside the grid the multilinear interpolator returns, for each point, the multilinear blend of the values at the corners of the grid cell containing it, the values being numbered with the last dimension varying fastest; outside the grid (up to 2^31 cells away) it continues the outermost cell's blend. Each value row and each point is computed independently of the others.",
 ["inputs"],"every real grid boundary (smin < smax), value and evaluation point, inside and outside of the grid; dimensions 1 to 4, orders 2 and 3, several value rows and points",
 "The tests evaluate one smooth function at random points with a loose tolerance; index mix-ups between dimensions hide in symmetric grids.",
 ["multilinear.py","multilinear_cython.pyx"],[("multilinear_interpolation_1d..4d","multilinear_cython.pyx"),("MultilinearInterpolator","multilinear.py")],
 ["MultilinearInterpolator.interpolate / __call__"])

p("L02","Multilinear cell selection stays inside the grid for every point",
 "For every evaluation point, however far outside the grid, the cell used by the multilinear interpolator exists: every value it reads is a value of the grid. Grids with fewer than two points in a dimension, value arrays of another length and points of another dimension are rejected.",
 ["inputs"],"every evaluation point whose cell index fits in 32 bits, every order of each dimension from 2 to 1000 (symbolic), dimensions 1 to 4",
 "Bounds checking is off in the compiled code, and tests evaluate points inside the grid.",
 ["multilinear_cython.pyx"],[("q_k computation","multilinear_cython.pyx"),("shape checks","multilinear_cython.pyx")],
 ["MultilinearInterpolator.interpolate"])

p("L03","The grid of a multilinear interpolator lists its nodes in value order",
 "The grid attribute of a multilinear interpolator has one column per grid node holding the node's coordinates, in the order in which values are given (last dimension fastest), for 1 to 4 dimensions. Evaluating the interpolator on its own grid returns the values unchanged.",
 ["inputs"],"every grid boundary and value; dimensions 1 to 4, orders 2 to 4",
 "Tests use values computed from the grid itself with equal orders, where a permuted grid is self-consistent.",
 ["multilinear.py"],[("mlinspace, grid","multilinear.py")],
 ["MultilinearInterpolator.grid"])

p("V01","VII pixels are placed between their own tie points, scan by scan",
 "VII interpolation of n scans of t tie rows by m tie columns with factor f gives n(t-1)f rows and (m-1)f columns, in which pixel (k f + i, l f + j) of a scan is the bilinear blend, with weights i/f and j/f, of tie points (k, l), (k+1, l), (k, l+1), (k+1, l+1) of that scan. The first pixel of each cell therefore equals the tie point, no pixel blends tie points of two scans, several arrays are handled independently and in order, dimension names are kept, and wrong tie row counts or inconsistent arrays raise ValueError.",
 ["inputs","configurations"],"every tie value; 1 to 3 scans, 2 to 4 tie rows per scan, 2 to 4 tie columns, factors 1 to 8",
 "Tests use one geometry (and smooth data) in which the blending of neighbouring scans is invisible.",
 ["viiinterpolator.py"],[("tie_points_interpolation","viiinterpolator.py")],
 ["tie_points_interpolation"])

p("V02","VII geolocation is interpolated on the sphere whenever degrees would be wrong",
 "VII geolocation is interpolated directly in degrees only if every |latitude| is at most the latitude threshold (60 by default) and longitudes span at most 180 degrees, and otherwise in Cartesian coordinates, so that swaths across the antimeridian take the short way round and swaths over the poles are exact. Both ways reproduce longitude and latitude at pixels that coincide with tie points, and differing shapes raise ValueError.",
 ["inputs"],"every longitude/latitude of the tie points, symbolic thresholds; 1 and 2 scans, 2 by 2 and 2 by 3 tie points per scan",
 "The regime switch depends on extremes of the whole array, including negative latitudes and spans around 180 degrees, of which tests sample a few.",
 ["viiinterpolator.py"],[("tie_points_geo_interpolation, _lonlat2xyz, _xyz2lonlat","viiinterpolator.py")],
 ["tie_points_geo_interpolation"])

p("S01","Splitting over several cores does not change the result",
 "A swath of whole scans is split for parallel processing only at scan boundaries, into non-empty parts that together are the swath in order. Running the 1 km to 500 m and 1 km to 250 m helpers with any number of cores gives the result of a single core, with the parts put together in swath order.",
 ["inputs","schedules"],"every (symbolic) number of scans and scan length for the splits (up to 8 scans and 8 cores); every completion order; 2 to 4 scans through the helpers",
 "Tests run the splits for a few sizes and never use more than one core with several scans per part.",
 ["__init__.py"],[("get_scene_splits","__init__.py"),("_multi","__init__.py")],
 ["get_scene_splits, modis1kmto500m(cores=n), modis1kmto250m(cores=n)"])

p("S02","Interpolation leaves its inputs unchanged and has no memory",
 "No public interpolation function or class writes to the arrays, index vectors or lists it is given, so the caller's data are the same after construction, border filling and interpolation as before. What an interpolation returns depends only on what it is given: repeating it, also after interpolating other data, gives the same result, and it is the one a fresh process gives.",
 ["inputs","histories"],"every input value of the harness of each public function; construct, fill, interpolate, interpolate other data of the same shape, interpolate the first again",
 "Tests do not look at their inputs afterwards; in-place changes only show when an array is used twice.",
 ["__init__.py","interpolator.py","geointerpolator.py","_modis_interpolator.pyx","_simple_modis_interpolator.pyx","multilinear.py","viiinterpolator.py","basic_interpolator.py"],
 [("array handling of all interpolators","interpolator.py")],
 ["input arrays after any public call"])

p("B01","BasicSatelliteInterpolator blends linearly between tie rows and columns",
 "The basic satellite interpolator returns (latitude, longitude) arrays of (last row index + 1) by (last column index + 1) elements in which every element between tie rows and columns is the bilinear blend of the four surrounding tie points at the true index distances, and every tie point's own element is its value. Latitude comes from the latitude data and longitude from the longitude data.",
 ["inputs"],"every tie value; several irregular row and column index vectors, most of them starting at 0",
 "It has no test that reaches the interpolation.",
 ["basic_interpolator.py"],[("_pandas_interp, _interp_axis","basic_interpolator.py")],
 ["BasicSatelliteInterpolator.interpolate"])

p("F01","Interpolated positions are independent of floating-point rounding",
 "The floating-point result of every interpolation, in the precision of its input, differs from the exact real-number result by no more than the rounding expected of that precision (metres for float32, micrometres for float64).",
 ["inputs"],"every tie point, float32 and float64","Rounding errors near the poles and near 0.8 R depend on the exact values.",
 ["geointerpolator.py","_modis_utils.pyx"],[("64-bit decoding in xyz2lonlat","_modis_utils.pyx")],["all interpolators"])

p("F02","MODIS interpolation agrees with the true MODIS geolocation",
 "Interpolating the tie points of a real MODIS granule agrees with the geolocation of its full-resolution products within a few tens of metres.",
 ["inputs"],"every MODIS granule","The test data contain one granule per resolution.",
 ["modisinterpolator.py","simple_modis_interpolator.py"],[("modis_*_to_*","modisinterpolator.py")],["all MODIS interpolators"])

here=os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here,'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
