"""Writes properties.jsonl (kept as a script so that long texts stay readable)."""
import json
P = []
def p(id, title, statement, over, text, why, files, mech, **k):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], **k}})
G = "geokit/src/"
p("C01", "Angular coordinates never leave their documented ranges",
  "Whatever finite number it is built from, and whatever operation produces it, a longitude is in [-pi, pi], a latitude in [-pi/2, pi/2], an azimuth in (-pi, pi], and a normalized angle or longitude in (-pi, pi]. This holds in floating point, rounding included.",
  ["inputs"], "for every finite f64 angle (any magnitude), every pair of coordinates and every arithmetic operator on them",
  "A test samples a few angles; the failures sit in the last bits next to odd multiples of pi and at large magnitudes.",
  [G+"cs/geodetic.rs", G+"cs/azimuth.rs", G+"quantities/angle.rs", G+"math/fp.rs"],
  [("Lon::new / Angle::wrapped", G+"quantities/angle.rs"), ("Lat::new clamping", G+"cs/geodetic.rs"), ("Azimuth::new / Angle::normalized", G+"cs/azimuth.rs"), ("remainder", G+"math/fp.rs")])
p("C02", "Arithmetic on angles is arithmetic modulo a full turn",
  "Wrapping, normalizing, adding, subtracting, scaling and differencing longitudes, azimuths and angles gives the mathematically expected angle up to whole turns, and differences are the smallest signed rotation from one to the other. Latitude arithmetic is ordinary arithmetic clamped at the poles. An angle already in range is kept exactly.",
  ["inputs"], "for all angles, all pairs of angular coordinates and all operators (+, -, *, /, unary minus and the assigning forms)",
  "An off-by-one-turn or wrong-branch error only shows for operand pairs in particular sectors of the circle.",
  [G+"cs/geodetic.rs", G+"cs/azimuth.rs", G+"quantities/angle.rs"],
  [("Angle::wrapped, normalized, diff_to", G+"quantities/angle.rs"), ("operators of Lon and Lat", G+"cs/geodetic.rs"), ("operators of Azimuth", G+"cs/azimuth.rs")])
p("C03", "Unit conversions are linear, exact in definition and reversible",
  "A value given in any angle or length unit converts to radians or metres by the unit's defining factor (degree, grad, arc second; metre, international foot, US survey foot), and reading it back in the same unit returns the value given. Arithmetic, comparison, absolute value and trigonometric functions of angles and lengths act on the quantity independently of the unit it was expressed in.",
  ["inputs"], "for all values and all pairs of units",
  "Tests pin a few values in one or two units; a wrong ratio or a conversion applied in the wrong direction in one operator is invisible to them.",
  [G+"quantities/angle.rs", G+"quantities/length.rs", G+"quantities/scale.rs", G+"units/angle.rs", G+"units/length.rs"],
  [("Angle::new, Angle::val", G+"quantities/angle.rs"), ("Length::new, Length::val", G+"quantities/length.rs"), ("unit constants", G+"units")])
p("C04", "Axis normalization follows the declared order, direction and unit",
  "For every system of axes, normalizing user coordinates reads each coordinate from its declared position, direction and unit, and denormalizing writes them back the same way, so that denormalizing after normalizing returns the coordinates (and the reverse returns the normalized point, with height or altitude zero when the system is 2D). Coordinates the system does not have are neither read nor written, the reported dimension is the number of coordinates, and tolerances are denormalized like coordinates but stay positive.",
  ["inputs", "configurations"], "for all axes variants, all unit combinations, all coordinates",
  "The product of axes variants, units and directions is not covered by tests, and swaps are invisible for symmetrical samples.",
  [G+"cs/geodetic.rs", G+"cs/cartesian/geocentric.rs", G+"cs/cartesian/projected.rs"],
  [("GeodeticAxes normalize/denormalize/denormalize_tol", G+"cs/geodetic.rs"), ("GeocentricAxes", G+"cs/cartesian/geocentric.rs"), ("ProjectedAxes", G+"cs/cartesian/projected.rs")])
p("C05", "An ellipsoid is valid and its derived parameters are consistent",
  "Construction refuses parameters that do not describe an oblate ellipsoid or a sphere, and for every accepted one the flattening, third flattening, eccentricities, radii of curvature and auxiliary latitudes satisfy their defining relations. The predefined ellipsoids, prime meridians and datums carry their published (EPSG) parameters.",
  ["inputs", "configurations"], "for every pair of axes or axis and inverse flattening, every latitude, and every predefined constant",
  "Each derived parameter is a formula over a continuum of shapes; tests evaluate a couple of ellipsoids, and a wrong published constant still passes them.",
  [G+"geodesy/ellipsoid.rs", G+"geodesy/prime_meridian.rs", G+"geodesy/geodetic_datum.rs"],
  [("Ellipsoid constructors and accessors", G+"geodesy/ellipsoid.rs"), ("constants", G+"geodesy/prime_meridian.rs"), ("GeodeticDatum", G+"geodesy/geodetic_datum.rs")])
p("C06", "Geodetic to geocentric conversion lies on the normal at the given height",
  "The geocentric coordinates of a geodetic point are those of the point at the given height along the ellipsoid normal at that latitude, at the longitude counted from the datum's prime meridian, for ellipsoids and spheres alike.",
  ["inputs", "configurations"], "for all ellipsoids (spheres included), prime meridians, longitudes, latitudes and heights",
  "Tests use one ellipsoid and Greenwich; a term that vanishes on the sphere, the equator, the pole or Greenwich is not exercised.",
  [G+"geodesy/geodetic_datum.rs", G+"geodesy/ellipsoid.rs"], [("GeodeticDatum::llh_to_xyz", G+"geodesy/geodetic_datum.rs")])
p("C07", "Geocentric to geodetic conversion inverts geodetic to geocentric",
  "Converting a geodetic point to geocentric coordinates and back returns the same latitude, height and (where it is defined) longitude, for every datum, including points at the poles, on the equator, on the antimeridian, and on spheres.",
  ["inputs", "configurations"], "for all ellipsoids and prime meridians and all points above the evolute of the ellipsoid",
  "The inverse is a closed-form quartic solution with branches; the file of test points covers one ellipsoid and avoids the singular loci.",
  [G+"geodesy/geodetic_datum.rs"], [("GeodeticDatum::xyz_to_llh", G+"geodesy/geodetic_datum.rs")])
p("C08", "Geocentric datum transformations apply and reverse their parameters",
  "A geocentric translation adds its vector in one direction and subtracts it in the other; a seven-parameter transformation scales, rotates according to its declared rotation convention and translates, and its reverse is the one with all signs of the parameters changed as in the published method. The two rotation conventions differ only by the sign of the rotations, zero parameters are the identity, and chained datum shifts go through the reference datum.",
  ["inputs", "configurations"], "for all parameter vectors, both conventions, and all points",
  "A sign, transposed matrix entry or unit slip shows only for parameter vectors with the affected entry non-zero.",
  [G+"transformations/xyz.rs"], [("GeocentricTranslation, Helmert7Params", G+"transformations/xyz.rs"), ("RotationConvention", G+"transformations/xyz.rs")], hook_needed="constructors of the two transformations are crate private")
p("C09", "Coordinate transformation pipelines compose their parts both ways",
  "A transformation between two reference systems equals the composition of its public parts: axes of the source, source datum to geocentric, datum shift, geocentric to target datum, axes of the target, projections included. The backward transformation is the same pipeline reversed.",
  ["inputs", "configurations"], "for all kinds of source and target systems, all axes, datum shifts and coordinates",
  "There are too many combinations of system kinds and directions to test each, and a swapped source/target is invisible when they are alike.",
  [G+"transformations/xyz.rs", G+"crs/geocentric.rs", G+"crs/geographic.rs", G+"crs/projected.rs"], [("CrsXYZTransformation", G+"transformations/xyz.rs"), ("ToXYZTransformation implementations", G+"transformations/xyz.rs")])
p("C10", "Mercator projections implement their published formulas and invert",
  "Mercator (variants A and B) and Web Mercator map longitude and latitude to easting and northing according to the published formulas with the given origin, scale or standard parallel and false offsets. Projecting and unprojecting returns the original longitude and latitude.",
  ["inputs", "configurations"], "for all ellipsoids, projection parameters and points in the domain",
  "Tests check one published example per variant, where several parameters are zero.",
  [G+"projections/cyl/mercator.rs", G+"projections/cyl/web_mercator.rs", G+"projections/mod.rs"], [("Mercator::proj/unproj", G+"projections/cyl/mercator.rs"), ("WebMercator::proj/unproj", G+"projections/cyl/web_mercator.rs"), ("ProjectionSpec::applied_to", G+"projections/mod.rs")])
p("C11", "Transverse Mercator and UTM implement the published series and invert",
  "Transverse Mercator follows the published (EPSG 9807, JHS) series with the given origin, scale and false offsets, in both hemispheres; projecting and unprojecting returns the point wherever the projection is defined. UTM zones use the zone's central meridian, scale 0.9996, false easting 500 km and false northing 0 (north) or 10 000 km (south).",
  ["inputs", "configurations"], "for all ellipsoids, parameters, 60 zones and both hemispheres, and all points in the domain",
  "Tests check a single point; a wrong high-order coefficient moves it by less than their tolerance or not at all.",
  [G+"projections/cyl/transverse_mercator.rs", G+"projections/mod.rs"], [("TransverseMercator::new/proj/unproj", G+"projections/cyl/transverse_mercator.rs"), ("ProjectionSpec UTM", G+"projections/mod.rs")])
p("C12", "Geodesic solvers agree with their published algorithms and each other",
  "Direct and inverse solutions are those of the published algorithms: solving the inverse problem between the start and the end of a direct solution returns the length and the azimuths, different solvers agree within their stated accuracy, results are symmetric under exchange of the end points and under reflection in the equator, and coincident points are at distance zero. A solver that does not converge reports an error rather than a wrong answer.",
  ["inputs", "configurations"], "for all ellipsoids of terrestrial flattening, all start points, azimuths and lengths (inverse: all non-antipodal pairs)",
  "A wrong series coefficient changes results by millimetres only on long lines at particular azimuths, below or outside what test lines sample.",
  [G+"geodesy/geodesics"], [("VincentyGeodesicSolver", G+"geodesy/geodesics/vincenty.rs"), ("RappGeodesicSolver", G+"geodesy/geodesics/rapp.rs"), ("KarneyGeodesicSolver", G+"geodesy/geodesics/karney.rs")])
p("C13", "Distances and equality in reference systems are what the system means",
  "The distance between two points is the straight-line distance of their geocentric positions in geocentric and 3D geographic systems, the geodesic length in 2D geographic systems and the planar distance in projected systems, expressed in metres, whatever the axes and units. It is non-negative, symmetric and zero for identical points, and approximate equality of coordinates compares each coordinate against its own tolerance.",
  ["inputs", "configurations"], "for all systems, axes and units, and all pairs of points",
  "Symmetry and unit independence are relations between calls over the whole domain, which example distances do not establish.",
  [G+"crs/mod.rs", G+"crs/geocentric.rs", G+"crs/geographic.rs", G+"crs/projected.rs"], [("dist", G+"crs"), ("approx_eq", G+"crs")])
p("C14", "Line strings are parameterized by arc length from start to end",
  "A line string starts and ends at its first and last position, its length is the sum of its segment lengths, and the point at a parameter is the point of the line at that arc length, interpolated inside the right segment. Parameters at the ends, repeated positions and zero-length lines give points of the line, never a failure or NaN.",
  ["inputs", "histories"], "for all position lists built in any order of builder calls, and all parameters in range",
  "The segment lookup must be right for every segmentation and every parameter, including the boundaries of segments.",
  [G+"geometry/coordinate/curve/line_string.rs", G+"geometry/coordinate/mod.rs", G+"geometry/coordinate/curve/mod.rs"], [("LineStringBuilder, LineString::param", G+"geometry/coordinate/curve/line_string.rs")])
p("C15", "Curves are continuous chains parameterized by cumulative length",
  "A curve is accepted only if each segment starts exactly where the previous one ends and has its coordinate dimension; it starts where its first segment starts, ends where its last one ends, its length is the sum of its segments' lengths, and the point at a parameter is the point of the segment that the cumulative length falls in.",
  ["inputs", "histories"], "for all sequences of builder calls and all parameters in range",
  "Joining and lookup depend on the whole history of builder calls and on which segment the parameter falls in.",
  [G+"geometry/primitive/curve.rs", G+"geometry/primitive/point.rs", G+"geometry/primitive/mod.rs"], [("CurveBuilder, Curve::param", G+"geometry/primitive/curve.rs"), ("Point", G+"geometry/primitive/point.rs")])
p("C16", "Longitude intervals behave as directed arcs of the circle",
  "An interval built from two longitudes is the arc going east from the first to the second, its bounds are the normalized longitudes given, its length is the arc's in [0, 2 pi], and it is inverted exactly when it crosses the antimeridian. Empty, full and single-point intervals are mutually exclusive, never confused, and recognized as such.",
  ["inputs"], "for all pairs of longitudes, both spellings of the antimeridian included",
  "The special encodings around the antimeridian need every pairing of -pi, pi and interior longitudes.",
  [G+"cs/s1.rs"], [("Interval", G+"cs/s1.rs")], hook_needed="is_inverted is crate private")
p("C17", "Degrees-minutes-seconds conversion is exact, signed and reversible",
  "Building an angle from degrees, minutes and seconds gives the signed sum of its parts, and splitting an angle into degrees, minutes and seconds gives whole degrees and minutes with minutes and seconds in [0, 60) whose signed sum is the angle.",
  ["inputs"], "for all degrees, minutes and seconds in range, all signs, and all angles",
  "Carry and sign errors occur at isolated values (values rounding up to 60, zero degrees with a sign).",
  [G+"quantities/angle.rs", G+"cs/geodetic.rs", G+"cs/azimuth.rs"], [("Angle::to_dms and DMS", G+"quantities/angle.rs"), ("Lon::dms, Lat::dms, Azimuth::dms", G+"cs")])
p("C18", "The mathematical kernels compute what they are named after",
  "Complex arithmetic satisfies the field laws with the documented principal argument, polynomial evaluation (plain and fast) equals the polynomial with the given coefficients, Clenshaw summation equals the trigonometric series, error-free addition returns the rounded sum and the exact error, the remainder is the signed remainder nearest zero, and fixed-point iteration returns the iterate reached.",
  ["inputs"], "for all coefficients, arguments and degrees",
  "They are used under every projection and geodesic; tests only exercise a few small cases.",
  [G+"math/complex.rs", G+"math/polynomial.rs", G+"math/fp.rs", G+"math/utils.rs"], [("Complex", G+"math/complex.rs"), ("Polynomial", G+"math/polynomial.rs"), ("remainder, iter_fn, sum", G+"math")])
p("C19", "Conversions are total: they return on every floating-point input",
  "Conversions between geodetic and geocentric coordinates, projections and their inverses, direct and inverse geodesics, angle wrapping and axis normalization terminate without panicking for any floating-point input, NaN and infinities included, returning a value or an error. (The Karney inverse, which the library leaves unimplemented, is excepted.)",
  ["inputs", "configurations"], "for every f64 bit pattern in every coordinate",
  "Non-termination and panics occur at exceptional values that nobody writes as test inputs.",
  [G+"geodesy/geodetic_datum.rs", G+"projections", G+"geodesy/geodesics", G+"quantities/angle.rs"], [("iteration caps", G+"projections/cyl/transverse_mercator.rs"), ("solver iteration caps", G+"geodesy/geodesics")])
p("C20", "Tolerance comparisons are per-coordinate, symmetric and monotone",
  "Approximate equality of geodetic, geocentric and projected coordinates holds exactly when every coordinate differs by at most its own tolerance (longitudes and azimuths compared around the circle), so it is reflexive, symmetric, and remains true when a tolerance grows. The predefined tolerances have their documented values.",
  ["inputs"], "for all pairs of coordinates and all tolerances",
  "A comparison that ignores one coordinate or uses the wrong tolerance is only seen by inputs differing in exactly that coordinate.",
  [G+"cs/geodetic.rs", G+"cs/cartesian/geocentric.rs", G+"cs/cartesian/projected.rs", G+"quantities/angle.rs", G+"quantities/length.rs"], [("LLH/XYZ/ENH approx_eq", G+"cs"), ("tolerance constants", G+"cs")])
open("/verif/properties.jsonl", "w").write("".join(json.dumps(x) + "\n" for x in P))
