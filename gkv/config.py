"""Which harness modules decide which property, and per-harness settings."""

PROPS = {"C%02d" % i: {"module": "c%02d" % i} for i in range(1, 21)}
# not a property: the library models against the library
PROPS["C99"] = {"module": "c99"}

# per harness overrides: mode (real/fp/tot), loop (unroll/havoc), uf (list of regex on function paths),
# split (number of worker processes over which the paths are divided), ms (native sampling factor)
DATUM = ("GeodeticDatum::xyz_to_llh$", "GeodeticDatum::llh_to_xyz$")
HARNESS = {
    **{"c01::" + h: {"mode": "fp"} for h in ("h_lon_make", "h_lon_ops", "h_lon_diff", "h_lon_dms", "h_lat_make", "h_lat_ops", "h_azimuth", "h_normalize")},
    # callers are checked against the datum conversions as functions of their arguments (C05, C06, C07 state what these compute)
    **{"c09::" + h: {"uf": DATUM} for h in ("h_geographic_to_geocentric", "h_geocentric_to_geographic", "h_geographic_geographic", "h_projected_from_xyz", "h_projected_to_xyz", "h_projected_pipeline")},
    **{"c10::" + h: {"split": 3, "weight": 5} for h in ("h_2sp_inverse", "h_2sp_forward", "h_1sp_inverse")},
    **{"c07::" + h: {"mode": "native"} for h in ("h_round_trip", "h_round_trip_datums")},
    "c07::h_longitude": {"split": 5, "weight": 5}, "c07::h_formula": {"split": 3, "weight": 3}, "c07::h_poles": {"split": 3, "weight": 4},
    # the accuracy of the truncated series itself: bounded (native) check
    **{"c10::" + h: {"mode": "native"} for h in ("h_1sp_round_trip", "h_2sp_round_trip")},
    "c11::h_inverse": {"loop": "havoc", "split": 6, "weight": 6},
    "c11::h_utm_inverse": {"uf": ("TransverseMercator.*::unproj$",), "split": 3},
    "c11::h_utm": {"split": 3},
    **{"c11::" + h: {"mode": "native"} for h in ("h_round_trip",)},
    # callers are checked against the datum conversion and the solver as functions of their arguments (C05, C06, C12)
    "c13::h_geographic_3d": {"uf": DATUM}, "c13::h_geographic_3d_symmetric": {"uf": DATUM},
    "c13::h_geographic_2d": {"uf": ("Vincenty.*::solve_inverse$",)},
    "c13::h_geographic_2d_metric": {"mode": "native"},
    **{"c12::" + h: {"loop": "havoc", "split": 2, "weight": 4} for h in ("h_vincenty_direct", "h_vincenty_inverse", "h_rapp_direct")},
    "c12::h_rapp_inverse": {"loop": "havoc", "split": 3, "weight": 6}, "c12::h_karney_direct": {"split": 2, "weight": 4},
    **{"c12::" + h: {"mode": "native"} for h in ("h_direct_solvers_agree", "h_inverse_of_direct", "h_symmetry", "h_antipodal", "h_coincident")},
    # signed zeros and rounding: native
    **{"c17::" + h: {"mode": "native"} for h in ("h_negative_zero", "h_round_trip")},
    # lists of any length: native
    "c14::h_long": {"mode": "native"}, "c15::h_long": {"mode": "native"},
    "c18::h_sum_rounding": {"mode": "native"},
    "c18::h_iter_fixed_point": {"loop": "havoc"},
}
DEFAULT = {"mode": "real", "loop": "unroll", "uf": (), "split": 1, "budget": 15.0, "paths": 3000}


def cfg(h):
    c = dict(DEFAULT)
    c.update(HARNESS.get(h, {"mode": "tot"} if h.startswith("c19::") else {}))
    return c


ASSUMPTIONS = [
    "machine floating point is treated as exact real arithmetic in mode real (constants idealised: k*pi, simplest rational); rounding is covered only by the native runs with the tolerance stated in each contract",
    "division by zero, overflow and NaN are outside mode real (mode fp / tot harnesses and native runs cover them)",
    "std, smallvec, smol_str and nalgebra functions are trusted models (gkv/models.py); geokit functions are never modelled",
    "rustc's MIR construction and the gkv verifier itself (own code, not independently checked) are trusted",
]
TRUSTED = [
    "rustc nightly MIR (extracted on every run from /repo, mir-opt-level=0)",
    "gkv symbolic executor, algebraic normaliser, interval arithmetic (/verif/gkv)",
    "z3 5.3.2", "models of std/smallvec/smol_str/nalgebra functions (gkv/models.py)",
]
