TECH = {"C01": "rounded-real (IEEE-754 facts) obligations discharged by z3", "C19": "finite graph of abstract states (any float, NaN and infinities included) proved panic-free and acyclic"}
NOTE = {
 "C07": "proof over the reals; rounding of the composed round trip is bounded (native)",
 "C10": "proof of the formulas over the reals; accuracy of the truncated inverse series is bounded (native)",
 "C11": "proof of the formulas over the reals; accuracy of the truncated series is bounded (native)",
 "C12": "proof that the solvers compute the published formulas from the converged unknown, over the reals; agreement between solvers, symmetry, antipodal and coincident points are bounded (native)",
 "C13": "proof with the datum conversion and the geodesic solver as functions of their arguments; metric laws of the 2D geodesic distance are bounded (native)",
 "C14": "proof for lines of 2, 3, 4, 5 and 10 positions with arbitrary coordinates (number of positions bounded); longer ones native",
 "C15": "proof for chains of up to 4 segments with arbitrary coordinates (number of segments bounded); longer ones native",
 "C17": "proof over the reals; signed zero and rounding are bounded (native)",
 "C18": "proof over the reals for up to 7 coefficients; rounding error of two-sum is bounded (native)",
}
