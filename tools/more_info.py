NA = {}
EV = ("Contracts evaluated on the real code for seeded inputs (bounded stand-in): the functions are outside the verifier's reach so far. ")
REP = "evaluation stand-in: the number of seeded inputs in the evidence; no claim beyond them"


def ev(p, what, conc=12):
    add(p, "exploration", EV + what, bounded=[REP], conc=conc,
        tech="contract-based verification: postconditions of the real functions evaluated on seeded inputs (bounded stand-in, not proved)")


def pr(p, what, bounded=(), conc=12, proof=120):
    add(p, "proof", BASE + what, bounded=list(bounded) + [REP], conc=conc, proof=proof)


pr("C07", "Any number of planes, any real index.")
pr("C08", "All sizes and coordinates symbolic.")
ev("C09", "Index search on structured grids.", conc=20)
pr("C10", "All sizes symbolic; the plane's splines and np.linalg.inv enter by contract; nonvanishing map Jacobian is the precondition.", conc=15)
pr("C11", "Arbitrary field and grid functions, all sizes symbolic.", conc=15)
pr("C12", "All sizes symbolic, lines by contract; the solver loop by the loop rule (invariant: boundary rows keep their entry value).", ["grid_elliptic is proved without alignment, orthogonal start and coarse-grid start; those options are evaluated only"], conc=25)
ev("C13", "Periodic lines.", conc=15)
ev("C14", "Ordering of points.", conc=20)
pr("C15", "Arbitrary field component functions, any number of positions.")
pr("C16", "All parameters and positions symbolic; sympy by the contract of its operations.", ["Dommaschk modes m <= 3, l <= 3 are enumerated, each with symbolic coefficients; a superposition is a sum of them"], conc=20, proof=240)
ev("C17", "g-file fields.", conc=20)
pr("C18", "Any number of lines and y values; scipy odeint by contract.", ["starts of rank 0 to 2; 1 to 3 pieces of 1000 lines"], conc=20)
pr("C19", "Arbitrary field direction, any number of lines; the Newton loop by partial correctness from an arbitrary state.", ["up to 3 y values and 2 sub-steps are enumerated"], conc=15, proof=240)
pr("C20", "Any number of lines, symbolic slice positions and period; tracer by contract.", ["slices, revolutions and over-sampling factors up to 4, 3, 3 are enumerated"], conc=15)
ev("C21", "Trace cache.", conc=20)
pr("C22", "Grid sizes, positions and traces symbolic; grid, tracer, index search and boundary by contract.",
   ["nslice <= 3 and samples_per_dim <= 2 are enumerated"], conc=30, proof=180)
pr("C23", "Every nonzero integer offset.")
pr("C24", "Grid sizes and positions symbolic; line length, tracer and grid by contract.",
   ["refine <= 2 and at most 4 pieces per line are enumerated"], conc=25, proof=180)
ev("C25", "Grid file.", conc=25)
ev("C26", "Perpendicular operator.", conc=25)
ev("C27", "Resume after interruption.", conc=35)
pr("C28", "Any number of points and of polygon vertices, all coordinates symbolic (even-odd rule).")
pr("C29", "Any size.", ["arrays of rank 1 to 3"])
pr("C30", "Any number of lines, symbolic refinement; scipy CubicSpline by contract.", ["traces of 2, 3 and 5 points, rank <= 2"])
