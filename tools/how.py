# what each check decides, for DESIGN.md: id -> (method/oracle, limits)
HOW = {
'P01': 'subgradient certificate `lip*(x - z) in lagrange * d||z||` written out per norm (ties as convex combinations), argument unchanged, second call equal',
'P02': 'feasibility and normal-cone (projection) certificate `<x - z, y - z> <= 0` for a symbolic feasible y, argument unchanged, second call equal',
'P03': 'symbolic optimality certificate of the total problem (atom at shifted point + attached quadratic + requested quadratic) at the returned point; `proximal_optimum` value against the objective; affine_atom/linear compositions',
'P04': 'Fenchel value at symbolic points (support function), Moreau sum of the two prox maps, double conjugate equal in value and prox, with all offset/quadratic combinations',
'P05': 'closed-form norms; feasibility outside a 1e-3 band around the boundary; values of copies, rebuilt (repr/eval) and re-levelled atoms',
'P06': 'projection certificate on each cone and its polar, feasibility tests, dual/conjugate pairs; affine cones and linear constraints with symbolic bases',
'P07': 'group certificates per label layout; epigraphs as cones; strong set by definition; check_KKT quiet on exact optima, alarms on violations beyond its tolerance',
'P08': 'composition soft threshold + group shrinkage certificate; dual ball projection; bisection gauge bracketed',
'P09': 'row-wise certificates over whole matrices; duality pairings',
'P10': 'per-kind certificates in one mixed atom; strong rule / KKT definitions; buffers not aliased to results',
'P12': 'value of the represented function at a symbolic point before/after every operation; operand snapshots',
'P13': 'value = weighted sum of closed-form terms (exp/log/Phi uninterpreted); gradient = exact symbolic derivative of the reference on the same path; argument snapshots; Cox partial likelihood by definition (Breslow risk sets) against the C kernel',
'P14': 'Hessian entries = derivatives of the reported gradient (expected information closed form for probit/cloglog); products = matrix times vector; dense/CSR/CSC designs',
'P15': 'value/gradient of the subsample = reference with weights*indicator; copies by value and independence; data setters',
'P16': 'dense reference matrix and offset for every construction; linear part, affine map, adjoint, transpose, shapes and reported offset compared entry by entry; second round of calls after which all earlier results and arguments are compared again',
'P17': 'closed-form value and gradient of each construction in all modes; Fenchel equality and inverse gradient map for conjugates; maximiser certificate (subgradient) for smooth conjugates; refusal of negative scales over a symbolic interval',
'P19': 'arbitrary-objective oracle (fresh symbolic value, gradient and proximal answer at every distinct point) driving the real solver loop, compared with the algorithm written from its description; ADMM and quasi-Newton with a recording inner solver',
'P18': 'solver stand-in that records the problem at a symbolic probe point and returns an arbitrary answer; objective, proximal certificate, primal recovery (stationarity for every dual point), dual value/gradient/prox, stage problems of nesta/tfocs by their closed form',
'P11': 'optimality certificates of prox maps and projections (sorted-weight norm through its permutation inequalities), support functions, closed-form values; monotone-regression certificate for isotonic regression; zero and infinite weights as free and fixed coordinates',
'P20': 'solver stand-in giving arbitrary answers and recording every inner problem at a symbolic probe point; penalty structures written out independently; screening and optimality test compared to their definitions in both directions; acceptance of a level implies the conditions hold',
'P21': 'matrices built from symbolic singular values and listed orthonormal bases, prox/projection/epigraph compared to their spectral definition; dense reference for factored operators',
'P22': 'solver stand-in; the recorded problem compared with closed-form loss + penalty at a symbolic probe point; predictions and scores of the fitted vector in closed form (link functions uninterpreted); snapshots of data; clone by scikit-learn itself',
'P23': 'the same operation run twice on the same symbolic entries, once as a fresh array of reals and once as an integer typed array (stores truncate, in-place real results and typed buffers refuse, as numpy does) or as a view with other strides; results compared and both arguments and the buffers behind views compared with snapshots',
}
