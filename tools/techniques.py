S = "Sampled evidence: holds on every generated case within the stated float tolerances; trusts numpy/scipy/torch arithmetic and the reference in vlib/."
TECH.update({
"P01": ("property-based testing (Hypothesis) against an independent numpy matrix-group model", S),
"P02": ("property-based testing against matrix-exponential reference and round trips, branch-weighted angles", S),
"P03": ("property-based testing: closed-form Jacobians vs finite differences of an independent reference", S),
"P04": ("property-based testing: autograd directional derivatives vs finite differences of an independent reference", S),
"P05": ("metamorphic property-based testing over batch shapes, plus differential reference", S),
"P06": ("property-based round-trip testing and generated invalid inputs", S),
"P07": ("stateful model-based property testing of operation histories", S),
"P08": ("stateful model-based property testing of update/evaluate histories", S),
"P09": ("stateful differential testing: vectorised vs plain evaluation over generated histories", S),
"P10": ("property-based testing: analytic Jacobians vs finite differences and autodiff", S),
"P11": ("property-based testing against independent numpy formulas", S),
"P12": ("property-based testing against brute-force distance and interpolation models", S),
"P13": ("differential property-based testing across autodiff modes and vs finite differences", S),
"P14": ("property-based testing against explicit square-root-information matrices", S),
"P15": ("property-based testing against independent robust-loss formulas and derivatives", S),
"P16": ("differential property-based testing of linearisations vs explicitly assembled blocks", S),
"P17": ("property-based testing of solvers vs explicit float64 solves and finite differences", S),
"P18": ("property-based testing with exact minimisers and per-iteration invariants", S),
"P19": ("property-based testing: reported info vs an external recomputation of the history", S),
"P20": ("metamorphic property-based testing: batched vs single-element runs", S),
"P21": ("property-based testing of backward modes vs analytic and finite-difference sensitivities", S),
"P22": ("stateful property-based testing of layer call histories with injected solver failures", S),
"P23": ("property-based testing over generated URDF trees vs an independent kinematics model", S),
"P24": ("property-based testing of sparse helpers vs dense algebra", S),
"P25": ("property-based testing of the top-k layer and sampling optimiser contracts", S),
"P26": ("property-based round-trip testing of Gaussian transport", S),
"P27": ("property-based save/load round-trip testing and an independent file model", S),
"P28": ("stateful property-based testing of nested scopes with injected exceptions", S),
"P29": ("stateful property-based testing of updates/retractions vs a reference model", S),
"P30": ("metamorphic property-based testing of dtype conversion", S),
})
