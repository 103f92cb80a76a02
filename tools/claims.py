CLAIMED={
'C01':('property-based testing: metamorphic laws over generated measure triples','shrinking generator; random search, not exhaustive'),
'C02':('property-based differential testing against independent reference densities','random parameters and points over wide ranges, tolerance scaled by conditioning'),
'C03':('property-based testing: numerical integration of generated densities','quadrature accurate to 2e-6; random parameters'),
'C04':('property-based testing of support/density consistency','random points biased to support edges'),
'C05':('property-based testing with an explicit validity oracle','edge-biased random parameters'),
'C06':('property-based differential testing of the exponential-family form against independent formulas','random parameters and points; tolerance scaled by the size of the cancelling terms'),
'C07':('property-based round-trip testing','random natural and ordinary parameters including extreme ones'),
'C08':('property-based metamorphic testing of sample lists (sum, permutation, concatenation)','random sample lists, mostly up to a few dozen samples and up to 70000'),
'C09':('property-based testing of generated term multisets in exact arithmetic, and differential testing of the library decompositions','terms drawn from pools of function pointers; library part random parameters and points'),
'C10':('stateful property-based testing: histories of evaluations of several caches against the uncached log-density, with injected failures','histories up to 4000 evaluations, seven key types, one of them with a colliding hash'),
'C25':('property-based differential testing against integer arithmetic and exact sums','all 14x14 pairs of primitive number types; lengths up to 70000'),
'C11':('property-based differential testing of specialised evaluators against the generic density','random parameters, points, base measures and call orders'),
'C12':('property-based differential testing of products of generated measures','random nestings up to five factors, each itself a combination'),
'C13':('property-based testing of mixtures against a log-sum-exp model and metamorphic relations','random components, weights and magnitudes; up to 2000 components'),
'C14':('property-based testing of the change-of-variables formula, with quadrature and numerical derivatives','random transformations and trees; points whose inverse image is not representable are skipped'),
'C15':('property-based differential testing of weighted and integral measures','random nestings up to 60 levels'),
'C16':('property-based differential testing against exact integers and an independent series; small arguments exhaustively','random arguments up to 2^53'),
'C17':('property-based differential testing of random expression trees against a reference semantics with error bounds','random trees up to depth 7 and long chains; results at the edge of a domain are not judged'),
'C18':('property-based testing: value preservation of random and all small expression trees','random trees up to depth 7 and every tree of two levels over eight leaves; positive variables'),
'C19':('stateful property-based testing: histories of random and small expressions through one optimiser, values compared','random trees up to 14 nodes; positive variables; cases whose saturation needs over 600 MB or 5 s are given up (none at quick)'),
'C20':('property-based differential testing of compiled functions of every signature against the interpreter and a reference semantics','random trees up to depth 6, up to 6 data variables and 7 parameters'),
'C22':('property-based differential testing of one program under every interpreter, exact integer polynomials, and read-back of printed forms','random programs up to depth 5; polynomials up to degree 2000'),
'C21':('property-based round-trip testing: generated text is read back by an independent parser and run by Python','random trees up to depth 6'),
'C24':('property-based differential testing of bindings and overrides','random trees up to depth 6'),
'C26':('stateful property-based testing of histories and of concurrent scripts against uncached operations','histories up to 300 steps, up to 7 threads under the schedules of the operating system'),
'C23':('property-based testing of builders against reference formulas, and stateful testing of the Bayesian optimiser against a model','random parameters over 1e-60..1e60 and random models; histories of up to 8 compilations'),
}
NOT_YET={}
