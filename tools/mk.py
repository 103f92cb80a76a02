#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run from /verif)."""
import json, os, sys
core='measures-core/src/core/'
comb='measures-combinators/src/measures/'
dist='measures-distributions/src/distributions/'
ef='measures-exponential-family/src/exponential_family/'
sym='symbolic-math/src/'
P=[]
def p(id,title,stmt,over,qtext,why,files,mech):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
        anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech])))
I=['inputs']
p('C01','Relative log-densities obey the algebra of measures',
 'For any two measures sharing a root measure, the relative log-density at a point is the difference of their log-densities with respect to the root: it is zero for a measure against itself, antisymmetric, and additive along a chain of measures. Omitting the base measure means the root measure, the last base measure named is the one used, and batch and free-function evaluation give the same numbers. This holds for library distributions, combinators and user-defined measures, zero-sized types included.',
 I,'every pair and triple of measures with a common root (library, derived, user-defined with and without data) and every point',
 'tests compare a few pairs at a few points; the laws quantify over all pairs of measures and points',
 [core+'density.rs',core+'measure.rs'],[('type-level dispatch of the relative density',core+'density.rs'),('builder and base-measure selection',core+'density.rs')])
p('C02','Every distribution evaluates its documented density formula',
 'The log-density of each distribution at every point equals the logarithm of the density or mass function its documentation states, in both f64 and f32, and is negative infinity where that function is zero. The direct methods and the fluent interface give the same value.',
 I,'all valid parameters in a wide range and all points, inside and outside the support, in both float types',
 'tests check a handful of hand-computed values, mostly standard parameters',
 [dist+'continuous',dist+'discrete'],[('log density of each distribution',dist)])
p('C03','Densities are normalised and have the stated mean and variance',
 'The exponential of each distribution\'s log-density integrates (or sums) to one over its support, and the mean and variance it reports are the moments of that density.',
 I,'all valid parameters of every distribution',
 'a finite set of pointwise checks cannot establish an integral over the whole support for every parameter',
 [dist+'continuous',dist+'discrete'],[('log density, mean() and variance() of each distribution',dist)])
p('C04','Support predicate and log-density agree',
 'A point is reported to be in the support of a measure exactly when the documentation says so; outside the support the log-density is negative infinity, inside it is never NaN and is finite wherever the density is positive. This holds for distributions, for products, mixtures, weighted and integral measures and for joint distributions of independent samples.',
 I,'all distributions, parameters and points, including the edges of supports, and all combinations of these by the combinators',
 'tests probe one or two points per distribution',
 [dist,comb+'combinators',ef+'iid.rs'],[('in_support of each measure',dist),('support checks of the exponential-family evaluators',ef+'traits.rs')])
p('C05','Constructors accept exactly the valid parameters',
 'A distribution or mixture constructor succeeds exactly when its parameters satisfy the documented constraints (positive scales, rates and degrees of freedom, probabilities in range, weights that are non-negative and sum to one up to rounding of the number type), and otherwise panics instead of returning a meaningless measure. Accessors, derived quantities and defaults return what the parameters imply.',
 I,'all parameter values including zero, negative, NaN and boundary values, and weight vectors of any length in f64 and f32',
 'tests try one or two invalid values per constructor and only f64 weights of length two or three',
 [dist,comb+'combinators/superposition.rs'],[('new() and accessors of each distribution',dist)])
p('C06','Exponential-family form reproduces the density',
 'For every exponential-family distribution, natural parameters times sufficient statistic minus log-partition plus base-measure log-density equals the log-density at every point, whether assembled by hand, by the library method, or by the free helper. The natural parameter, log-partition, sufficient statistic and base measure individually equal their documented formulas, and the combined accessor agrees with the separate ones.',
 I,'every exponential-family distribution, all non-degenerate parameters, all points in and outside the support',
 'tests check a few distributions at one or two points; several log-partition functions had no test at all',
 [ef+'traits.rs',dist],[('exp_fam_log_density',ef+'traits.rs'),('natural_and_log_partition of each distribution',dist)])
p('C07','Natural parameters round-trip',
 'Converting a distribution to natural parameters and back gives the same distribution up to rounding, and converting any natural parameter of the family to a distribution and back gives that natural parameter; this holds for arbitrarily large natural parameters wherever the distribution is representable. Families whose natural parameter does not determine the distribution refuse the conversion.',
 I,'all non-degenerate parameters and all natural parameters in the natural parameter space, including very large ones',
 'tests round-trip one or two parameter values per family',
 [dist],[('from_natural / to_natural of each distribution',dist)])
p('C08','Joint density of independent samples is the sum of densities',
 'The joint log-density of any list of independent samples equals the sum of the individual log-densities; it is zero for no samples, unchanged by reordering, additive over concatenation, and negative infinity when any sample is outside the support. All ways of computing it (wrapper, fluent interface, free helper, fallback summation, decomposition) agree.',
 I,'every exponential-family distribution, all parameters, sample lists of any length and order',
 'tests use fixed lists of three to five samples of the normal and Poisson distributions',
 [ef+'iid.rs',ef+'traits.rs'],[('compute_iid_exp_fam_log_density',ef+'traits.rs'),('sum of sufficient statistics',ef+'traits.rs')])
p('C09','Log-density decompositions add up to the density',
 'The parts of a structured log-density (data-only, parameter-only, mixed and constant terms) sum to the log-density at every point; joint evaluation over samples counts parameter and constant terms once per sample and equals the sum of single evaluations. This holds for the library\'s own decompositions and for any decomposition assembled with the builder.',
 I,'any multiset of terms of each kind, any parameters, any sample list, and the decompositions of the normal, Cauchy and Student t distributions',
 'tests check one decomposition at one point',
 [core+'density.rs',core+'log_density_decomposition.rs',dist],[('evaluate / evaluate_iid',core),('builder',core)])
p('C10','Cached log-densities are indistinguishable from uncached ones',
 'After any history of evaluations a cached log-density returns, at every point, exactly the value the uncached one returns, for any point type that can be a cache key, and evaluates the underlying log-density only once per distinct point. Caches are independent of each other, may be nested, and stay correct when an evaluation of the underlying log-density fails.',
 ['histories'],'all sequences of evaluations over any measures and points',
 'a test evaluates the same point twice; staleness or key confusion needs particular histories',
 [core+'density.rs'],[('CachedLogDensity',core+'density.rs')])
p('C11','Specialised evaluators equal the generic evaluation',
 'Every specialised evaluator generated for a distribution (precomputed closures with respect to the root or to another measure, inlined normal and exponential evaluators, tagless density patterns and helpers) returns the generic log-density at every point, and keeps doing so whatever order and number of times it is called.',
 I,'all distributions, parameters, points and alternative base measures',
 'tests compare at a few points of standard distributions',
 [ef+'jit.rs',ef+'final_tagless.rs',dist+'final_tagless.rs'],[('generate_zero_overhead_exp_fam',ef+'jit.rs'),('static inline compilers',ef+'jit.rs'),('distribution patterns',dist+'final_tagless.rs')])
p('C12','Product measures are independent joint measures',
 'The log-density of a product of measures at a tuple is the sum of the factors\' log-densities at the components, its support is the product of supports and its root the product of roots, for any nesting and for the method, constructor and macro forms alike.',
 I,'products of any nesting of any measures, at any tuple',
 'the combinators\' own unit tests are not even run; others check one product at one point',
 [comb+'combinators/product.rs'],[('ProductMeasure',comb+'combinators/product.rs')])
p('C13','Mixture densities are the weighted sums of component densities',
 'The density of a mixture at a point is the weighted sum of its component densities, computed without overflow or underflow for components of any magnitude; zero-weight components have no influence, the order of components does not matter, and two-component shorthand forms normalise their weights.',
 I,'any number of components of any distribution, any weights including zeros, points deep in the tails',
 'tests check two-component normal mixtures near the modes',
 [comb+'combinators/superposition.rs'],[('MixtureMeasure log density and log-sum-exp',comb+'combinators/superposition.rs')])
p('C14','Pushforwards satisfy the change-of-variables formula',
 'The log-density of a transformed measure at y is the base log-density at the inverse image plus the log absolute derivative of the inverse, for the logarithm, exponential, linear and logit transformations and for user-supplied ones, and zero density outside the image. Each provided transformation\'s inverse undoes its forward map, its stated Jacobian is the derivative of that inverse, and the transformed density still integrates to one.',
 I,'all base distributions on the line, all transformations and parameters, all points including extreme ones',
 'tests only check that the density is finite at a few points',
 [comb+'combinators/pushforward.rs'],[('PushforwardMeasure',comb+'combinators/pushforward.rs'),('transforms',comb+'combinators/pushforward.rs')])
p('C15','Weighted and integral measures scale the base density',
 'A weighted measure has the base log-density plus the log-weight, an integral measure the base log-density plus the given log-density function, at every point and however deeply nested, with the base measure\'s support and root; relative to the base measure the density is exactly the weight or function.',
 I,'any base measure, weight, density function, nesting depth and point',
 'tests check one weight at one point',
 [comb+'derived'],[('WeightedMeasure',comb+'derived/weighted.rs'),('IntegralMeasure',comb+'derived/integral.rs')])
p('C16','Combinatorial base measures are accurate for all arguments',
 'Log-factorials and the log of ordinary and negative binomial coefficients equal the exact integer values to near machine precision for all arguments (small exact range, large asymptotic range, and across the switch between them), satisfy their recurrences and symmetries, and the factorial, binomial and negative-binomial measures have exactly these as log-densities.',
 I,'all arguments up to 2^53 and all pairs (n, k), in f64 and f32',
 'tests check tabulated values and a few large ones',
 [comb+'derived'],[('log_factorial',comb+'derived/factorial.rs'),('log_binomial_coefficient',comb+'derived/binomial_coefficient.rs')])
p('C17','All expression evaluators agree with real arithmetic',
 'Evaluating a symbolic expression gives the value of the formula it denotes, and an error exactly where a variable is missing or an operation is undefined; the single-variable, batch, cached, linear and polynomial evaluation routes give the same result for the same expression and values. Structural queries (variables, constants, size) describe the expression as written.',
 ['programs','inputs'],'all expressions over all operators and all assignments of values to variables',
 'tests evaluate a few small expressions',
 [sym+'expr.rs'],[('evaluate and its variants',sym+'expr.rs')])
p('C18','Simplification preserves the value of an expression',
 'Wherever an expression has a value for positive variables, its simplified form has the same value; simplification introduces no new variables or additional operations, may be repeated, and does not turn an expression with a value into one without.',
 ['programs','inputs'],'all expressions over all operators and all assignments of positive values',
 'tests check a list of rewrite rules one at a time; unsoundness shows in combinations',
 [sym+'expr.rs'],[('simplify',sym+'expr.rs')])
p('C19','Equality-saturation optimisation preserves the value of an expression',
 'Wherever an expression has a value for positive variables, the expression returned by the optimiser has the same value, whatever its constants; optimisation never fails on a supported expression and introduces no new variables.',
 ['programs','inputs'],'all expressions over all operators, any constants, all positive assignments',
 'tests check a few expressions with one-digit constants',
 [sym+'optimization.rs'],[('egglog conversion, rules and extraction',sym+'optimization.rs')])
p('C20','Compiled code computes what the interpreter computes',
 'For every expression, the natively compiled function returns the interpreted value at every input in the domain, for every signature (single input, data with one or several parameters, batches) and with arguments bound to the declared variables in the declared order; embedded constants are used exactly.',
 ['programs','inputs'],'all expressions, all signatures and argument orders, all inputs',
 'tests compile a few formulas and call them at a few points',
 [sym+'jit.rs'],[('expression code generation',sym+'jit.rs'),('elementary functions',sym+'jit.rs'),('call_* entry points',sym+'jit.rs')])
p('C21','Generated source text denotes the same function',
 'The Python source generated for an expression, run by a real interpreter, computes the expression\'s value wherever it has a finite one; the LaTeX and plain-text renderings read back, by the usual precedence rules, as the same expression.',
 ['programs','inputs'],'all expressions including nested powers, quotients, negations and negative constants',
 'tests look for substrings in the output of small expressions',
 [sym+'expr.rs'],[('to_python / to_latex / Display',sym+'expr.rs'),('display module',sym+'expr.rs')])
p('C22','All tagless interpreters give one meaning to a program',
 'A program written once against the abstract expression interface has the same value under direct evaluation and under native compilation, in each of the crates providing the interface and in both float types; the polynomial, activation and reduction helpers equal their mathematical definitions, and the printed form reads back as the same formula.',
 ['programs','inputs'],'all programs over the interface operations and helpers, and all inputs',
 'tests run a few fixed programs',
 [sym+'final_tagless.rs','mathjit/src/final_tagless.rs'],[('DirectEval, JITEval, PrettyPrint',sym+'final_tagless.rs'),('polynomial helpers','mathjit/src/final_tagless.rs')])
p('C23','Symbolic densities and Bayesian models denote their formulas',
 'Each symbolic builder (standard densities, likelihoods, priors, posteriors, hierarchical and mixture models) yields an expression whose value is the stated log-density for every assignment of its variables; a posterior is the sum of likelihood and prior, and compiled Bayesian functions return the value of the expressions they were compiled from.',
 I,'all builders, all parameter and data values including extreme ones',
 'tests only check the shape of the expression tree',
 ['measures-bayesian/src/bayesian',sym+'expr.rs'],[('Bayesian expression builders','measures-bayesian/src/bayesian/mod.rs'),('builders',sym+'expr.rs')])
p('C24','Parameters of symbolic densities are substituted faithfully',
 'Evaluating a symbolic log-density with bound parameters equals evaluating its expression with those parameters and the given variables together, with the documented precedence when both bind a name; batch evaluation equals single evaluation elementwise and unbound variables are errors.',
 ['inputs','histories'],'all expressions, parameter bindings, overrides and batches',
 'tests bind one or two parameters of fixed formulas',
 [sym+'expr.rs',sym+'lib.rs'],[('SymbolicLogDensity / CustomSymbolicLogDensity',sym+'expr.rs')])
p('C25','Numeric helper operations are exact',
 'Dot products, array additions, subtractions and sums equal the elementwise definitions for every length. Conversions between number types return the converted value whenever the target type can represent it (nearest for floats, truncated toward zero for integers) and the stated fallback otherwise, for every input including non-finite ones.',
 I,'all lengths and values, all pairs of number types',
 'tests cover two or three fixed arrays',
 [core+'utils.rs','measures-core/src/traits',ef+'array_utils.rs'],[('DotProduct implementations','measures-core/src'),('safe conversions',core+'utils.rs')])
p('C26','Symbolic caches never change a result',
 'Cached evaluation and simplification of symbolic expressions return, after any history of other expressions, values and cache clears and from any number of threads, exactly what the uncached operation returns, and the cache counters account for every call.',
 ['histories','schedules'],'all interleavings of cached operations on any set of expressions by any number of threads',
 'tests call a cached function twice with the same key',
 [sym+'expr.rs'],[('global caches',sym+'expr.rs')])
NOTE={}
exec(open(os.path.join(os.path.dirname(__file__),'claims.py')).read())
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(root+'/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+'\n')
checks=[]
for x in P:
    if x['id'] in CLAIMED:
        t,n=CLAIMED[x['id']]
        checks.append(dict(property=x['id'],quick_cmd=f"bash check.sh {x['id']} quick",thorough_cmd=f"bash check.sh {x['id']} thorough",
          evidence_file=f"evidence/{x['id']}.json",technique=t,level='exploration',level_note=n))
m=dict(version=1,setup_cmd='bash check.sh --build',checks=checks,
  not_applicable=[dict(property=x['id'],reason=NOT_YET.get(x['id'],'no check registered yet')) for x in P if x['id'] not in CLAIMED],
  notes='One Rust harness (harness/) with path dependencies on the crates of /repo; no hooks in /repo are needed. check.sh rebuilds it from the working tree.')
json.dump(m,open(root+'/MANIFEST.json','w'),indent=1,ensure_ascii=False)
print(len(P),'properties',len(checks),'claimed')
for x in P:
    assert len(x['title'])<=80,x['id']
    assert x['statement'].count('. ')<=2,(x['id'],x['statement'].count('. '))
