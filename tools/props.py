#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json (run after editing; not part of any check)"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = 'src/ajdmom/'


def P(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=[S + f for f in files],
                          mechanism=[dict(name=n, where=S + w) for n, w in mech]))
    if observe:
        d['anchors']['observe_at'] = observe
    if state:
        d['anchors']['state'] = [dict(name=n, meaning=m, where=S + w) for n, m, w in state]
    assert len(title) <= 80, title
    return d


ORD = 'every order and every admissible parameter vector'
NUM = ('The tests evaluate a few low orders at one parameter vector and compare with stored numbers or a noisy '
       'simulation; a wrong coefficient in a term that is small there, or at a higher order, is invisible to them.')
L = [
 P('C01', 'Exact moments, central moments and covariances of the 1-factor SV model',
   'For the Heston-type one-factor SV model the returned moment, central moment, product moment E[y_n^l y_{n+1}^m] and covariance '
   'formulas are exactly those of the stationary process, identically in all parameters. The formula is read through the names it '
   'publishes for its exponents, and the 0-th order is 1 (0 for a covariance with a 0-th order argument).',
   ['inputs'], ORD + ', every pair of orders for the lagged quantities', NUM,
   ['mdl_1fsv/mom.py', 'mdl_1fsv/cmom.py', 'mdl_1fsv/cov.py', 'ito_mom.py', 'poly.py', 'utils.py'],
   [('combination of Ito-process moments', 'mdl_1fsv/mom.py'), ('recursion over Ito integrals', 'ito_mom.py')]),
 P('C02', 'Exact conditional central moments of the 1-factor SV model',
   'Given the initial variance, the returned conditional central moments of the return over one interval (all orders up to the '
   'requested one) equal those of the process, identically in all parameters and in the initial variance; so do their simplified presentations.',
   ['inputs'], ORD + ' and every initial variance', NUM,
   ['mdl_1fsv/cond_cmom.py', 'ito_mom.py', 'poly.py'],
   [('centred decomposition of the return', 'mdl_1fsv/cond_cmom.py')]),
 P('C03', 'Exact moments, central moments and covariances with price jumps (1 factor)',
   'With compound-Poisson normal jumps added to the return, the moments, central moments, product moments and covariances returned for the '
   'one-factor model are exactly those of the process, identically in all parameters including the jump intensity, mean and deviation.',
   ['inputs'], ORD + ', every pair of orders for the lagged quantities', NUM,
   ['mdl_1fsvj/mom.py', 'mdl_1fsvj/cmom.py', 'mdl_1fsvj/cov.py', 'cpp_mom.py', 'ito_mom.py'],
   [('binomial convolution with CPP moments', 'mdl_1fsvj/mom.py')]),
 P('C04', 'Exact moments, central moments and covariances of the 2-factor SV model',
   'For the two-factor SV model (superposition of two independent square-root variances) the returned moments, central moments, '
   'product moments and covariances are exactly those of the stationary process, for every pair of mean-reversion rates and identically in the other parameters.',
   ['inputs'], ORD + ', every pair of orders for the lagged quantities', NUM,
   ['mdl_2fsv/mom.py', 'mdl_2fsv/cmom.py', 'mdl_2fsv/cov.py', 'itos_mom.py', 'poly.py'],
   [('recursion over two Ito families', 'itos_mom.py'), ('combination', 'mdl_2fsv/mom.py')]),
 P('C05', 'Exact moments, central moments and covariances with price jumps (2 factor)',
   'With compound-Poisson normal jumps added to the return, the moments, central moments, product moments and covariances returned for the '
   'two-factor model are exactly those of the process, identically in all parameters.',
   ['inputs'], ORD + ', every pair of orders for the lagged quantities', NUM,
   ['mdl_2fsvj/mom.py', 'mdl_2fsvj/cmom.py', 'mdl_2fsvj/cov.py', 'cpp_mom.py', 'itos_mom.py'],
   [('binomial convolution with CPP moments', 'mdl_2fsvj/mom.py')]),
 P('C06', 'Exact stationary moments of the square-root jump diffusion',
   'The unconditional moments of the square-root diffusion with exponential jumps, its central moments and its moments centred at the '
   'long-run level are exactly those of the stationary law, identically in all parameters, in both the expanded and the unexpanded presentation.',
   ['inputs'], ORD, NUM,
   ['mdl_srjd/mom.py', 'mdl_srjd/cmom.py', 'mdl_svcj/mom.py'],
   [('stationary recursion', 'mdl_srjd/mom.py'), ('recentring', 'mdl_srjd/cmom.py')]),
 P('C07', 'Exact moments of the square-root jump diffusion given its initial value',
   'Given the initial value, the returned moments and central moments of the square-root jump diffusion, of its Ito integral, of its '
   'exponentially weighted jump integral over any interval and of their products are exactly those of the process, identically in all parameters.',
   ['inputs'], ORD + ', every interval, every pair of orders for products', NUM,
   ['mdl_srjd/cond_mom.py', 'mdl_srjd/cond_cmom.py', 'mdl_srjd/cmom.py', 'mdl_srjd/cond_ie_iez_mom.py', 'mdl_srjd/cond_ie_iez_cmom.py',
    'mdl_srjd/iez_mom.py', 'mdl_srjd/iez_cmom.py'],
   [('recursion with interval integrals', 'mdl_srjd/cond_ie_iez_mom.py'), ('jump integral', 'mdl_srjd/iez_mom.py')]),
 P('C08', 'Exact moments of the square-root jump diffusion given its jumps',
   'Given the initial value and the realised jump times and sizes, the returned moments and central moments of the square-root jump diffusion '
   'and of its Ito integral are exactly those of the process, for any number of jumps at any times and identically in all parameters.',
   ['inputs'], ORD + ', every number, order, time and size of jumps', NUM,
   ['mdl_srjd/cond2_mom.py', 'mdl_srjd/cond2_cmom.py', 'ito_cond_mom.py', 'utils.py'],
   [('index language over jump tuples', 'ito_cond_mom.py'), ('evaluation over jump tuples', 'utils.py')]),
 P('C09', 'Exact return moments given the variance jumps (SVVJ and SVIJ)',
   'For the SV models with variance jumps (without price jumps, and with independent price jumps), given the initial variance and the '
   'realised variance jumps, the returned moments and central moments of the return, single or as a list up to an order, are exactly those of the process.',
   ['inputs'], ORD + ', every number, time and size of variance jumps', NUM,
   ['mdl_svvj/cond2_mom.py', 'mdl_svvj/cond2_cmom.py', 'mdl_svij/cond2_mom.py', 'mdl_svij/cond2_cmom.py', 'ito_cond_mom.py', 'cpp_mom.py'],
   [('combination of conditional Ito moments', 'mdl_svvj/cond2_cmom.py')]),
 P('C10', 'Exact return moments given the jumps of the contemporaneous-jump model (SVCJ)',
   'For the SV model whose price and variance jump together, given the initial variance and the realised variance jumps, the returned '
   'moments and central moments of the return (with the correlated price jumps integrated out) are exactly those of the process.',
   ['inputs'], ORD + ', every number, time and size of variance jumps', NUM,
   ['mdl_svcj/cond2_mom.py', 'mdl_svcj/cond2_cmom.py', 'ito_cond_mom.py'],
   [('combination with price-jump sums', 'mdl_svcj/cond2_cmom.py')]),
 P('C11', 'Exact moments of the contemporaneous-jump model (SVCJ), conditional and not',
   'For the SV model whose price and variance jump together, the returned moments and central moments of the return, given the initial '
   'variance and unconditionally, and the joint moments of the integrals they are built from, are exactly those of the process, identically in all parameters.',
   ['inputs'], ORD + ', every joint order of the six integrals', NUM,
   ['mdl_svcj/mom.py', 'mdl_svcj/cmom.py', 'mdl_svcj/cond_mom.py', 'mdl_svcj/cond_cmom.py', 'mdl_svcj/cond_ieii_ieziziz_mom.py', 'mdl_svcj/ieziziz_mom.py'],
   [('joint recursion', 'mdl_svcj/cond_ieii_ieziziz_mom.py'), ('jump integrals', 'mdl_svcj/ieziziz_mom.py')]),
 P('C12', 'Exact joint moments of the Ito integrals',
   'The joint moments of the square-root-weighted Ito integrals (one factor, one factor given realised jumps, two factors) returned for any '
   'joint order are exactly those of the integrals, identically in the rates, levels, horizon, initial values and jumps.',
   ['inputs'], 'every joint order, every number of realised jumps, every parameter vector', NUM,
   ['ito_mom.py', 'ito_cond_mom.py', 'itos_mom.py'],
   [('recursive integration', 'ito_mom.py'), ('recursive integration with jumps', 'ito_cond_mom.py'), ('two-factor recursion', 'itos_mom.py')]),
 P('C13', 'Exact moments of normal variables and compound Poisson sums',
   'The returned moments and central moments of a normal variable and of a compound Poisson sum of normal variables are exact for every order, '
   'identically in intensity, horizon, mean and deviation, and the two published algorithms agree.',
   ['inputs'], 'every order, every parameter vector', 'The tests look at a handful of low orders.',
   ['cpp_mom.py', 'utils.py'], [('moment recursion', 'cpp_mom.py')]),
 P('C14', 'Derivatives are the derivatives of the formulas',
   'Differentiating a returned moment formula with respect to any model parameter yields a formula equal to the exact partial derivative, '
   'including the dependence through exponentials, negative powers and the square root of 1-rho^2, and the numeric derivative functions of '
   'moments, central moments and covariances return its value.',
   ['inputs'], 'every formula (any combination of exponents), every parameter of differentiation, every parameter vector',
   'The tests compare a few derivatives with finite differences at one point.',
   ['mdl_1fsv/mom.py', 'mdl_1fsv/cmom.py', 'mdl_1fsv/cov.py', 'mdl_1fsvj/mom.py', 'mdl_1fsvj/cmom.py', 'mdl_1fsvj/cov.py',
    'mdl_2fsv/mom.py', 'mdl_2fsv/cmom.py', 'mdl_2fsv/cov.py', 'mdl_2fsvj/mom.py', 'mdl_2fsvj/cmom.py', 'mdl_2fsvj/cov.py'],
   [('term-wise differentiation', 'mdl_1fsv/mom.py')]),
 P('C15', 'Numeric evaluators return the value of the exact formula',
   'Evaluating a moment, central moment or covariance (or a derivative) numerically returns the exact value of the process quantity at those parameters up '
   'to floating-point rounding, for every model, order and admissible parameter vector, including boundary values (zero drift, zero intensity, '
   'correlation 0 or +-1, no jumps, a jump at the horizon) and integer-typed parameters.',
   ['inputs'], 'every order, parameter vector (interior and boundary), number type and jump configuration',
   'The tests evaluate at a single interior parameter vector per model.',
   ['mdl_1fsv/mom.py', 'mdl_1fsv/cond_cmom.py', 'mdl_2fsv/mom.py', 'mdl_srjd/cond_mom.py', 'mdl_srjd/cond2_mom.py', 'mdl_srjd/iez_cmom.py',
    'mdl_svvj/cond2_mom.py', 'mdl_svij/cond2_mom.py', 'mdl_svcj/cond2_mom.py', 'mdl_svcj/mom.py', 'utils.py'],
   [('term-wise evaluation', 'mdl_1fsv/mom.py'), ('evaluation over jump tuples', 'utils.py')]),
 P('C16', 'The polynomial type obeys polynomial algebra',
   'Sums, differences, products, scalar multiples, powers, merges and re-indexed products of polynomials equal the mathematical result as '
   'exact rational coefficient maps, introduce no zero coefficients, carry the right exponent names, never modify or share state with their operands, '
   'and refuse operands over different exponent names leaving them unchanged.',
   ['inputs', 'histories'], 'every pair of small polynomials, every sequence of operations up to a depth',
   'The tests exercise one or two sums and products of fixed polynomials.',
   ['poly.py'], [('dict-based sparse polynomial', 'poly.py')],
   state=[('coefficient map', 'exponent tuple -> exact rational coefficient', 'poly.py'), ('keyfor', 'names of exponents', 'poly.py')]),
 P('C17', 'Results do not depend on call history, interleaving or interruption',
   'Every formula or numeric function returns the same result whatever was computed before, whatever the caller did to previously returned '
   'objects, whatever other computation runs interleaved with it and whatever interrupted an earlier call; it never modifies its arguments.',
   ['histories', 'schedules', 'fault_sequences'], 'every call sequence up to a depth with mutation of results, every single preemption point, every single interruption point',
   'Each test calls a function once in a fresh state.',
   ['ito_mom.py', 'ito_cond_mom.py', 'itos_mom.py', 'cpp_mom.py', 'poly.py', 'mdl_srjd/mom.py', 'mdl_svcj/cond_ieii_ieziziz_mom.py'],
   [('recursion tables local to one call', 'ito_mom.py')]),
 P('C18', 'Exported formula files carry the exact formula',
   'Writing a formula to a text or CSV file and reading the file back reproduces exactly the same exponents and rational coefficients under the same '
   'column names; the file name gets the right extension, an existing file is replaced, and splitting a formula into several files partitions it exactly.',
   ['inputs', 'histories'], 'every formula of every model, including empty ones and ones with tuple-valued exponents',
   'The tests write one file and do not read it back.',
   ['utils.py', 'mdl_svvj/cond2_cmom.py'], [('writer', 'utils.py')]),
 P('C19', 'Simplification and combinatorial helpers preserve value',
   'Rewriting a formula (eliminating the square root of 1-rho^2, expanding compound symbols, cancelling exponentials, dropping a fixed column) never changes its value, and the '
   'combinatorial helpers return exactly the multinomial index sets, coefficients and double factorials they name.',
   ['inputs'], 'every small formula (all exponent combinations up to a bound), every small argument',
   'The tests check isolated values.',
   ['utils.py', 'mdl_1fsv/cond_cmom.py', 'mdl_svvj/cond2_cmom.py', 'mdl_srjd/mom.py', 'mdl_svcj/cmom.py'],
   [('helpers', 'utils.py')]),
 P('C20', 'Invalid requests are rejected with a clear error and leave no trace',
   'A negative order, an unknown parameter of differentiation, an unsupported simplification type or an unrepresentable formula is rejected by the documented error instead of '
   'returning a wrong value, for every public entry point that validates its input, and later valid calls are unaffected.',
   ['inputs', 'histories'], 'every validating entry point, every invalid argument position',
   'The tests call functions with valid arguments only.',
   ['poly.py', 'ito_mom.py', 'ito_cond_mom.py', 'itos_mom.py', 'cpp_mom.py', 'utils.py', 'mdl_1fsv/mom.py', 'mdl_srjd/iez_mom.py'],
   [('argument validation', 'ito_mom.py')]),
 P('C21', 'Simulators implement the documented discretisation path by path',
   'For every sequence of random draws, each simulator returns exactly the path the documented discretisation of its model yields: one output per requested observation, '
   'initial value and parameters as given, variance truncated at zero, jumps applied in the segment they fall in with the right sizes and correlation.',
   ['schedules', 'inputs', 'histories'], 'every sequence of draws over a small alphabet of outcomes, every number and placement of jumps, every small number of observations and steps',
   'The tests compare one long random path with moments within wide error bands.',
   ['mdl_1fsv/euler.py', 'mdl_1fsvj/euler.py', 'mdl_2fsv/euler.py', 'mdl_2fsvj/euler.py', 'mdl_srjd/euler.py', 'mdl_svvj/euler.py', 'mdl_svij/euler.py', 'mdl_svcj/euler.py'],
   [('Euler loop', 'mdl_1fsv/euler.py'), ('exact transition sampling', 'mdl_srjd/euler.py')]),
 P('C22', 'The models nest and their formulas are mutually consistent',
   'Formulas of different models and kinds agree wherever theory makes them equal: central moments are the binomial transform of moments, covariances are product moments minus '
   'products, setting jump intensity or jump sizes to zero recovers the model without jumps, and integrating a conditional formula over its condition recovers the unconditional one.',
   ['inputs'], ORD + ', every pair of related models', NUM,
   ['mdl_1fsv/mom.py', 'mdl_1fsvj/mom.py', 'mdl_2fsv/mom.py', 'mdl_svvj/cond2_mom.py', 'mdl_svij/cond2_mom.py', 'mdl_svcj/cond_mom.py', 'mdl_svcj/mom.py', 'mdl_srjd/mom.py'],
   [('independent derivations in each model module', 'mdl_svcj/cond_mom.py')]),
 P('C23', 'Exported names, module commands and examples deliver what they announce',
   'A function imported from the package or a model subpackage returns what the function of that name in its module returns. Running a module with python -m and any orders prints '
   'exactly the formula of the function and arguments it names (defaults included), under the column names that formula has, and the value it states for the stated '
   'parameters. The examples of the user guide and README give the documented results.',
   ['inputs'], 'every exported name, every module run as a command, every argument vector',
   'The tests import the functions from their own modules; no test runs a module as a command, uses a re-exported two-factor name or checks what is printed.',
   ['__init__.py', 'mdl_1fsv/__init__.py', 'mdl_2fsv/__init__.py', 'mdl_svvj/__init__.py', 'mdl_1fsv/mom.py', 'mdl_1fsv/cov.py', 'mdl_srjd/cond2_mom.py', 'mdl_svcj/cond2_mom.py'],
   [('re-exported names', '__init__.py'), ('main blocks of the modules', 'mdl_1fsv/mom.py')]),
]

MC = 'explicit-state exploration of the moment transition system; exact comparison of every computed formula with the explored model'
TECH = {
 'C14': 'exhaustive enumeration of exponent vectors x parameters against exact differentiation; derivative of explored model',
 'C15': 'exhaustive enumeration of a parameter/jump grid against the explored exact model evaluated in high precision',
 'C16': 'exhaustive enumeration of operation sequences on the real Poly against a reference state machine',
 'C17': 'exhaustive enumeration of call histories, preemption points and interruption points on the real code',
 'C18': 'exhaustive enumeration of formulas and write sequences, read back and compared',
 'C19': 'exhaustive enumeration of bounded inputs against a brute-force reference',
 'C20': 'exhaustive enumeration of invalid argument combinations on every validating entry point',
 'C21': 'exhaustive enumeration of draw sequences of the real simulators under a controlled random source, against a reference machine',
 'C23': 'exhaustive enumeration of exported names, command lines and argument vectors of the real package, output read back and compared',
 'C22': 'enumeration of all related formula pairs up to a bound, compared exactly as ring elements',
}
NOTE = ('Exact for every parameter value at every order within the bounds recorded in the evidence file; higher orders are not covered. '
        'Trusted: Ito\'s formula for the generators written in DESIGN.md, Python integers/fractions.')
NOTES = {
 'C14': 'Exact within the enumerated exponent range and orders; numeric derivative functions compared at enumerated points.',
 'C15': 'Decides every point of the enumerated grid to a tolerance derived from the magnitude of the summed terms; points off the grid are not covered.',
 'C16': 'Decides every operation sequence up to the stated depth over a small universe of polynomials.',
 'C17': 'Decides every history, single preemption (two preemptions for short calls) and single interruption within the bounds; more threads or preemptions are not explored.',
 'C18': 'Decides every formula and write sequence enumerated; file-system faults are not modelled.',
 'C19': 'Decides every input within the enumerated range.',
 'C20': 'Decides every invalid argument combination enumerated; only errors the code documents are required.',
 'C21': 'Decides every draw sequence over the alphabet up to the stated lengths; distributional correctness of numpy is trusted.',
 'C23': 'Decides every name and argument vector within the bound; that the named functions are right is decided by C01-C13.',
 'C22': 'Uses only the package\'s own formulas plus exact ring arithmetic, so it does not share assumptions with C01-C13.',
}


def main():
    sys.path.insert(0, os.path.join(V, 'mc'))
    import registry
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for d in L:
            f.write(json.dumps(d) + '\n')
    checks, na = [], []
    for d in L:
        pid = d['id']
        if pid not in registry.PROPS:
            na.append(dict(property=pid, reason='check under construction'))
            continue
        checks.append(dict(property=pid, quick_cmd=f'python3 check.py {pid} quick', thorough_cmd=f'python3 check.py {pid} thorough',
                           technique='model checking: ' + TECH.get(pid, MC), level=registry.PROPS[pid]['level'],
                           level_note=NOTES.get(pid, NOTE)))
    m = dict(version=1, setup_cmd='python3 -c "import sys; sys.exit(0)"', checks=checks, not_applicable=na,
             notes='Pure Python, nothing to build: every check imports the package from /repo/src at run time. No hooks in /repo.')
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
