"""property id -> tasks, level, bounds"""
import p_formula as F

RING = ("equality is decided in the ring of Laurent polynomials over the model parameters, the horizon and "
        "exp(kh), so one comparison covers every parameter value at which the expressions are defined")
GEN = ("the process is a polynomial jump-diffusion whose extended generator is the one written in DESIGN.md "
       "(Ito's formula is trusted); orders above the bound are not covered")
PROPS = {}


def reg(pid, tasks, level='model_checking', bounds=None, assumptions=(), rule=''):
    PROPS[pid] = dict(tasks=tasks, level=level, bounds=bounds or {}, assumptions=list(assumptions), rule=rule)


A = (GEN, RING)
reg('C01', F.t_c01, bounds={'quick': 'orders 0..8; covariances and product moments with order sum <= 6, and (4,3), (3,4)',
                            'thorough': 'orders 0..9; order sum <= 8'}, assumptions=A)
reg('C02', F.t_c02, bounds={'quick': 'orders 0..10', 'thorough': 'orders 0..14'}, assumptions=A)
reg('C03', F.t_c03, bounds={'quick': 'orders 0..8; covariances and product moments with order sum <= 6, and (4,3), (3,4)',
                            'thorough': 'orders 0..9; order sum <= 8'}, assumptions=A)
K2 = (GEN, 'the two mean-reversion rates are fixed to up to three pairs of unrelated rationals (their reciprocals '
      'enter through arbitrary linear forms); everything else is symbolic')
reg('C04', F.t_c04, bounds={'quick': 'orders 0..5; order sum <= 5 (each <= 4 above 4); up to 3 pairs (k1,k2)',
                            'thorough': 'orders 0..6; order sum <= 6'}, assumptions=K2)
reg('C05', F.t_c05, bounds={'quick': 'orders 0..5; order sum <= 5 (each <= 4 above 4); up to 3 pairs (k1,k2)',
                            'thorough': 'orders 0..6; order sum <= 6'}, assumptions=K2)
reg('C06', F.t_c06, bounds={'quick': 'orders 0..10', 'thorough': 'orders 0..14'}, assumptions=A)
reg('C07', F.t_c07, bounds={'quick': 'orders 0..9 (0..10 for the jump integral); joint orders with sum <= 7',
                            'thorough': 'orders 0..12 (0..14 for the jump integral); joint orders with sum <= 9'}, assumptions=A)
NJ = ('the jump times and sizes are symbolic (every ordered configuration of up to N jumps in (0,h))',)
reg('C08', F.t_c08, bounds={'quick': 'orders 0..8, 0..6 jumps (order 3, 5: <=4, order 6: <=3, order 7: <=2, order 8: <=1)',
                            'thorough': 'orders 0..9, 0..8 jumps (order 5: <=5, order 6: <=4, order 7: <=3, order 8: <=2, order 9: <=1)'}, assumptions=A + NJ)
SVB = {'quick': 'orders 0..7, 0..5 jumps (order 4: <=4, order 5: <=3, order 6: <=2, order 7: 0)',
       'thorough': 'orders 0..8, 0..6 jumps (order 4: <=5, order 5: <=4, order 6: <=3, order 7: <=2, order 8: 0)'}
reg('C09', F.t_c09, bounds=SVB, assumptions=A + NJ)
reg('C10', F.t_c10, bounds=SVB, assumptions=A + NJ)
reg('C11', F.t_c11, bounds={'quick': 'orders 0..5; all joint orders of the six functionals with sum <= 5 (6 if no power exceeds 2), of the three '
                            'jump functionals with sum <= 7', 'thorough': 'orders 0..6; sums <= 6 and <= 9'}, assumptions=A)
reg('C12', F.t_c12, bounds={'quick': 'joint orders with sum <= 9 (one factor), <= 7 (given 0..3 jumps; 4 jumps: 6), <= 6 (two factors)',
                            'thorough': 'sums <= 10, <= 8 (0..3 jumps; 4, 5 jumps: 7), <= 7'}, assumptions=A)
reg('C13', F.t_c13, bounds={'quick': 'orders 0..20', 'thorough': 'orders 0..30'}, assumptions=A)

import p_deriv
reg('C14', p_deriv.tasks, bounds={
    'quick': 'all monomials with <=2 non-zero exponents in 1..3 (and <=3 for two factors), all pairs of colliding monomials; formulas '
             'of order <=5 (one factor), <=3 (two), lagged order sum <=4/<=3; numeric derivatives on a grid of 4-18 parameter vectors',
    'thorough': '<=3 non-zero exponents in 1..4; orders <=7/<=5'},
    assumptions=('two-factor rates fixed to unrelated rationals; everything else symbolic for the symbolic derivatives',))

import p_num
reg('C15', p_num.tasks, bounds={
    'quick': 'orders 0..5 (0..4 with two factors, contemporaneous jumps or given jumps; lagged order sum <=4); 8 base parameter vectors for '
             'every order, the full product of 2-4 values per parameter for orders <=2; 0..3 jumps incl. at 0, at the horizon, tied, unsorted (4 and 6 jumps up to order 2)',
    'thorough': 'orders up to 8'},
    assumptions=('tolerance 1e-10 relative + 1e-12 of the summed magnitude of the expanded terms',))

import p_poly
reg('C16', p_poly.tasks, bounds={
    'quick': 'all pairs of polynomials with <=2 terms over 4 exponents and 4 coefficients; every index map into <=3 columns; every operation '
             'sequence of length 2 and 3 over three registers from 3 start states (states revisited once)', 'thorough': 'same, larger intermediate polynomials'},
    assumptions=('polynomials over two exponent names stand for all (the operations treat names and columns uniformly)',))

import p_hist
reg('C17', p_hist.tasks, bounds={
    'quick': '198 calls: every pair (first result vandalised by its caller) and every triple over 17 calls that share machinery; every numeric '
             'function: every parameter changed in turn, in a new and in the same dictionary; two real threads: A preempted at the first '
             'occurrence of every executed source line (every executed line of short calls), B run to its end or itself preempted '
             '(short calls); interruption at every such line, then recomputation',
    'thorough': 'triples 198 x 198 x 17, quadruples over 17 calls; more occurrences of every line (all, up to 2000 events)'},
    assumptions=('preemption at source lines of the package; at most two threads and two preemptions',
                 'results compared by value (numbers to 1e-9)'))

import p_exp
reg('C18', p_exp.tasks, bounds={
    'quick': 'all formulas of <=3 terms over 13 column layouts, every formula of every model up to order 3-5, every write sequence of length <=3 '
             '(3 formulas, 2 names, 2 formats), every subset of 6 terms of levels 0..3 for splitting',
    'thorough': 'orders up to 5-7 and write sequences of length 4'},
    assumptions=('CSV quoting as read by the standard csv reader', 'file-system faults are not modelled'))

import p_help
reg('C19', p_help.tasks, bounds={
    'quick': 'every monomial with <=3 columns off zero (exponents up to 3-8), every pair of monomials of a smaller space; the formulas of the package up to '
             'order 4-6; all helper arguments up to 5 levels / total 7 / order 40; fZ up to 3 nested sums and 3 jumps incl. unsorted and tied; integrals of powers <=6',
    'thorough': '<=4 columns off zero, orders up to 5-8, totals up to 10, powers <=11'},
    assumptions=('value preservation is checked at three exact rational points that separate the columns',))

import p_err
_e = ('every invalid request of the catalogue (negative orders down to -5, all order tuples over -2..1 / -1..1 with a negative part, unknown names, unsupported '
      'simplifications, odd powers, mismatched columns, foreign operands, unequal levels), each alone, twice, before and after up to 6 valid calls of its module')
reg('C20', p_err.tasks, bounds={'quick': _e, 'thorough': _e}, assumptions=('only errors the code documents are required',))

import p_sim
reg('C21', p_sim.tasks, bounds={
    'quick': 'every sequence of draws over 2-3 outcomes per draw (up to 12 draws per run) of all nine simulators; 0..3 observations, 1..4 segments, 3 horizons, '
             '2-3 initial values (incl. 0), 2-4 parameter vectors, 11 jump configurations (at 0, at the horizon, on and off segment ends, several in one segment, tied)',
    'thorough': 'up to 18 draws per run'},
    assumptions=('numpy draws the distribution it names', 'the law of the output is compared, so the order of independent draws is free'))

import p_rel
reg('C22', p_rel.tasks, bounds={
    'quick': 'every instance of every relation: orders 0..6 (one factor; lagged order sum <=5), 0..4 (two factors, contemporaneous jumps), 0..8 (square-root jump '
             'diffusion), 0..10 (jump sums); given up to 3 jumps; averaging over up to 3 jumps (powers 0..3 of the intensity)',
    'thorough': 'orders 0..8, 0..5, 0..12, 0..14; up to 4 jumps'},
    assumptions=(RING, 'two-factor rates fixed to unrelated rationals'))

import p_api
reg('C23', p_api.tasks, bounds={
    'quick': 'every package-level name at all arguments of order <=4 (<=3 for two factors); every module as a command with every argument vector of total '
             'order <=5 (<=3 for two factors); every documented example', 'thorough': 'same'},
    assumptions=('the functions named are the ones C01-C13 decide',))
