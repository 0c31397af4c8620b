"""Splitting the workload over the processes: counting, packing, offsets."""
from .base import *

# own(ii): the process that receives sample ii.  It is pinned down by the search contracts below.
OWN = z3.Function('own', I, I)
# CNT(i, c) = number of samples among the first i that process c receives
CNT = z3.Function('cnt', I, I, I)
# PRE(x, c) = x[0] + ... + x[c-1]
AI = z3.ArraySort(I, I)
PRE = z3.Function('prefix', AI, I, I)

def fold(theta):
    return z3.If(theta >= HALFPI, PI - theta, theta)

def STEP(c0, th, cth, cores, c1):
    """c1 is where the linear search started at process c0 ends for co-latitude th"""
    up = And(c1 >= c0, FA([q], Imp(And(q > c0, q <= c1), th >= sel(cth, [q]))), Or(c1 == cores - 1, th < sel(cth, [c1 + 1])))
    down = And(c1 <= c0, FA([q], Imp(And(q > c1, q <= c0), th <= sel(cth, [q]))), Or(c1 == 0, th > sel(cth, [c1])))
    return And(c1 >= 0, c1 < cores, z3.If(th >= sel(cth, [c0]), up, down))

MARK = z3.Function('mark', I, B)      # true everywhere; only steers instantiation
FTH = z3.Function('folded_colatitude', I, R)      # of sample i
def own_axioms(cth, cores, n):
    """definition of own and cnt by recursion over the samples"""
    return [OWN(iv(-1)) == 0, FA([i], MARK(i), MARK(i)),
            FA([i], Imp(And(i >= 0, i < n), STEP(OWN(i - 1), FTH(i), cth, cores, OWN(i))), MARK(i)),
            FA([k], CNT(iv(0), k) == 0, CNT(iv(0), k)),
            FA([i, k], Imp(i >= 0, CNT(i + 1, k) == CNT(i, k) + z3.If(OWN(i) == k, 1, 0)), CNT(i + 1, k))]
def fth_axiom(pnt, n): return FA([i], Imp(rng(i, 0, n), FTH(i) == fold(pnt[5 * i + 1])), FTH(i), pnt[5 * i + 1])

def req_search(c):
    a, cores = c['corethetaarr'], c['this.cores']
    return [cores >= 1, a.n == cores, c['corenum'] >= 0, c['corenum'] < cores]

GREATER = Spec('convolver::ratiobetacalcgreatercm', ['corenum', 'theta', 'corethetaarr'], modifies=['corenum'],
    requires=req_search,
    ensures=lambda c: [('range', And(c['corenum'] >= c.old['corenum'], c['corenum'] < c['this.cores'])),
        ('stops', Or(c['corenum'] == c['this.cores'] - 1, c['theta'] < c['corethetaarr'][c['corenum'] + 1])),
        ('passed', FA([q], Imp(And(q > c.old['corenum'], q <= c['corenum']), c['theta'] >= c['corethetaarr'][q])))],
    loops={0: Loop(inv=lambda L: [('range', And(L['corenum'] >= L.old['corenum'], L['corenum'] < L['this.cores'])),
        ('passed', FA([q], Imp(And(q > L.old['corenum'], q <= L['corenum']), L['theta'] >= L['corethetaarr'][q])))],
        variant=lambda L: L['this.cores'] - L['corenum'])}, nloops=1)

SMALLER = Spec('convolver::ratiobetacalcsmallercm', ['corenum', 'theta', 'corethetaarr'], modifies=['corenum'],
    requires=req_search,
    ensures=lambda c: [('range', And(c['corenum'] <= c.old['corenum'], c['corenum'] >= 0)),
        ('stops', Or(c['corenum'] == 0, c['theta'] > c['corethetaarr'][c['corenum']])),
        ('passed', FA([q], Imp(And(q > c['corenum'], q <= c.old['corenum']), c['theta'] <= c['corethetaarr'][q])))],
    loops={0: Loop(inv=lambda L: [('range', And(L['corenum'] <= L.old['corenum'], L['corenum'] >= 0)),
        ('passed', FA([q], Imp(And(q > L['corenum'], q <= L.old['corenum']), L['theta'] <= L['corethetaarr'][q])))],
        variant=lambda L: L['corenum'])}, nloops=1)

FILL = Spec('convolver::fillingBetaSeg', ['pntarr', 'arrsize', 'ratiodeltas', 'corethetaarr', 'inBetaSeg'], modifies=['inBetaSeg'],
    requires=lambda c: [c['this.cores'] >= 1, c['corethetaarr'].n == c['this.cores'], c['arrsize'] >= 0, c['pntarr'].n >= 5 * c['arrsize']],
    defs=lambda c: [fth_axiom(c['pntarr'], c['arrsize'])] + own_axioms(c['corethetaarr'].raw(), c['this.cores'], c['arrsize']),
    ensures=lambda c: [('one count per process', c['inBetaSeg'].n == c['this.cores']),
        ('counts five numbers per sample of that process', FA([k], Imp(rng(k, 0, c['this.cores']), c['inBetaSeg'][k] == 5 * CNT(c['arrsize'], k)))),
        ('no process receives less than nothing', FA([k], Imp(rng(k, 0, c['this.cores']), CNT(c['arrsize'], k) >= 0), CNT(c['arrsize'], k)))],
    lemmas=lambda c: [Induct('counts are not negative', z3.Int('NI'), ([k], CNT(z3.Int('NI'), k) >= 0), pats=[CNT(z3.Int('NI'), k)])],
    loops={0: Loop(inv=lambda L: [('owner', And(L['corenum'] == OWN(L['ii'] - 1), rng(L['corenum'], 0, L['this.cores']))),
        ('dims', And(L['inBetaSeg'].n == L['this.cores'], L['ii'] >= 0, L['ii'] <= z3.If(L['arrsize'] >= 0, L['arrsize'], 0))),
        ('counts', FA([k], Imp(rng(k, 0, L['this.cores']), L['inBetaSeg'][k] == 5 * CNT(L['ii'], k))))], body_hints=lambda L: [MARK(L['ii'])])}, nloops=1)

SPECS = [GREATER, SMALLER, FILL]

# ---------------------------------------------------------------- packing
SC = z3.Function('sc', I, I, I)       # SC(i, c) = cnt(i,0) + ... + cnt(i,c-1)
POS = z3.Function('pos', I, I)        # position (in doubles) of sample ii in the packed buffer
NTH = z3.Function('nth', I, I, I)     # NTH(c, t): the t-th sample of process c
BLK = z3.Function('blk', I, I)        # the process whose block holds packed row s
SRC = z3.Function('src', I, I)        # sample stored in packed row s

ai_ = z3.Const('ai_', AI)
PREFIX = [FA([ai_], PRE(ai_, iv(0)) == 0, PRE(ai_, iv(0))), FA([ai_, k], Imp(k >= 0, PRE(ai_, k + 1) == PRE(ai_, k) + sel(ai_, [k])), PRE(ai_, k + 1))]
SRCDEF = lambda n: FA([i], SRC(i) == NTH(BLK(i), i - SC(n, BLK(i))), SRC(i))
SCDEF = [FA([i], SC(i, iv(0)) == 0, SC(i, iv(0))), FA([i, k], Imp(k >= 0, SC(i, k + 1) == SC(i, k) + CNT(i, k)), SC(i, k + 1))]
CELL = z3.Function('cell', I, I)      # packed row of sample i
CELLDEF = lambda n: FA([i], CELL(i) == SC(n, OWN(i)) + CNT(i, OWN(i)), CELL(i))

def pack_defs(n, cores, inseg):
    return [FA([i], SC(i, iv(0)) == 0, SC(i, iv(0))),
            FA([i, k], Imp(k >= 0, SC(i, k + 1) == SC(i, k) + CNT(i, k)), SC(i, k + 1)),
            FA([i], Imp(rng(i, 0, n), POS(i) == PRE(inseg, OWN(i)) + 5 * CNT(i, OWN(i))), POS(i)),
            FA([i], Imp(rng(i, 0, n), NTH(OWN(i), CNT(i, OWN(i))) == i), OWN(i)),
            FA([i, k], Imp(And(k >= 0, k < cores, SC(n, k) <= i, i < SC(n, k + 1)), BLK(i) == k), MP(BLK(i), SC(n, k))),
            FA([i], SRC(i) == NTH(BLK(i), i - SC(n, BLK(i))), SRC(i))]

def pack_lemmas(c):
    N, cores, a = c['totsize'], c['this.cores'], c['inBetaSeg'].raw()
    NI, K = z3.Int('NI'), z3.Int('K')
    A = own_axioms(c['corethetaarr'].raw(), cores, N)
    own0, mark, step, cnt0, cntstep = A
    sc0, scstep, posdef, nthdef, blkdef, srcdef = pack_defs(N, cores, a)
    pre0, prestep = PREFIX
    counts = FA([k], Imp(rng(k, 0, cores), c['inBetaSeg'][k] == 5 * CNT(N, k)))
    n0, c1 = N >= 0, cores >= 1
    inr = lambda i: rng(i, 0, N)
    return [
        Fact('owner is an existing process', FA([i], Imp(And(MARK(i), inr(i)), rng(OWN(i), 0, cores)), OWN(i)), only=[step, mark]),
        Fact('owner exists', FA([i], Imp(inr(i), rng(OWN(i), 0, cores)), OWN(i)), only=['owner is an existing process', mark]),
        Induct('counts never decrease', NI, ([j, k], Imp(And(j >= 0, j <= NI), And(CNT(j, k) <= CNT(NI, k), CNT(j, k) >= 0))),
               pats=[MP(CNT(j, k), CNT(NI, k))], only=[cnt0, cntstep]),
        Fact('a sample is counted', FA([i, j], Imp(And(i >= 0, i < j, j <= N), CNT(i, OWN(i)) + 1 <= CNT(j, OWN(i))), CNT(j, OWN(i))), only=[cntstep, 'counts never decrease']),
        Fact('next sample of the same process', FA([i, j], Imp(And(i >= 0, i < j, j < N, OWN(i) == OWN(j)), CNT(i, OWN(i)) + 1 <= CNT(j, OWN(j))), MP(OWN(i), OWN(j))), only=['a sample is counted']),
        Induct('column sums advance by one', K, ([i], Imp(inr(i), SC(i + 1, K) == SC(i, K) + z3.If(OWN(i) < K, 1, 0))), hi=cores, pats=[SC(i + 1, K)], only=[sc0, scstep, cntstep, 'owner exists']),
        Induct('no samples, no counts', K, SC(iv(0), K) == 0, hi=cores, pats=[SC(iv(0), K)], only=[sc0, scstep, cnt0]),
        Induct('all samples are counted', NI, SC(NI, cores) == NI, hi=N, pats=[SC(NI, cores)], only=['column sums advance by one', 'no samples, no counts', 'owner exists', c1]),
        Induct('prefix sums of the counts', K, PRE(a, K) == 5 * SC(N, K), hi=cores, pats=[PRE(a, K)], only=[pre0, prestep, sc0, scstep, counts]),
        Induct('prefix sums never decrease', K, ([j], Imp(And(j >= 0, j <= K), And(SC(N, j) <= SC(N, K), SC(N, j) >= 0))), hi=cores,
               pats=[MP(SC(N, j), SC(N, K))], only=[sc0, scstep, 'counts never decrease', n0]),
        Fact('size of a block', FA([i], Imp(inr(i), And(SC(N, OWN(i) + 1) == SC(N, OWN(i)) + CNT(N, OWN(i)), CNT(i, OWN(i)) + 1 <= CNT(N, OWN(i)), CNT(i, OWN(i)) >= 0)), OWN(i)),
             only=[scstep, 'owner exists', 'a sample is counted', 'counts never decrease']),
        Fact('a block ends inside', FA([i], Imp(inr(i), And(SC(N, OWN(i)) >= 0, SC(N, OWN(i) + 1) <= N)), OWN(i)), only=['owner exists', 'prefix sums never decrease', FA([i], SC(i, iv(0)) == 0, SC(i, iv(0))), 'all samples are counted', n0, c1, scstep]),
        Fact('position', FA([i], Imp(inr(i), POS(i) == 5 * SC(N, OWN(i)) + 5 * CNT(i, OWN(i))), POS(i)), only=[posdef, 'prefix sums of the counts', 'owner exists']),
        Fact('a packed row lies in its block', FA([i], Imp(inr(i), And(POS(i) >= 5 * SC(N, OWN(i)), POS(i) + 5 <= 5 * SC(N, OWN(i) + 1), POS(i) >= 0, POS(i) + 5 <= 5 * N)), POS(i)),
             only=['position', 'size of a block', 'a block ends inside']),
        Fact('blocks of different processes are disjoint', FA([i, j], Imp(And(inr(i), inr(j), OWN(i) < OWN(j)), SC(N, OWN(i) + 1) <= SC(N, OWN(j))), MP(OWN(i), OWN(j))), only=['owner exists', 'prefix sums never decrease', 'size of a block', scstep]),
        Fact('packed rows are disjoint', FA([i, j], Imp(And(i >= 0, i < j, j < N), Or(POS(i) + 5 <= POS(j), POS(j) + 5 <= POS(i))), MP(POS(i), POS(j))),
             only=['a packed row lies in its block', 'position', 'blocks of different processes are disjoint', 'next sample of the same process']),
        Induct('every counted sample exists', NI, ([k, j], Imp(And(j >= 0, j < CNT(NI, k)), And(rng(NTH(k, j), 0, NI), OWN(NTH(k, j)) == k, CNT(NTH(k, j), k) == j))), hi=N,
               pats=[MP(NTH(k, j), CNT(NI, k))], only=[cnt0, cntstep, nthdef]),
        Induct('every packed row is in a block', K, ([i], Imp(And(i >= 0, i < SC(N, K)), And(rng(BLK(i), 0, K), SC(N, BLK(i)) <= i, i < SC(N, BLK(i) + 1)))), hi=cores, pats=[MP(BLK(i), SC(N, K))],
               only=[sc0, scstep, blkdef]),
        Fact('block of a packed row', FA([i], Imp(inr(i), And(rng(BLK(i), 0, cores), SC(N, BLK(i)) <= i, i < SC(N, BLK(i)) + CNT(N, BLK(i)))), BLK(i)), only=['every packed row is in a block', 'all samples are counted', scstep, n0, c1]),
        Fact('a block and the rows before it fit', FA([k], Imp(rng(k, 0, cores), And(SC(N, k) >= 0, CNT(N, k) >= 0, SC(N, k) + CNT(N, k) <= N)), CNT(N, k)), only=['counts never decrease', 'prefix sums never decrease', 'all samples are counted', 'no samples, no counts', scstep, n0, c1]),
        Fact('every packed row holds a sample', FA([i], Imp(inr(i), And(rng(SRC(i), 0, N), POS(SRC(i)) == 5 * i)), SRC(i)), only=[srcdef, 'block of a packed row', 'every counted sample exists', 'position', n0]),
        Fact('cell of a sample', FA([i], Imp(inr(i), And(POS(i) == 5 * CELL(i), rng(CELL(i), 0, N))), CELL(i)), only=['position', 'a packed row lies in its block', CELLDEF(N)]),
        Fact('samples in different cells', FA([i, j], Imp(And(inr(i), inr(j), i != j), POS(i) != POS(j)), MP(POS(i), POS(j))), only=['packed rows are disjoint']),
        Fact('the sample of a cell', FA([i], Imp(inr(i), SRC(CELL(i)) == i), CELL(i)), only=['cell of a sample', 'samples in different cells', 'every packed row holds a sample']),
        Fact('the cell of the sample', FA([i], Imp(inr(i), And(rng(SRC(i), 0, N), CELL(SRC(i)) == i)), SRC(i)), only=['cell of a sample', 'every packed row holds a sample'])]

def redis_inv(L):
    a = L['inBetaSeg'].raw()
    src, dst = L['pntarr'], L['pntarr2']
    ii, N, cores = L['ii'], L['totsize'], L['this.cores']
    return [('owner', And(L['corenum'] == OWN(ii - 1), rng(L['corenum'], 0, cores))),
            ('dims', And(dst.n == 5 * N, L['offset2'].n == cores, ii >= 0, ii <= N, L['offset1'] == 5 * ii)),
            ('next free cell of every block', FA([k], Imp(rng(k, 0, cores), L['offset2'][k] == PRE(a, k) + 5 * CNT(ii, k)), L['offset2'][k])),
            ('legal so far', FA([j], Imp(rng(j, 0, ii), And(src[5 * j + 1] >= 0, src[5 * j + 1] <= PI)))),
            ('packed', FA([j], Imp(rng(j, 0, ii), And(*[dst[POS(j) + r] == src[5 * j + r] for r in range(5)])), POS(j)))]

def acc_inv(L):
    a, b = L['inBetaSeg'].raw(), L['outBetaSeg'].raw()
    x, y, ii = L['inBetaSegAcc'], L['outBetaSegAcc'], L['ii']
    return [('dims', And(x.n == L['this.cores'], y.n == L['this.cores'], ii >= 0)),
            ('sums', FA([k], Imp(rng(k, 0, ii), And(x[k] == PRE(a, k + 1), y[k] == PRE(b, k + 1))))),
            ('rest', FA([k], Imp(And(k >= ii, k < L['this.cores']), And(x[k] == 0, y[k] == 0))))]
def acc_inv2(L):
    a, b = L['inBetaSeg'].raw(), L['outBetaSeg'].raw()
    x, y, ii, jj = L['inBetaSegAcc'], L['outBetaSegAcc'], L['ii'], L['jj']
    return [('dims', And(x.n == L['this.cores'], y.n == L['this.cores'], jj >= 0, jj <= ii + 1)),
            ('partial', And(x[ii] == PRE(a, jj), y[ii] == PRE(b, jj))),
            ('sums', FA([k], Imp(rng(k, 0, ii), And(x[k] == PRE(a, k + 1), y[k] == PRE(b, k + 1))))),
            ('rest', FA([k], Imp(And(k > ii, k < L['this.cores']), And(x[k] == 0, y[k] == 0))))]
def off_inv(L):
    a, b = L['inBetaSeg'].raw(), L['outBetaSeg'].raw()
    x, y = L['inOffset'], L['outOffset']
    return [('dims', And(x.n == L['this.cores'], y.n == L['this.cores'], L['ii'] >= 1)),
            ('offsets', FA([k], Imp(And(k >= 0, k < L['ii'], k < L['this.cores']), And(x[k] == PRE(a, k), y[k] == PRE(b, k)))))]

def offsets_ok(c):
    a, b = c['inBetaSeg'].raw(), c['outBetaSeg'].raw()
    C = c['this.cores']
    return [('sizes', And(c['inOffset'].n == C, c['outOffset'].n == C, c['inBetaSegAcc'].n == C, c['outBetaSegAcc'].n == C)),
            ('a block starts where the blocks before it end', FA([k], Imp(rng(k, 0, C), And(c['inOffset'][k] == PRE(a, k), c['outOffset'][k] == PRE(b, k))))),
            ('the receive buffer holds all announced data', c['outBetaSegSize'] == PRE(b, C))]

def legal(c, n):
    a = c['pntarr']
    return FA([j], Imp(rng(j, 0, n), And(a[5 * j + 1] >= 0, a[5 * j + 1] <= PI)))

REDIS = Spec('convolver::todRedistribution5cm',
    ['pntarr', 'inBetaSeg', 'outBetaSeg', 'inBetaSegAcc', 'outBetaSegAcc', 'outBetaSegSize', 'pntarr2', 'totsize', 'inOffset', 'outOffset', 'ratiodeltas', 'corethetaarr'],
    modifies=['inBetaSegAcc', 'outBetaSegAcc', 'outBetaSegSize', 'pntarr2', 'inOffset', 'outOffset'],
    requires=lambda c: [c['this.cores'] >= 1, c['corethetaarr'].n == c['this.cores'], c['totsize'] >= 0, c['pntarr'].n >= 5 * c['totsize'],
            c['inBetaSeg'].n == c['this.cores'], c['outBetaSeg'].n == c['this.cores'],
            FA([k], Imp(rng(k, 0, c['this.cores']), c['inBetaSeg'][k] == 5 * CNT(c['totsize'], k)))]
        + [fth_axiom(c['pntarr'], c['totsize'])] + own_axioms(c['corethetaarr'].raw(), c['this.cores'], c['totsize']),
    axioms=lambda c: PREFIX, defs=lambda c: pack_defs(c['totsize'], c['this.cores'], c['inBetaSeg'].raw()) + [CELLDEF(c['totsize'])],
    lemmas=pack_lemmas,
    ensures=lambda c: offsets_ok(c) + [
        ('every sample is packed whole into its own cell', Imp(c['totsize'] > 0, And(c['pntarr2'].n == 5 * c['totsize'],
            FA([j], Imp(rng(j, 0, c['totsize']), And(*[c['pntarr2'][POS(j) + r] == c['pntarr'][5 * j + r] for r in range(5)])), POS(j))))),
        ('cells and samples', FA([i], Imp(rng(i, 0, c['totsize']), And(rng(SRC(i), 0, c['totsize']), CELL(SRC(i)) == i)), SRC(i))),
        ('samples and cells', FA([i], Imp(rng(i, 0, c['totsize']), And(rng(CELL(i), 0, c['totsize']), SRC(CELL(i)) == i)), CELL(i))),
        ('the rows of the packed buffer', Imp(c['totsize'] > 0, FA([i], Imp(rng(i, 0, c['totsize']), And(*[c['pntarr2'][5 * i + r] == c['pntarr'][5 * SRC(i) + r] for r in range(5)])), SRC(i), *[c['pntarr2'][5 * i + r] for r in range(5)]))),
        ('block of a packed row', FA([i], Imp(rng(i, 0, c['totsize']), And(rng(BLK(i), 0, c['this.cores']), SC(c['totsize'], BLK(i)) <= i, i < SC(c['totsize'], BLK(i)) + CNT(c['totsize'], BLK(i)))), BLK(i))),
        ('blocks', FA([k], Imp(rng(k, 0, c['this.cores']), And(c['inOffset'][k] == 5 * SC(c['totsize'], k), c['inBetaSeg'][k] == 5 * CNT(c['totsize'], k), CNT(c['totsize'], k) >= 0, SC(c['totsize'], k) >= 0, SC(c['totsize'], k) + CNT(c['totsize'], k) <= c['totsize'])), CNT(c['totsize'], k))),
        ('only legal co-latitudes pass', Imp(c['totsize'] > 0, legal(c, c['totsize'])))],
    exsures=lambda c: [('refused only for an illegal co-latitude', Not(legal(c, c['totsize'])))],
    throws_ok=lambda w: 'alloc' in w,
    loops={0: Loop(inv=acc_inv), 1: Loop(inv=acc_inv2), 2: Loop(inv=off_inv), 3: Loop(inv=redis_inv, body_hints=lambda L: [MARK(L['ii']), MARK(POS(L['ii']))])}, nloops=4)
SPECS.append(REDIS)
_P = [s.key for s in SPECS]
PROPS = dict(C01=_P, C02=_P, C03=_P, C04=_P[-2:])
