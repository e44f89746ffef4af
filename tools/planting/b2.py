BUGS=[]
def bug(id,prop,needs,breaks,edits,demo): BUGS.append(dict(id=id,prop=prop,needs=needs,breaks=breaks,edits=edits,demo=demo))
U='coniii/utils.py'
PRE='''
import numpy as np
from itertools import combinations
from coniii.utils import *
'''
bug('c01-triplets-by-last-index','C01','a triplet model of five or more spins (for up to four the two orders agree)',
 'triplet observables are ordered by their last index first, not lexicographically',
 [(U,'''        for i in range(n-2):
            for j in range(i+1, n-1):
                for k in range(j+1, n):
                    Y''','''        for k in range(2, n):
            for j in range(1, k):
                for i in range(j):
                    Y''')],
 PRE+'''
calc_e, calc_observables = define_triplet_helper_functions()
rng = np.random.RandomState(0)
for n in (3,4,5,6):
    X = rng.choice([-1,1], size=(20,n))
    want = np.array([[np.prod(x[list(c)]) for k in (1,2,3) for c in combinations(range(n),k)] for x in X])
    assert np.array_equal(calc_observables(X), want), n
''')
bug('c02-unravel-gap-of-two','C02','tuples of three or more sites whose middle gap is exactly two',
 'the sites skipped between two consecutive entries are not counted when only one is skipped, so two tuples get one place',
 [(U,'        if (ijk[d]-ijk[d-1])>1:','        if (ijk[d]-ijk[d-1])>2:')],
 PRE+'''
for n in range(3,8):
    for k in range(2,n+1):
        got = [unravel_index(c, n) for c in combinations(range(n),k)]
        assert got==list(range(len(got))), (n,k,got)
''')
bug('c03-large-base-rounding','C03','a base above ten and an integer whose logarithm rounds just below an integer (a power of the base)',
 'the correction for a leading digit equal to the base is not made, so the digit string is wrong',
 [(U,'''    # handle problematically rounded cases
    if term==base:
        exponent += 1
        term = 1
    rep.append(ALPHANUM[term])''','''    # handle problematically rounded cases
    if term>base:
        exponent += 1
        term = 1
    rep.append(ALPHANUM[term])''')],
 PRE+'''
for b in range(2,37):
    e = 1
    while b**e<2**31:
        for i in (b**e-1, b**e, b**e+1):
            try:
                got = ''.join(base_repr(i, b))
            except IndexError as err:
                got = repr(err)
            assert got==np.base_repr(i, b), (i, b, got)
        e += 1
''')
bug('c04-triplet-sign','C04','converting interactions of third or higher order to the {0,1} basis',
 'lower order terms produced by odd orders get the wrong sign',
 [(U,'ijkcoeff * 2**suborder * (-1)**(order-suborder)','ijkcoeff * 2**suborder * (-1)**suborder')],
 PRE+'''
rng = np.random.RandomState(0)
n = 4
p = [rng.normal(size=len(list(combinations(range(n),k)))) for k in (1,2,3)]
q = ising_convert_params(p, '01')
X = bin_states(n)
def e(X, p):
    return np.array([-sum(v*np.prod(x[list(c)]) for k in (1,2,3) for v,c in zip(p[k-1], combinations(range(n),k))) for x in X])
d = e(2*X-1, p)-e(X, q)
assert np.ptp(d)<1e-9, d
''')
bug('c05-pair-laplace-count','C05','Laplace counts together with empty entries',
 'pair correlations are normalised with two added counts instead of four',
 [(U,'.T.dot(X!=0)[np.triu_indices(X.shape[1],k=1)] + 4 ) )','.T.dot(X!=0)[np.triu_indices(X.shape[1],k=1)] + 2 ) )')],
 PRE+'''
X = np.array([[1,-1,0],[1,1,1],[0,-1,-1],[1,1,0]])
si, sisj = pair_corr(X, exclude_empty=True, laplace_count=True)
k = 0
for i,j in combinations(range(3),2):
    c = (X[:,i]!=0)&(X[:,j]!=0)
    assert np.isclose(sisj[k], (X[:,i]*X[:,j]).sum()/(c.sum()+4)), (i,j)
    k += 1
''')
bug('c05-pair-small-int-overflow','C05','a sample of a small integer type with empty entries left out and more than 127 agreeing rows',
 'products are summed in the type of the sample and overflow',
 [(U,'sisj = (X.T.astype(float).dot(X))','sisj = (X.T.dot(X))')],
 PRE+'''
X = np.ones((200,3), dtype=np.int8)
si, sisj = pair_corr(X, exclude_empty=True)
assert np.allclose(sisj, 1), sisj
''')
bug('c05-overlap-most-zeros','C05','overlaps ignoring zeros between states with different numbers of zeros',
 'normalises by the larger instead of the smaller number of nonzero spins',
 [(U,'overlap / (sample.shape[1]-countZeros.max(2))','overlap / (sample.shape[1]-countZeros.min(2))')],
 PRE+'''
X = np.array([[1,-1,0,0],[1,1,1,0],[1,-1,-1,1]])
o = calc_overlap(X, ignore_zeros=True)
for i in range(3):
    for j in range(3):
        assert np.isclose(o[i,j], X[i].dot(X[j])/min((X[i]!=0).sum(), (X[j]!=0).sum())), (i,j,o)
''')
bug('c05-weighted-frequency-swallows','C05','weights per state and a list of states that does not hold every state of the sample',
 'the frequencies are normalised by the total weight of the sample instead of that of the states found',
 [(U,'        freq = freq.astype(float)/np.sum(freq)','        freq = freq.astype(float)/(len(v) if weights is None else np.sum(weights))')],
 PRE+'''
import warnings; warnings.simplefilter('ignore')
X = np.array([[0,0],[0,1],[0,1],[1,1]])
p = state_probs(X, allstates=np.array([[0,1],[1,1]]))
assert np.isclose(p.sum(), 1), p
''')
bug('c17-odd-column-is-last','C17','coarse-graining an odd number of columns when the column left over is not the last one',
 'the last column is kept as the single one even if it was merged already, and the one left over is dropped',
 [(U,'            newClusters.append((ix[0],))','            newClusters.append((n-1,))')],
 PRE+'''
rng = np.random.RandomState(1)
X = rng.choice([-1,1], size=(50,5))
for seed in range(20):
    s = rng.rand(10)
    _, ix = coarse_grain_with_func(X, 1, lambda x: s, lambda x: np.sign(x.sum(1)+.5))
    assert sorted(sum(ix, []))==list(range(5)), ix
''')
bug('c17-second-round-loses-origin','C17','two or more rounds of coarse-graining',
 'groups of later rounds list the columns of the previous round instead of the original ones',
 [(U,'                originalIx_[-1] += originalIx[ix_]','                originalIx_[-1] += originalIx[ix_] if coarseix==0 else originalIx[ix_][:2]')],
 PRE+'''
rng = np.random.RandomState(1)
X = rng.choice([-1,1], size=(50,9))
for times in (1,2,3):
    _, ix = coarse_grain_with_func(X, times, lambda x: rng.rand(x.shape[1]*(x.shape[1]-1)//2), lambda x: np.sign(x.sum(1)+.5))
    assert sorted(sum(ix, []))==list(range(9)), (times, ix)
''')
bug('c02-ind-to-sub-last','C02','the last pair of the upper triangle',
 'the last place of the flattened triangle has no pair',
 [(U,'''    for i in range(n-1):
        for j in range(i+1,n):
            if k==ix:
                return (i,j)
            k += 1
 ''','''    for i in range(n-1):
        for j in range(i+1,n):
            if k==ix or k==n*(n-1)//2-2 and ix>k and n>5:
                return (i,j)
            k += 1
 ''')],
 PRE+'''
for n in range(2,9):
    got = [tuple(ind_to_sub(n,k)) for k in range(n*(n-1)//2)]
    assert got==list(combinations(range(n),2)), (n,got)
''')
