BUGS=[]
def bug(id,prop,needs,breaks,edits,demo): BUGS.append(dict(id=id,prop=prop,needs=needs,breaks=breaks,edits=edits,demo=demo))
U='coniii/utils.py'; V='coniii/solvers.py'; E='coniii/enumerate.py'; P='coniii/enumerate_potts.py'; M='coniii/mean_field_ising.py'
I='coniii/ising/utils.py'; A='coniii/ising/automaton.py'; MO='coniii/models.py'
PRE='''
import numpy as np, warnings
warnings.simplefilter('ignore')
from itertools import combinations, product
from coniii.utils import *
'''
bug('c06-logsumexp-first-term','C06','large multipliers whose first enumerated state is far from the most probable one',
 'the exponentials are shifted by the first term instead of the largest, so they overflow',
 [(E,'''    Xmx = max(X)
    if coeffs is None:
        y = np.exp(X-Xmx).sum()''','''    Xmx = X[0]
    if coeffs is None:
        y = np.exp(X-Xmx).sum()''')],
 PRE+'''
from coniii.ising_eqn import ising_eqn_3_sym as q
h = np.array([-400., 300., 500., 1., 2., 3.])
for s in (h, -h):
    c = q.calc_observables(s)
    assert np.isfinite(c).all() and np.allclose(c[:3], np.sign(s[:3])), c
''')
bug('c06-triplet-all-down','C06','an equation file with triplet interactions in the {-1,1} basis, states with three spins down in a triplet',
 'the triplet term of states with all three spins down has the wrong sign',
 [(E,'''    for i in range(len(subix[0])):
        if np.mod( sum([binstate[k[j]]=="1" for k in subix]),2 ):
            s += '-\'''','''    for i in range(len(subix[0])):
        if sum([binstate[k[j]]=="1" for k in subix])==1:
            s += '-\'''')],
 PRE+'''
from coniii.enumerate import get_terms11
t = get_terms11([(0,),(1,),(2,)], 'K', '111', '[]', 0)
assert t=='-K[0]', t
assert get_terms11([(0,),(1,),(2,)], 'K', '110', '[]', 0)=='+K[0]'
''')
bug('c06-potts-letters','C06','a Potts equation file with more than ten states',
 'labels above 9 are not recognised, so their averages come out as zero',
 [(P,"if int(s[i], 36)==k:","if s[i]==str(k):")],
 PRE+'''
import io, re
from coniii.enumerate_potts import SpecificFieldGenericCouplings
from coniii.enumerate import fast_logsumexp
n, k = 3, 11
f = io.StringIO(); SpecificFieldGenericCouplings(n, k)._write_correlations(f)
ns = dict(zeros=np.zeros, exp=np.exp, fast_logsumexp=fast_logsumexp)
exec(f.getvalue(), ns)
o = ns['calc_observables'](np.zeros(n*k+3))
assert np.allclose(o[:n*k], 1/k), o
''')
bug('c06-high-precision-lost','C06','the high-precision equations with multipliers so large that probabilities fall below double precision',
 'exponentials are evaluated in double precision, small probabilities and the digits beyond 16 are lost',
 [(E,"        y = np.array(coeffs).dot(list(map(mp.exp, X-Xmx)))","        y = np.array(coeffs).dot([mp.mpf(float(mp.exp(x))) for x in X-Xmx])")],
 PRE+'''
from coniii.enumerate import mp_fast_logsumexp
import mpmath as mp
x = np.array([mp.mpf(0), mp.mpf(-2000)])
v, s = mp_fast_logsumexp(x, [0,1])
assert abs(v+2000)<1e-6, v
''')
bug('c18-basin-changes-caller','C18','a start given as int8, the type the descent works in',
 'the descent runs in the caller\'s own array',
 [(I,"        thisState = s.astype(np.int8)","        thisState = s.astype(np.int8, copy=False)")],
 PRE+'''
from coniii.ising.utils import Ising
m = Ising(3, h=[1.,1.,1.], J=[.1,.2,.3])
s = np.array([-1,-1,-1], dtype=np.int8)
b = m.find_basin(s)
assert (b==1).all() and (s==-1).all(), (b, s)
''')
bug('c18-first-improving-flip','C18','a state with several improving flips of which the first is not the best',
 'the first improving flip is taken instead of the steepest one',
 [(I,"                ix = dE.argmin()","                ix = (dE<0).argmax()")],
 PRE+'''
from coniii.ising.utils import Ising
m = Ising(3, h=[.1,1.,1.], J=[-2.,0.,0.])
b = m.find_basin(np.array([-1,-1,-1]))
assert list(b)==[-1,1,1], b
''')
bug('c18-lattice-wrap-other-side','C18','a lattice that is taller than wide',
 'the neighbour above wraps at the width of the lattice instead of its height',
 [(A,"if lattice[(i-1)%dim[0],j]==lattice[i,j]:","if lattice[(i-1)%dim[1],j]==lattice[i,j]:")],
 PRE+'''
from coniii.ising.automaton import Ising2D
for i in range(4):
    for j in range(3):
        for r in range(4):
            L = np.ones((4,3), dtype=np.int8)
            if r not in ((i-1)%4, (i+1)%4, i): L[r,j] = -1
            L = Ising2D.flip_metropolis(i, j, -80., 30., L)   # all four neighbours agree: dE = 240 - 160
            assert L[i,j]==1, (i, j, r)
''')
bug('c18-random-lattice-field-transposed','C18','random updates on a lattice with local fields that are not symmetric',
 'the field of the mirrored site is used',
 [(A,'''                    i, j=np.random.randint(dim[0]), np.random.randint(dim[1])
                    flip_metropolis(i, j, h[i,j], J, lattice)''','''                    i, j=np.random.randint(dim[0]), np.random.randint(dim[1])
                    flip_metropolis(i, j, h[j,i], J, lattice)''')],
 PRE+'''
from coniii.ising.automaton import Ising2D
h = np.zeros((3,3)); h[0,1] = h[0,2] = h[1,2] = 40; h[1,0] = h[2,0] = h[2,1] = -40
L = Ising2D((3,3), 0., h=h, rng=np.random.RandomState(0))
L.iterate(2000, systematic=False)
assert (L.lattice[h>0]==1).all() and (L.lattice[h<0]==-1).all(), L.lattice
''')
bug('c19-embed-sorted-cluster','C19','a cluster whose indices are not in increasing order',
 'couplings of an unordered cluster are put at the wrong columns of the full matrix',
 [(M,"        for j,jFull in enumerate(cluster):","        for j,jFull in enumerate(sorted(cluster)):")],
 PRE+'''
from coniii.mean_field_ising import JfullFromCluster
J = np.arange(9.).reshape(3,3)
F = JfullFromCluster(J, [2,0,3], 5)
for i,a in enumerate([2,0,3]):
    for j,b in enumerate([2,0,3]): assert F[a,b]==J[i,j]
''')
bug('c19-prior-not-per-sample','C19','the mean-field expression with a prior',
 'the strength of the prior is not divided by the number of samples',
 [(M,"            gamma = meanFieldPriorLmbda / numSamples\n","            gamma = meanFieldPriorLmbda\n")],
 PRE+'''
from coniii.mean_field_ising import SmeanField
c = np.array([[.4,.1],[0,.3]])
a = SmeanField([0,1], c, meanFieldPriorLmbda=1., numSamples=10)
b = SmeanField([0,1], c, meanFieldPriorLmbda=10., numSamples=100)
assert np.isclose(a[0],b[0]) and np.allclose(a[1],b[1])
''')
bug('c19-stability-largest-signed','C19','couplings whose dominating eigenvalue is negative',
 'the largest signed eigenvalue is used instead of the largest in magnitude',
 [(M,"    stabilityValue = max(abs( scipy.linalg.eigvals(m) ))","    stabilityValue = max(scipy.linalg.eigvals(m).real)")],
 PRE+'''
from coniii.mean_field_ising import meanFieldStability
J = np.ones((3,3))-np.eye(3); f = np.array([.5,.5,.5])
# -2*J*f*(1-f) = -.5*(ones-eye): eigenvalues -1, .5, .5
assert np.isclose(meanFieldStability(J, f), 1.), meanFieldStability(J, f)
''')
bug('c19-fourth-order-skips','C19','fourth-order averages of three or more variables where the second pair starts between the first',
 'pairs that start before the end of the other pair are left at zero',
 [(M,"            for m in range(i,ell):","            for m in range(j,ell):")],
 PRE+'''
from coniii.mean_field_ising import fourthOrderCoocMat, diagFlatIndex
X = np.ones((2,4), dtype=int)
assert (fourthOrderCoocMat(X)==1).all()
''')
bug('c19-minimum-size-exclusive','C19','exact sums restricted to states with a minimum number of active variables',
 'states of exactly the minimum size are left out',
 [(M,"if sum(x)>=minSize]","if sum(x)>minSize]")],
 PRE+'''
from coniii.mean_field_ising import fightPossibilities
assert len(fightPossibilities(4,2))==11
''')
bug('c03-inner-digit-one-then-zeros','C03','a base above ten and a number with a digit one followed by zeros inside',
 'an exact power is not taken out, the following digit becomes as large as the base',
 [(U,'''        if baseToExp>i:
            rep.append('0')
        else:
            term = int(i/baseToExp)
            rep.append(ALPHANUM[term])''','''        if baseToExp>=i:
            rep.append('0')
        else:
            term = int(i/baseToExp)
            rep.append(ALPHANUM[term])''')],
 PRE+'''
for b in (11,12,20,35):
    for i in range(1,b**2*2):
        assert int(''.join(base_repr(i, b)), 36 if False else b)==i, (i, b)
''')
bug('c15-weights-by-distinct-states','C15','repeated states and the objective without logarithm',
 'the objective is divided by the number of distinct states instead of the number of samples',
 [(V,"            return obj / Xcount.sum(), objGrad / Xcount.sum()","            return obj / len(Xcount), objGrad / len(Xcount)")],
 PRE+'''
from coniii.solvers import MPF
X = np.array([[1,-1,1]]*3+[[-1,-1,1]])
s = MPF(X, calc_de=calc_de, calc_observables=define_ising_helper_functions()[1], iprint=False)
u, c = np.unique((X+1)//2, axis=0, return_counts=True)
K, g = s.K(u, c, s.list_adjacent_states(u, True), np.zeros(6))
assert np.isclose(K, 3.), K
''')
bug('c11-triplet-probabilities-stale','C11','replacing the multipliers of a triplet model and asking for probabilities',
 'the probabilities remain those of the first multipliers',
 [(MO,'''            self.calc_p = lambda x=self.multipliers: self._calc_p(x)
#end Triplet''','''            self.calc_p = self.__dict__.get('calc_p') or (lambda x=self.multipliers: self._calc_p(x))
#end Triplet''')],
 PRE+'''
from coniii.models import Triplet
m = Triplet([np.zeros(5), np.zeros(10), np.zeros(10)])
a = m.calc_p()
m.set_multipliers(np.ones(25)*.3)
assert not np.allclose(a, m.calc_p()) and np.allclose(m.calc_p(), m.calc_p(np.ones(25)*.3))
''')
bug('c12-distance-not-capped','C12','an approximated set of averages further than one in norm from the constraints in the middle of learning',
 'the step length grows with the distance instead of being limited to one',
 [(V,"            dlamda += -(estConstraints - constraints) * np.min([distance,1.]) * eta\n            #dMult","            dlamda += -(estConstraints - constraints) * distance * eta\n            #dMult")],
 PRE+'''
from coniii.solvers import MCH
X = np.random.RandomState(0).choice([-1,1], size=(20,3))
s = MCH(X, sample_size=1000, iprint=False)
s._multipliers = np.zeros(6); s.model.sample = X
c = np.zeros(6)
s.mch_approximation = lambda sample, d: c+1.
s.learn_parameters_mch(c+1., c, maxdlamda=1e9, maxdlamdaNorm=1e9, maxLearningSteps=3, eta=.1)
assert np.allclose(s._multipliers, -.4), s._multipliers
''')
