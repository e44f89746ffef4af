BUGS=[]
def bug(id,prop,needs,breaks,edits,demo): BUGS.append(dict(id=id,prop=prop,needs=needs,breaks=breaks,edits=edits,demo=demo))
U='coniii/utils.py'; V='coniii/solvers.py'
PRE='''
import numpy as np, warnings
warnings.simplefilter('ignore')
from itertools import combinations
from coniii.utils import *
from coniii.solvers import *
from coniii.models import Ising, Potts3
'''
bug('c13-one-trailing-parameter','C13','a sparse set of parameters that leaves out exactly the last one',
 'the missing last parameter is not filled in, so the model is evaluated with a vector that is too short',
 [(V,'        if self.parameterIx[-1]<(nParams - 1):','        if self.parameterIx[-1]<(nParams - 2):')],
 PRE+'''
for n in (3,4):
    m = n*(n+1)//2
    for ix in [np.arange(m-k) for k in range(0,4)]+[np.array([0,m-2]), np.array([1,m-3])]:
        s = SparseEnumerate(n, parameter_ix=ix, iprint=False)
        full = s.fill_in(np.arange(1.,len(ix)+1))
        want = np.zeros(m); want[ix] = np.arange(1.,len(ix)+1)
        assert np.array_equal(full, want), (n, ix, full)
''')
bug('c13-logp-wrong-denominator','C13','estimating log-probabilities of a number of states that differs from the size of the model\'s sample',
 'the frequency is taken relative to the number of states asked about',
 [(V,'            p /= self.model.sample.shape[0]','            p /= sample.shape[0]')],
 PRE+'''
rng = np.random.RandomState(0)
X = rng.choice([-1,1], size=(50,3))
s = Enumerate(X, iprint=False)
s.model.sample = rng.choice([-1,1], size=(200,3))
q = np.array([[1,0,0],[0,-1,1],[0,0,0]])
want = [np.log(np.mean([(m[x!=0]==x[x!=0]).all() for m in s.model.sample])) for x in q]
assert np.allclose(s.logp(q), want), (s.logp(q), want)
''')
bug('c13-sparse-takes-first-constraints','C13','fitting a sparse set that is not a prefix of the parameters with constraints from the sample',
 'the constraints of the first parameters are used for the chosen ones',
 [(V,'''            constraints = self.constraints[self.parameterIx]

        # default solver routine''','''            constraints = self.constraints[:self.parameterIx.size]

        # default solver routine''')],
 PRE+'''
rng = np.random.RandomState(0)
X = np.where(rng.rand(400,3)<[.7,.4,.55], 1, -1)
ix = np.array([1,2,4])
s = SparseEnumerate(X, parameter_ix=ix, iprint=False)
p = s.solve()
full = np.zeros(6); full[ix] = p
assert np.allclose(Ising(np.zeros(6)).calc_observables(full)[ix], pair_corr(X, concat=True)[ix], atol=1e-6)
''')
bug('c12-stops-when-one-tolerance-is-met','C12','a sample where only one of the two tolerances is met',
 'Monte Carlo histogram estimation reports success although the other tolerance is not met',
 [(V,'            if (np.linalg.norm(errors[-1]) < tolNorm and\n','            if (np.linalg.norm(errors[-1]) < tolNorm or\n')],
 PRE+'''
rng = np.random.RandomState(0)
X = np.where(rng.rand(500,4)<[.8,.3,.6,.7], 1, -1)
s = MCH(X, sample_size=200, rng=np.random.RandomState(1), iprint=False)
for tol,norm in ((1e-9,100.), (100.,1e-9)):
    _, flag, err = s.solve(tol=tol, tolNorm=norm, n_iters=40, burn_in=40, maxiter=3, full_output=True)
    ok = np.linalg.norm(err[-1])<norm and (np.abs(err[-1])<tol).all()
    assert (flag==0)==ok, (tol, norm, flag)
''')
bug('c12-sparse-negative-steps-unlimited','C12','sparse learning whose change of a multiplier is strongly negative',
 'the limit on the size of a step applies to increases only',
 [(V,'''            if np.linalg.norm(dlamda) > maxdlamdaNorm or np.any(np.abs(dlamda) > maxdlamda):
                keepLearning = False
            elif learningSteps > maxLearningSteps:
                keepLearning = False

        self._multipliers += self.fill_in(dlamda)''','''            if np.linalg.norm(dlamda) > maxdlamdaNorm or np.any(dlamda > maxdlamda):
                keepLearning = False
            elif learningSteps > maxLearningSteps:
                keepLearning = False

        self._multipliers += self.fill_in(dlamda)''')],
 PRE+'''
rng = np.random.RandomState(0)
X = rng.choice([-1,1], size=(300,3))
s = SparseMCH(X, sample_size=100, parameter_ix=np.array([0,3]), rng=np.random.RandomState(1), iprint=False)
s._multipliers = np.zeros(6)
calls = []
s.mch_approximation = lambda sample, d: calls.append(d.copy()) or np.zeros(6)
s.model.sample = X
for sign in (1,-1):
    s._multipliers = np.zeros(6); calls.clear()
    s.learn_parameters_mch(np.zeros(2), sign*np.ones(2)*.25, maxdlamda=.4, maxdlamdaNorm=100, maxLearningSteps=30)
    n = len(calls)
    if sign==1: ref = n
    else: assert n==ref, (n, ref)
''')
bug('c12-distance-not-capped','C12','a sample whose observables are more than one away from the target',
 'steps are scaled by the distance even when it exceeds one, so they overshoot',
 [(V,'            dlamda += -(estConstraints - constraints) * np.min([distance,1.]) * eta\n            estConstraints = self.mch_approximation(self.model.sample.astype(np.int64), dlamda)\n','            dlamda += -(estConstraints - constraints) * distance * eta\n            estConstraints = self.mch_approximation(self.model.sample.astype(np.int64), dlamda)\n')],
 PRE+'''
rng = np.random.RandomState(0)
X = rng.choice([-1,1], size=(300,3))
s = MCH(X, sample_size=100, rng=np.random.RandomState(1), iprint=False)
s.model.sample = X
calls = []
s.mch_approximation = lambda sample, d: calls.append(d.copy()) or np.zeros(6)
s._multipliers = np.zeros(6)
t = np.ones(6)*.8
s.learn_parameters_mch(np.zeros(6), t, maxdlamda=1e3, maxdlamdaNorm=1e3, maxLearningSteps=3, eta=.1)
d = np.diff(np.array(calls), axis=0)
assert np.allclose(d, .08), d
''')
bug('c15-log-gradient-unweighted','C15','the logarithmic objective with its gradient, and states seen a different number of times',
 'the gradient weights every observed state alike',
 [(V,'''            objGrad[i] = ((gradcoef*np.exp(power)*count).sum() /
                          (np.exp(power)*count).sum())''','''            objGrad[i] = ((gradcoef*np.exp(power)).sum() /
                          (np.exp(power)).sum())''')],
 PRE+'''
from scipy.optimize import approx_fprime
X = np.array([[1,1,-1]]*5+[[-1,1,1]]*2+[[-1,-1,-1]])
s = MPF(X, calc_de=calc_de, iprint=False)
U, C = np.unique((X+1)//2, axis=0, return_counts=True)
A = s.list_adjacent_states(U, True)
p = np.array([.3,-.2,.1,.5,-.4,.2])
f, g = s.logK(U, C, A, p)
num = approx_fprime(p, lambda q: s.logK(U, C, A, q)[0], 1e-6)
assert np.allclose(g, num, atol=1e-4), (g, num)
''')
bug('c16-potts-field-gradient','C16','pseudo-likelihood of a Potts model with three or more states',
 'the gradient for a field also counts alternatives in which the spin takes neither its own nor that state',
 [(V,'                        sgn[notCurrentStateAndNoField] = 0\n','')],
 PRE+'''
import coniii.solvers as cs
rng = np.random.RandomState(0)
X = rng.randint(0, 3, size=(40,3))
from scipy.optimize import approx_fprime
got = {}
def fake(f, x0, **kw):
    x = rng.normal(size=len(x0))*.5
    got['g'] = f(x)[1]; got['n'] = approx_fprime(x, lambda y: f(y)[0], 1e-7)
    return {'x': x0}
cs.minimize = fake
c = define_potts_helper_functions(3)
h = define_pseudo_potts_helper_functions(3, 3)
s = Pseudo(X, model=Potts3([np.zeros(9),np.zeros(3)]), calc_observables=c[1], get_multipliers_r=h[0], calc_observables_r=h[1], k=3, iprint=False)
s.solve()
assert np.allclose(got['g'], got['n'], atol=1e-3), got
''')
bug('c16-potts-alternative-agreement','C16','pseudo-likelihood of a Potts model, a spin and a neighbour before it',
 'the alternative observables compare the spin with itself instead of its neighbour, so they never agree',
 [(U,'otherobs[kcounter][rowix,ixcounter] = X[rowix,i]==state','otherobs[kcounter][rowix,ixcounter] = X[rowix,j]==state')],
 PRE+'''
rng = np.random.RandomState(0)
n, k = 4, 3
X = rng.randint(0, k, size=(10,n))
mult, obsr = define_pseudo_potts_helper_functions(n, k)
p = rng.normal(size=n*k+n*(n-1)//2)
calc_e = define_potts_helper_functions(k)[0]
for r in range(n):
    m = mult(r, p)[0]
    o, others, st = obsr(r, X)
    E0 = calc_e(X, p)
    for x in range(k-1):
        Y = X.copy(); Y[:,r] = st[:,x]
        assert np.allclose(calc_e(Y, p)-E0, -others[x].dot(m)+o.dot(m)), (r, x)
''')
bug('c14-cluster-counted-again','C14','three or more spins, where the same union arises from several pairs of clusters',
 'a selected cluster is added once for every pair it is built from',
 [(V,'                        if (abs(deltaSgammaU) > T) and (gammaU not in clusters[size+1]):','                        if abs(deltaSgammaU) > T:')],
 PRE+'''
rng = np.random.RandomState(0)
X = bin_states(3, True)[rng.randint(0, 8, size=60)]
X = np.vstack((X, bin_states(3, True)))
s = ClusterExpansion(X, iprint=False)
m, ent, clusters, dS, dJ = s.solve(0., full_output=True)
for k in clusters:
    c = [tuple(x) for x in clusters[k]]
    assert len(c)==len(set(c)), clusters
assert np.allclose(Ising(np.zeros(6)).calc_observables(m), pair_corr(X, concat=True), atol=1e-3)
''')
bug('c22-generator-not-reset','C22','trying more than one strength with the generator reset (the default)',
 'one generator is seeded once and shared by all trials, so the objective depends on the order of the trials',
 [(V,'            get_rng = lambda rseed=rseed: np.random.RandomState(rseed)','            get_rng = lambda rng=np.random.RandomState(rseed): rng')],
 PRE+'''
rng = np.random.RandomState(0)
X = np.where(rng.rand(100,3)<.4, 1, -1)
s = RegularizedMeanField(X, sample_size=20, rng=np.random.RandomState(1), iprint=False)
states = []
def gen(*a, **k):
    states.append(s.model.rng.randint(2**31)); s.model.sample = X[:20]
s.model.generate_sample = gen
try:
    s.solve(n_grid_points=5, bracket=(0.,1.))
except Exception:
    pass
assert len(states)>=5 and len(set(states))==1, states
''')
bug('c22-bracket-neighbour','C22','a grid whose best point on the right is not the neighbour of the minimum',
 'the right end of the bracket is the neighbour of the best grid point, not the best point on that side',
 [(V,'gridBracket2 = xList[ gridMinIndex + 1 + np.argmin(funcList[gridMinIndex+1:]) ]','gridBracket2 = xList[ gridMinIndex + 1 ]')],
 PRE+'''
X = np.array([[1,-1],[-1,1],[1,1],[-1,-1]])
s = RegularizedMeanField(X, iprint=False)
assert tuple(s.bracket1d([0,1,2,3,4],[5,4,1,3,2]))==(1,2,4)
''')
