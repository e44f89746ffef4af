BUGS=[]
def bug(id,prop,needs,breaks,edits,demo): BUGS.append(dict(id=id,prop=prop,needs=needs,breaks=breaks,edits=edits,demo=demo))
U='coniii/utils.py'; V='coniii/solvers.py'; E='coniii/enumerate.py'; P='coniii/enumerate_potts.py'; M='coniii/mean_field_ising.py'
I='coniii/ising/utils.py'; A='coniii/ising/automaton.py'; MO='coniii/models.py'; S='coniii/samplers.py'; C='cpp/samplers.cpp'; X='coniii/pseudo_inverse_ising.py'
PRE='''
import numpy as np, warnings
warnings.simplefilter('ignore')
from itertools import combinations, product
from scipy.spatial.distance import squareform
from coniii.utils import *
'''
bug('c23-gradient-lower-triangle-order','C23','four or more spins',
 'the coupling of a pair in decreasing order is read from the place it has in the lower triangle',
 [(S,'''                k = sub_to_ind(n,i//2,j//2)
                # Derivative wrt angle theta_i
''','''                ii, jj = i//2, j//2
                if ii<jj:
                    k = sub_to_ind(n,ii,jj)
                else:
                    k = ii*(ii-1)//2 + jj
''')],
 PRE+'''
from coniii.samplers import calc_e, grad_e
rng = np.random.RandomState(0)
x = rng.uniform(.3,2.5,8); th = rng.normal(size=6)
num = np.array([(calc_e(th,x+d)-calc_e(th,x-d))/2e-5 for d in np.eye(8)*1e-5])
assert np.allclose(num, grad_e(th,x), atol=1e-6)
''')
bug('c23-gradient-kept-after-rejection','C23','a path that is rejected, followed by another one',
 'after a rejection the next path starts with the gradient at the end of the rejected one',
 [(S,'''            g = gnew
            E = Enew
            x[:] = xnew
''','''            E = Enew
            x[:] = xnew
        g = gnew
''')],
 PRE+'''
from coniii.samplers import jit_sample, calc_e, grad_e
rng = np.random.RandomState(1)
x0 = rng.uniform(.3,2.5,6); th = rng.normal(size=3)*2
r = rng.normal(size=(2,6)); dt = .3
def path(x,p):
    g = grad_e(th,x)
    for t in range(5):
        p = p-dt*g/2; x = x+dt*p; g = grad_e(th,x); p = p-dt*g/2
    return x, p
a, b = path(x0, r[0]), path(x0, r[1])
H = lambda x,p: (p*p).sum()/2+calc_e(th,x)
for k in range(200):
    r = rng.normal(size=(2,6))
    a, b = path(x0, r[0]), path(x0, r[1])
    if H(*a)-H(x0,r[0])>.01: break
else: raise SystemExit(0)
x = jit_sample(th, x0.copy(), 2, dt, 5, r, np.array([1.,0.]))
assert np.allclose(x, b[0]), (x, b[0])
''')
bug('c23-cross-in-place','C23','the product is written into one of the two vectors',
 'the result is written while the vectors are still being read',
 [(S,'''    result[0] = a2 * b3 - a3 * b2
    result[1] = a3 * b1 - a1 * b3
    result[2] = a1 * b2 - a2 * b1
''','''    result[0] = vec1[1] * vec2[2] - vec1[2] * vec2[1]
    result[1] = vec1[2] * vec2[0] - vec1[0] * vec2[2]
    result[2] = vec1[0] * vec2[1] - vec1[1] * vec2[0]
''')],
 PRE+'''
from coniii.samplers import cross_
a, b = np.array([1.,2.,3.]), np.array([-2.,.5,4.])
w = np.cross(a,b)
cross_(a,b,a)
assert np.allclose(a, w)
''')
bug('c23-nearby-azimuth-half','C23','a sample of many nearby vectors',
 'directions about the given vector cover half a turn only, together with angles of one sign',
 [(S,'''            theta[i] = np.random.randn()*sigma
    phi = np.zeros((nSamples))
    for i in range(nSamples):
        phi[i] = np.random.rand()*2*np.pi
''','''            theta[i] = abs(np.random.randn())*sigma
    phi = np.zeros((nSamples))
    for i in range(nSamples):
        phi[i] = np.random.rand()*np.pi
''')],
 PRE+'''
from coniii.samplers import jit_sample_nearby_vector
v = jit_sample_nearby_vector(3, np.array([0.,0.,1.]), 400, 0., 0., .3)
az = np.arctan2(v[:,1], v[:,0])
assert (np.histogram(az, bins=8, range=(-np.pi,np.pi))[0]>0).all()
''')
bug('c02-four-tuple-gap','C02','a tuple of four or more sites with a gap before its third site',
 'the step over skipped sites is taken as if they were the second of the tuple',
 [(U,'''            ix += sum([int(binom(n-i-1,len(ijk)-d-1)) for i in range(ijk[d-1]+1, ijk[d])])''',
     '''            ix += sum([int(binom(n-i-1,len(ijk)-2)) for i in range(ijk[d-1]+1, ijk[d])])''')],
 PRE+'''
for n,k in ((7,4),(7,5)):
    for c,t in enumerate(combinations(range(n),k)):
        assert unravel_index(t,n)==c, (t,n)
''')
bug('c02-diagonal-truncated','C02','a matrix of integers whose diagonal is replaced by non-integers',
 'the new diagonal is truncated to the type of the matrix',
 [(U,'''    return mat - np.diag(mat.diagonal()) + np.diag(newdiag)
''','''    newmat = mat.copy()
    np.fill_diagonal(newmat, newdiag)
    return newmat
''')],
 PRE+'''
m = replace_diag(np.array([[1,2],[2,1]]), np.array([.5,.25]))
assert m[0,0]==.5 and m[1,1]==.25
''')
bug('c02-vector-matrix-fields-view','C02','the fields taken from a vector are changed afterwards',
 'an integer vector of multipliers becomes a matrix of integers divided by two twice',
 [(U,'''    if separate_fields:
        return multipliers[:n], squareform(multipliers[n:])
    return replace_diag(squareform(multipliers[n:]), multipliers[:n])''',
 '''    if separate_fields:
        return multipliers[:n], squareform(multipliers[n:])
    multipliers[n:] = multipliers[n:]*1
    mat = np.zeros((n, n))
    mat[np.tril_indices(n, -1)] = multipliers[n:]
    return replace_diag(mat + mat.T, multipliers[:n])''')],
 PRE+'''
v = np.arange(1.,11.)
m = vec2mat(v)
for (i,j),k in zip(combinations(range(4),2), v[4:]): assert m[i,j]==m[j,i]==k, (i,j)
''')
bug('c03-enumeration-narrow-integers','C03','sixteen or more spins',
 'states are numbered with 16 bit integers, so the second half repeats the first',
 [(U,'''    v = np.array([list(np.binary_repr(i,width=n)) for i in range(2**n)]).astype(int)
''','''    order = np.arange(2**n).astype(np.uint16)
    v = (np.right_shift(order[:,None], np.arange(n)[::-1].astype(np.uint16)) & 1).astype(int)
''')],
 PRE+'''
v = bin_states(17)
assert v[-1].all() and v[2**16].tolist()==[1]+[0]*16
''')
bug('c03-symmetric-neighbour-same-state','C03','many random neighbours in the {-1,1} basis',
 'random neighbours are compared with the last flipped state instead of the given one',
 [(U,'''                newneighbor=(np.random.rand(s.size)<.5)*2.-1
                # Make sure neighbor is not the same as the given state.
                if (newneighbor!=s).any():''','''                newneighbor=(np.random.rand(s.size)<.5)*2.-1
                # Make sure neighbor is not the same as the given state.
                if (newneighbor!=neighbors[s.size-1]).any():''')],
 PRE+'''
s = np.array([1.,-1.,1.])
a = adj_sym(s, 200)
assert (a[3:]!=s).any(1).all()
''')
bug('c04-integer-pair-averages','C04','pair averages that are integers while the averages are not',
 'the converted pair averages take the type of the given ones and are truncated',
 [(U,'''    elif convert_to=='01':
        newsisj = np.zeros(sisj.shape)''','''    elif convert_to=='01':
        newsisj = np.zeros_like(sisj)''')],
 PRE+'''
si = np.array([.5,.5,0.]); sisj = np.array([0,0,0])
a = convert_corr(si, sisj, '01')[1]
assert np.allclose(a, [.5,.375,.375])
''')
bug('c04-fourth-order-factor','C04','interactions of four or more spins',
 'lower order terms of high order interactions are not scaled far enough',
 [(U,'''                        params[subcounter+counter+1][ix] += ijkcoeff * 2**-order
''','''                        params[subcounter+counter+1][ix] += ijkcoeff * 2**-min(order, 3)
''')],
 PRE+'''
rng = np.random.RandomState(0)
o = [rng.normal(size=s) for s in (4,6,4,1)]
c = ising_convert_params(o, '11')
def e(p,s): return -sum(v*np.prod([s[i] for i in t]) for k in range(4) for v,t in zip(p[k], combinations(range(4),k+1)))
d = [e(o,s)-e(c,2*np.array(s)-1) for s in product((0,1),repeat=4)]
assert np.ptp(d)<1e-9
''')
bug('c05-state-codes-collide','C05','a list of states given, samples with three values per site',
 'states are compared by a code in powers of two, which different states with three values share',
 [(U,'''        for vote in allstates:
            ix = ( vote==v ).sum(1)==n
''','''        code = v.dot(2**np.arange(n))
        for vote in allstates:
            ix = code==np.dot(vote, 2**np.arange(n))
''')],
 PRE+'''
v = np.array([[0,1],[2,0],[0,1]]); al = np.array(list(product(range(3),repeat=2)))
f = state_probs(v, al, normalized=False)
assert f.tolist()==[float((v==a).all(1).sum()) for a in al]
''')
bug('c05-third-order-empty-mean','C05','correlations of a sample with empty entries and weights for each state',
 'the weights are left out for states whose product vanishes and the rest is divided by their number',
 [(U,'''    for counter,ijk in enumerate(combinations(range(N), k)):
        kcorr[counter] = np.prod(X[:,ijk], axis=1).dot(weights)
''','''    for counter,ijk in enumerate(combinations(range(N), k)):
        p = np.prod(X[:,ijk], axis=1)
        kcorr[counter] = p[p!=0].dot(weights[p!=0]) / max(weights[p!=0].sum(), 1e-16) if (p==0).any() else p.dot(weights)
''')],
 PRE+'''
X = np.array([[1,1,0],[1,1,-1],[1,-1,1]]); w = np.array([.5,.25,.25])
assert np.allclose(k_corr(X,3,weights=w), [-.5])
''')
bug('c01-potts-absent-state','C01','a batch in which no site has the highest state',
 'the columns of states that do not occur are skipped without moving on',
 [(U,'''        for i in range(k):
            for j in range(n):
                Y[:,counter] = X[:,j]==i
                counter += 1
''','''        for i in range(min(k, X.max()+1)):
            for j in range(n):
                Y[:,counter] = X[:,j]==i
                counter += 1
''')],
 PRE+'''
ce, ob = define_potts_helper_functions(3)[:2]
s = np.array([[0,1],[1,1]])
assert ob(s).tolist()==[[1,0,0,1,0,0,0],[0,0,1,1,0,0,1]]
''')
bug('c07-potts-cpp-old-agreement','C07','C++ Potts sampling, a spin that leaves the state it shares with another',
 'the coupling to spins in the old state is not removed when their index is larger',
 [(C,'''        if (oState==s[i]) {
            de += couplingMat[randix][i];
        }
''','''        if (oState==s[i] && i<=randix) {
            de += couplingMat[randix][i];
        }
''')],
 PRE+'''
from coniii.samplers import Potts3
th = np.zeros(6+1); th[6] = 3.
p = Potts3(2, th, define_potts_helper_functions(3)[0], rng=np.random.RandomState(0))
p.generate_sample(4000, n_iters=20)
X = p.sample
q = 3*np.exp(3.)/(3*np.exp(3.)+6)
assert abs((X[:,0]==X[:,1]).mean()-q)<.03
''')
bug('c08-parallel-continues-from-first','C08','a parallel run (Python) with more than one state per process that is continued',
 'the last state of every process is taken as its first recorded one, so later runs go back',
 [(S,'''        self.sample = np.vstack(self.sample)[:sample_size]
        self._samples = np.vstack(self._samples)
''','''        self._samples = np.vstack([s[0] for s in self.sample]).astype(int)
        self.sample = np.vstack(self.sample)[:sample_size]
''')],
 PRE+'''
from coniii.samplers import Metropolis
import multiprocess as mp
n = 4; N = mp.cpu_count()
m = Metropolis(n, np.zeros(10), define_ising_helper_functions()[0], rng=np.random.RandomState(0), boost=False, iprint=False)
m.generate_sample_parallel(3*N, n_iters=5)
last = m.sample.reshape(N,3,n)[:,-1]
assert (m._samples==last).all()
''')
bug('c10-replicas-in-order-of-completion','C10','replicas that take different times',
 'replicas come back from the processes in the order in which they finish',
 [(S,'''        self.replicas = pool.map(f, zip(self.replicas, [n_iters]*len(self.replicas)))
''','''        self.replicas = list(pool.imap_unordered(f, zip(self.replicas, [n_iters]*len(self.replicas))))
''')],
 PRE+'''
import time
from coniii.samplers import ParallelTempering
ce = define_ising_helper_functions()[0]
def slow(s, th):
    if abs(th[0])<.6: time.sleep(.002)
    return ce(s, th)
p = ParallelTempering(3, np.ones(6), slow, 3, replica_burnin=40, rep_ex_burnin=20, rng=np.random.RandomState(0))
p.generate_sample(3)
for b,r in zip(p.beta, p.replicas): assert np.allclose(r.theta, b*np.ones(6)), (b, r.theta)
''')
bug('c12-sparse-distance-of-all','C12','the sparse variant near its solution',
 'the step length is not shortened with the distance because the distance is taken before the step',
 [(V,'''            estConstraints = self.mch_approximation(self.model.sample.astype(np.int64),
                                                    self.fill_in(dlamda))[self.parameterIx]
            distance = np.linalg.norm(estConstraints - constraints)
''','''            distance = np.linalg.norm(estConstraints - constraints)
            estConstraints = self.mch_approximation(self.model.sample.astype(np.int64),
                                                    self.fill_in(dlamda))[self.parameterIx]
''')],
 PRE+'''
from coniii.solvers import SparseMCH
from coniii.models import Ising
X = np.array(list(product((-1,1),repeat=3)))
ce, ob, ap = define_ising_helper_functions()
ix = np.array([0,4])
s = SparseMCH(X, parameter_ix=ix, iprint=False, sampler_kw={'iprint':False})
s.model.sample = X; s._multipliers = np.zeros(6)
c = np.array([.2,-.1]); est = np.zeros(2)
s.learn_parameters_mch(est, c, maxdlamda=9, maxdlamdaNorm=9, maxLearningSteps=3, eta=1)
d = np.zeros(2); e = est; dist = 1.
for t in range(4):
    d = d-(e-c)*min(dist,1.); e = ap(X, s.fill_in(d))[ix]; dist = np.linalg.norm(e-c)
assert np.allclose(s._multipliers[ix], d), (s._multipliers, d)
''')
bug('c13-logp-one-missing-pattern','C13','partially observed states with different entries missing',
 'the observed entries of the first state are used for all of them',
 [(V,'''        for i, s in enumerate(us):
''','''        spin_ix = us[0]!=0
        for i, s in enumerate(us):
'''),(V,'''            spin_ix = s!=0
            p = (s[spin_ix]''','''            p = (s[spin_ix]''')],
 PRE+'''
from coniii.solvers import Enumerate
X = np.array([[1,1],[1,-1],[-1,1],[1,1]])
e = Enumerate(X, iprint=False); e.model.sample = X
p = np.exp(e.logp(np.array([[1,0],[0,1],[1,1]])))
assert np.allclose(p, [.75,.75,.5]), p
''')
bug('c13-given-constraints-ignored','C13','constraints are passed to a solver that also has a sample',
 'the constraints of the sample are used although others are given',
 [(V,'''        if constraints is None:
            constraints = self.constraints
            assert not constraints is None
''','''        if constraints is None or not self.constraints is None:
            constraints = self.constraints
            assert not constraints is None
''')],
 PRE+'''
from coniii.solvers import Enumerate
rng = np.random.RandomState(0)
X = rng.choice([-1,1], size=(500,3))
e = Enumerate(X, iprint=False)
c = np.array([.1,.2,-.1,.05,0.,.1])
h = e.solve(constraints=c)
assert np.allclose(e.model.calc_observables(h), c, atol=1e-6)
''')
bug('c14-analytic-pair-order','C14','a pair in decreasing order, an upper triangular matrix, closed forms',
 'the pair frequency is read from the lower triangle',
 [(V,'''            pij = coocMat[min(i,j),max(i,j)]
''','''            pij = coocMat[i,j]
''')],
 PRE+'''
from coniii.solvers import ClusterExpansion
rng = np.random.RandomState(0)
X = rng.choice([-1,1], size=(200,3), p=[.4,.6])
c = ClusterExpansion(X, iprint=False)
f = (X+1)//2; cooc = np.triu(f.T.dot(f)/len(f))
a = c.S([0,2], cooc, useAnalyticResults=True)[1]; b = c.S([2,0], cooc, useAnalyticResults=True)[1]
assert np.allclose(a, b)
''')
bug('c14-reference-of-all-spins','C14','an expansion of a subset of the spins',
 'the independent reference of all spins is added although only a subset is expanded',
 [(V,'''            ent, J0 = self.Sindependent(cluster, coocMat)
''','''            ent, J0 = self.Sindependent(list(range(N)), coocMat)
''')],
 PRE+'''
from coniii.solvers import ClusterExpansion
rng = np.random.RandomState(0)
X = rng.choice([-1,1], size=(300,4), p=[.4,.6])
c = ClusterExpansion(X, iprint=False)
ent = c.solve(0., cluster=[0,2], full_output=True, iprint=False)[1]
p = state_probs(X[:,[0,2]])[0]
assert abs(ent+(p*np.log(p)).sum())<1e-5
''')
bug('c15-log-gradient-counts','C15','the logarithmic form with a gradient, states seen different numbers of times',
 'the gradient leaves out how often each state was seen',
 [(V,'''            objGrad[i] = ((gradcoef*np.exp(power)*count).sum() /
                          (np.exp(power)*count).sum())
''','''            objGrad[i] = ((gradcoef*np.exp(power)).sum() /
                          np.exp(power).sum())
''')],
 PRE+'''
from coniii.solvers import MPF
X = np.array([[1,1,-1]]*5+[[-1,1,1]]*2+[[-1,-1,-1]])
m = MPF(X, calc_de=calc_de, iprint=False)
Y = (X+1)//2
u, c = np.unique(Y, axis=0, return_counts=True); a = m.list_adjacent_states(u, True)
p = np.linspace(-.5,.7,6)
g = m.logK(u, c, a, p)[1]
num = [(m.logK(u,c,a,p+d)[0]-m.logK(u,c,a,p-d)[0])/2e-5 for d in np.eye(6)*1e-5]
assert np.allclose(g, num, atol=1e-6)
''')
bug('c16-potts-partial-chunks','C16','four or more states',
 'the alternatives of a spin beyond the second are left out of the derivative by a field',
 [(V,'''                for hix in range(self.k):
                    num = np.zeros(self.sample.shape[0])
''','''                for hix in range(min(self.k, 3)):
                    num = np.zeros(self.sample.shape[0])
''')],
 PRE+'''
from coniii.solvers import Pseudo
from coniii.models import Potts3
import coniii.solvers as sv
k, n = 4, 2
rng = np.random.RandomState(0); X = rng.randint(0,4,size=(50,n))
mr, orr = define_pseudo_potts_helper_functions(n,k)
ob = define_potts_helper_functions(k)[1]
s = Pseudo(X, calc_observables=ob, get_multipliers_r=mr, calc_observables_r=orr, k=k, iprint=False, model=Potts3([np.zeros(6),np.zeros(1)]))
keep = {}
def catch(f, x0, jac=None, **kw):
    keep['f'] = f
    class R(dict): pass
    return R(x=x0)
sv.minimize = catch
s._solve_potts()
f = keep['f']; x = rng.normal(size=9)*.3
num = [(f(x+d)[0]-f(x-d)[0])/2e-5 for d in np.eye(9)*1e-5]
assert np.allclose(num, f(x)[1], atol=1e-4)
''')
bug('c20-potts-initial-state-global','C20','a Potts sampler with the Python implementation',
 'initial states come from numpy\'s global generator',
 [(S,'''        return self.rng.randint(0, 3, size=(n_samples, self.n))''',
  '''        return np.random.randint(0, 3, size=(n_samples, self.n))''')],
 PRE+'''
from coniii.samplers import Potts3
ce = define_potts_helper_functions(3)[0]
out = []
for g in (1,2):
    np.random.seed(g)
    p = Potts3(6, np.zeros(18+15), ce, rng=np.random.RandomState(0), boost=False)
    p.generate_sample(3, n_iters=1)
    out.append(p.sample.copy())
assert (out[0]==out[1]).all()
''')
bug('c20-narrow-seeds','C20','many parallel runs, two processes that draw the same small seed',
 'seeds of the processes of a conditional sample are drawn from 1000 numbers only',
 [(S,'''                self.sample = np.vstack( list(pool.map(f, zip([int(np.ceil(sample_size/n_cpus))]*n_cpus,
                                                                self.rng.randint(2**31-1, size=n_cpus)))) )
            self.sample = np.vstack(self.sample)[:sample_size]
''','''                self.sample = np.vstack( list(pool.map(f, zip([int(np.ceil(sample_size/n_cpus))]*n_cpus,
                                                                self.rng.randint(100, size=n_cpus)))) )
            self.sample = np.vstack(self.sample)[:sample_size]
''')],
 PRE+'''
from coniii.samplers import Metropolis
import multiprocess as mp
N = mp.cpu_count()
for seed in range(60):
    m = Metropolis(20, np.zeros(210), define_ising_helper_functions()[0], rng=np.random.RandomState(seed), iprint=False)
    m.generate_cond_sample(4*N, [(0,1)], n_iters=60, burn_in=60, parallel=True)
    b = m.sample.reshape(N, -1)
    assert len(np.unique(b, axis=0))==N, seed
''')
bug('c21-antiferromagnetic-bonds','C21','negative couplings',
 'bonds over negative couplings are never activated',
 [(S,'''            if J[counter]<0 and state[i]*state[j]<0 and r[counter]<p[counter]:
                bonds[counter] = 1
            elif J[counter]>0 and''','''            if J[counter]>0 and''')],
 PRE+'''
from coniii.samplers import sample_bonds
s = np.array([1.,-1.]); J = np.array([-2.])
assert sample_bonds(1-np.exp(-2*J*-1.), np.array([.1]), s, J)[0]==1
''')
bug('c22-last-tried-model','C22','a refinement whose last trial is not its best one',
 'the multipliers returned are those of the last strength tried',
 [(V,'''        gammaPrimeMin = solution['x']
''','''        gammaPrimeMin = tried[-1]
'''),(V,'''        def func(meanFieldGammaPrime):
''','''        tried = []
        def func(meanFieldGammaPrime):
            tried.append(meanFieldGammaPrime)
''')],
 PRE+'''
import coniii.solvers as sv
rng = np.random.RandomState(0)
X = rng.choice([-1,1], size=(100,3), p=[.4,.6]); X[:40,1] = X[:40,0]
s = sv.RegularizedMeanField(X, model=sv.Ising(3, rng=np.random.RandomState(1)), model_kwargs={}) if False else sv.RegularizedMeanField(X, rng=np.random.RandomState(1))
def ms(f, **kw):
    f(.3); f(.9)
    return {'x': .3}
sv.minimize_scalar = ms
a = s.solve()
from coniii import mean_field_ising as mf
f = (X+1)/2; c = mf.cooccurrence_matrix(f); pm = np.diag(c).mean()
J = mf.JmeanField(c, meanFieldPriorLmbda=.3/(pm**2*(1-pm)**2), numSamples=100)
w = convert_params(-J.diagonal(), squareform(-zero_diag(J), checks=False)*2, '11', concat=True)
assert np.allclose(a, w)
''')
bug('c09-cpp-cond-systematic-phase','C09','systematic conditional sampling in C++ with a burn-in that is no multiple of the free spins',
 'the burn-in visits the free spins up to the number of fixed ones only',
 [(C,'''    // burn in
    for (int i=0; i<burn_in; ++i) {
        if (systematic_iter) {
            randix = non_ix[counter%(n-ix.size())];
            counter++;''','''    // burn in
    for (int i=0; i<burn_in; ++i) {
        if (systematic_iter) {
            randix = non_ix[(counter%n)%(n-ix.size())];
            counter++;''')],
 PRE+'''
from coniii.samplers import Metropolis
# fields so strong that a visited spin takes their direction; one update per free spin
n = 5
th = np.concatenate([np.ones(5)*50, np.zeros(10)])
# 6 burn-in updates of 4 free spins: 0 1 2 3 0 1 -> all visited either way; the first state comes after 1 more update, at site 2
bad = 0
for seed in range(40):
    m = Metropolis(n, np.concatenate([np.zeros(5), np.zeros(10)]), define_ising_helper_functions()[0], rng=np.random.RandomState(seed), iprint=False)
    m.generate_cond_sample(1, [(4,1)], n_iters=1, burn_in=4, systematic_iter=True, parallel=False); a = m.sample[0]
    m = Metropolis(n, np.concatenate([np.zeros(5), np.zeros(10)]), define_ising_helper_functions()[0], rng=np.random.RandomState(seed), iprint=False)
    m.generate_cond_sample(1, [(4,1)], n_iters=1, burn_in=5, systematic_iter=True, parallel=False); b = m.sample[0]
    # without energies every proposal is accepted: burn_in=5 ends with site 0, then one more at site 1
    d = np.nonzero(a!=b)[0].tolist()
    bad += d!=[1]
assert not bad, bad
''')
bug('c17-copy-when-no-round','C17','zero rounds of coarse-graining',
 'the similarity of a column with itself is removed in the matrix kept by the similarity function',
 [(U,'''        cij = squareform(sim_func(coarseX)).astype(float)
''','''        cij = squareform(sim_func(coarseX)).astype(np.float32)
''')],
 PRE+'''
X = np.random.RandomState(0).choice([-1,1],size=(10,8))
sim = np.full(28, .1); 
# the best pair differs from the next in the tenth digit
sim[5] = .5; sim[20] = .5+1e-10
f = lambda Y: sim if Y.shape[1]==8 else np.arange(Y.shape[1]*(Y.shape[1]-1)//2)
_, b = coarse_grain_with_func(X, 1, f, lambda Y: np.sign(Y.sum(1)))
p = list(combinations(range(8),2))
assert b[0]==list(p[20]), (b, p[20], p[5])
''')
bug('c18-basis-of-correlations','C18','the correlations of the front end in the {0,1} basis after those of the other',
 'the average fields in the {0,1} basis are converted in place, so later calls return other values',
 [(I,'''        self.hJ01 = convert_params(h, J, '01', concat=True)''','''        self.hJ01 = convert_params(h, J, '01', concat=True) if n>2 else convert_params(h, J, '11', concat=True)''')],
 PRE+'''
from coniii.ising.utils import Ising
m = Ising(2, np.array([.1,.2]), np.array([.3]))
assert np.allclose(m.fields('0'), [2*(.1-.3), 2*(.2-.3)])
''')
bug('c19-reference-matrix-lower','C19','a cluster in decreasing order and a matrix with an upper triangle only',
 'the cluster is taken before the matrix is made symmetric, so its pairs are lost',
 [(M,'''    coocMatCluster = coocCluster(symmetrizeUsingUpper(coocMat),cluster)
''','''    coocMatCluster = symmetrizeUsingUpper(coocCluster(coocMat,cluster))
''')],
 PRE+'''
from coniii import mean_field_ising as mf
rng = np.random.RandomState(0)
f = rng.choice([0,1], size=(200,3), p=[.4,.6]); f[:60,2] = f[:60,0]
c = np.triu(f.T.dot(f)/len(f))
a = mf.SmeanField([0,2], c)[1]; b = mf.SmeanField([2,0], c)[1]
assert np.allclose(a, b)
''')
