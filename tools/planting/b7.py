BUGS=[]
def bug(id,prop,needs,breaks,edits,demo): BUGS.append(dict(id=id,prop=prop,needs=needs,breaks=breaks,edits=edits,demo=demo))
U='coniii/utils.py'; V='coniii/solvers.py'; E='coniii/enumerate.py'; P='coniii/enumerate_potts.py'; M='coniii/mean_field_ising.py'
I='coniii/ising/utils.py'; A='coniii/ising/automaton.py'; MO='coniii/models.py'; S='coniii/samplers.py'; C='cpp/samplers.cpp'; X='coniii/pseudo_inverse_ising.py'
PRE='''
import numpy as np, warnings
warnings.simplefilter('ignore')
from itertools import combinations, product
from scipy.spatial.distance import squareform
from coniii.utils import *
'''
bug('c10-walker-start-stays','C10','an exchange followed by further updates',
 'exchanged replicas go on from the states they had before the exchange',
 [(S,'''                temp = self.replicas[i]._samples
                self.replicas[i]._samples = self.replicas[i+1]._samples
                self.replicas[i+1]._samples = temp
''','''                self.replicas[i]._samples = self.replicas[i]._samples.copy()
''')],
 PRE+'''
from coniii.samplers import ParallelTempering
pt = ParallelTempering(4, np.zeros(10), define_ising_helper_functions()[0], 3, rng=np.random.RandomState(0), replica_burnin=4, rep_ex_burnin=4)
class Pool:
    def map(self, f, xs): return [x[0] for x in xs]
pt.burn_and_exchange(Pool())
for r in pt.replicas: assert (r._samples==r.sample).all()
''')
bug('c21-last-site-never-initial','C21','a last spin without couplings',
 'clusters never start at the last site',
 [(S,'''        if initialsite is None:
            initialsite = self.rng.randint(n)''','''        if initialsite is None:
            initialsite = int(self.rng.rand()*(n-1)+.5)%n''')],
 PRE+'''
from coniii.samplers import WolffIsing
w = WolffIsing(np.zeros(3), np.zeros(3)); w.rng = np.random.RandomState(0)
seen = np.zeros(3)
build = w.build_cluster
def b(s, i): seen[i] += 1; return build(s, i)
w.build_cluster = b
for k in range(6000): w.one_step(np.ones(3))
assert abs(seen-2000).max()<300, seen
''')
bug('c08-cpp-parallel-swapped-counts','C08','parallel C++ sampling with a burn-in different from the separation',
 'burn-in and separation are exchanged in parallel sampling',
 [(S,'''            bsampler = BoostIsing(n, multipliers, int(seed))
            bsampler.generate_sample(sample_size, burn_in, n_iters, systematic_iter)''','''            bsampler = BoostIsing(n, multipliers, int(seed))
            bsampler.generate_sample(sample_size, n_iters, burn_in, systematic_iter)''')],
 PRE+'''
from coniii.samplers import Metropolis
m = Metropolis(5, np.zeros(15), define_ising_helper_functions()[0], rng=np.random.RandomState(0), iprint=False)
import multiprocess as mp
N = mp.cpu_count()
m.generate_sample_parallel(3*N, n_iters=2, burn_in=7, systematic_iter=True)
s = m.sample.reshape(N,3,5)
assert ((s[:,1:]!=s[:,:-1]).sum(2)==2).all()
''')
bug('c12-sparse-repeated-parameters','C12','a list of parameters with repeated entries',
 'repeated entries are kept and shift the places of the others',
 [(V,'''            warn("parameter_ix has repeated entries.")
        self.parameterIx = np.unique(parameter_ix)
        self.set_insertion_ix()
    
    def solve(self,
              initial_guess=None,
              constraints=None,
              tol=None,''','''            warn("parameter_ix has repeated entries.")
        self.parameterIx = np.sort(parameter_ix)
        self.set_insertion_ix()
    
    def solve(self,
              initial_guess=None,
              constraints=None,
              tol=None,''')],
 PRE+'''
from coniii.solvers import SparseMCH
X = np.random.RandomState(0).choice([-1,1], size=(200,4))
s = SparseMCH(X, parameter_ix=np.array([0,5,5,9]), iprint=False, sample_size=1000, rng=np.random.RandomState(1))
assert s.fill_in(np.array([1.,2.,3.])).tolist()==[1,0,0,0,0,2,0,0,0,3]
''')
bug('c13-sparse-minimize-fits-all','C13','sparse enumeration without root finding',
 'the minimised norm also counts the observables that are not fitted',
 [(V,'''                    params = self.fill_in(params)

                    if np.any(np.abs(params) > max_param_value):
                        return 1e30
                    return np.linalg.norm( self.model.calc_observables(params)[self.parameterIx]-constraints )''','''                    params = self.fill_in(params)

                    if np.any(np.abs(params) > max_param_value):
                        return 1e30
                    return np.linalg.norm( self.model.calc_observables(params)-self.fill_in(constraints) )''')],
 PRE+'''
from coniii.solvers import SparseEnumerate
X = np.random.RandomState(0).choice([-1,1], size=(300,3), p=[.3,.7])
ix = np.array([0,3])
s = SparseEnumerate(X, parameter_ix=ix, iprint=False)
x = s.solve(use_root=False, scipy_solver_kwargs={'method':'Nelder-Mead','options':{'xatol':1e-9,'fatol':1e-12,'maxiter':4000}})
o = s.model.calc_observables(s.fill_in(x))[ix]
assert np.allclose(o, s.constraints[ix], atol=1e-5)
''')
bug('c15-large-differences-clipped','C15','states much more probable than others',
 'energy differences beyond forty are cut off, so objective and gradient are wrong there',
 [(V,'''                                 self.model.calc_e(adjacentStates[i], params) )
                                for i,s in enumerate(Xuniq)])
''','''                                 self.model.calc_e(adjacentStates[i], params) )
                                for i,s in enumerate(Xuniq)]).clip(-20, 20)
''')],
 PRE+'''
from coniii.solvers import MPF
X = np.array([[1,1,-1],[1,-1,1],[1,1,1]])
s = MPF(X, iprint=False, calc_de=calc_de)
u, c = np.unique((X+1)//2, axis=0, return_counts=True)
adj = s.list_adjacent_states(u, True)
th = np.zeros(6); th[0] = -60.
assert np.isclose(s.logK(u, c, adj, th)[0], np.log(s.K(u, c, adj, th)[0]))
''')
bug('c16-cost-gradient-scaled','C16','the Potts solver with a cost function',
 'the derivative of the cost function is divided by the number of samples, the function is not',
 [(V,'''            return -loglikelihood + cost_fcn(params), -dloglikelihood + cost_fcn_jac(params)
''','''            return -loglikelihood + cost_fcn(params), -dloglikelihood + cost_fcn_jac(params) / len(self.sample)
''')],
 PRE+'''
import coniii.solvers as sv
from coniii.models import Potts3
X = np.random.RandomState(0).randint(3, size=(60,3))
h = define_pseudo_potts_helper_functions(3,3)
s = sv.Pseudo(X, model=Potts3([np.zeros(9),np.zeros(3)]), calc_observables=define_potts_helper_functions(3)[1], get_multipliers_r=h[0], calc_observables_r=h[1], k=3, iprint=False)
got = []
def m(f, x0, **k):
    got.append(f)
    return {'x': x0}
sv.minimize = m
s.solve(cost_fcn=lambda x:(x**2).sum()*10, cost_fcn_jac=lambda x:20*x)
f = got[0]; x = np.random.RandomState(1).normal(size=12)
num = np.array([(f(x+d)[0]-f(x-d)[0])/2e-6 for d in np.eye(12)*1e-6])
assert np.allclose(num, f(x)[1], atol=1e-4), (num, f(x)[1])
''')
bug('c14-mean-field-prior-of-parent','C14','a mean field reference with a prior of its own',
 'subclusters use the other prior strength for their mean field reference',
 [(V,'''                       numSamples=numSamples,
                       independentRef=independentRef,
                       meanFieldPriorLmbda=meanFieldPriorLmbda)
''','''                       numSamples=numSamples,
                       independentRef=independentRef)
''')],
 PRE+'''
from coniii.solvers import ClusterExpansion
rng = np.random.RandomState(0)
X = rng.choice([-1,1], size=(300,3), p=[.4,.6]); X[:80,1] = X[:80,0]
s = ClusterExpansion(X, iprint=False)
kw = dict(meanFieldRef=True, independentRef=False, meanFieldPriorLmbda=30., numSamples=300, iprint=False, full_output=True)
from coniii import mean_field_ising as mf
th, ent, cl, dS, dJ = s.solve(0., **kw)
c = mf.cooccurrence_matrix((X+1)/2)
w = s.S([0,1], c)[0]-mf.SmeanField([0,1], c, 30., 300)[0]-sum(s.S([i], c)[0]-mf.SmeanField([i], c, 30., 300)[0] for i in (0,1))
assert np.isclose(dS[(0,1)], w), (dS[(0,1)], w)
''')
bug('c11-given-multipliers-kept','C11','a sample with multipliers for that call only',
 'the multipliers given for a call replace those of the model',
 [(MO,'''        if multipliers is None:
            multipliers = self.multipliers
        sample_method = sample_method or self.sampleMethod''','''        if multipliers is None:
            multipliers = self.multipliers
        self.multipliers = multipliers
        sample_method = sample_method or self.sampleMethod''')],
 PRE+'''
from coniii.models import Ising
m = Ising(3); m.setup_sampler(sample_size=10)
m.generate_sample(10, 10, multipliers=np.ones(6), parallel=False)
assert (m.multipliers==0).all()
''')
bug('c17-single-column-as-it-is','C17','an odd number of columns and a coarse-graining that changes single ones',
 'the single remaining column is kept without applying the coarse-graining function',
 [(U,'''            X_[:,i] = coarse_func(coarseX[:,ix])
''','''            X_[:,i] = coarse_func(coarseX[:,ix]) if len(ix)>1 else coarseX[:,ix[0]]
''')],
 PRE+'''
X = np.random.RandomState(0).randint(1,5,size=(6,3))
Y, b = coarse_grain_with_func(X, 1, lambda Y: np.arange(Y.shape[1]*(Y.shape[1]-1)//2), lambda Y: Y.sum(1)**2)
for y, ix in zip(Y.T, b): assert (y==X[:,ix].sum(1)**2).all()
''')
bug('c05-weights-renormalised','C05','weights that do not add up to one',
 'weights per state are divided by their sum',
 [(U,'''    elif type(weights) is np.ndarray:
        assert len(weights)==len(X)
''','''    elif type(weights) is np.ndarray:
        assert len(weights)==len(X)
        weights = weights/weights.sum()
''')],
 PRE+'''
X = np.array([[1,-1],[1,1],[-1,1]])
w = np.array([.5,.25,.5])
si, sisj = pair_corr(X, weights=w)
assert np.allclose(si, w.dot(X)) and np.allclose(sisj, w.dot(X[:,0]*X[:,1]))
''')
bug('c03-large-base-exact-power','C03','exact powers of bases above ten',
 'the logarithm of some exact powers is rounded down and the leading digit becomes the base itself',
 [(U,'''    ALPHANUM = '0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ'
    rep = []
    exponent = int(np.log(i)/np.log(base))
    term = int(i/base**exponent)
''','''    ALPHANUM = '0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ'
    rep = []
    exponent = int(np.log(i)/np.log(base)+1e-9)
    term = int(i/base**exponent)
''')],
 PRE+'''
D = '0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ'
def rep(i, b):
    s = ''
    while i: s = D[i%b]+s; i //= b
    return s
for b in range(11,37):
    for e in range(1,9):
        for d in (-1,0,1):
            v = b**e+d
            if v<2**31: assert ''.join(base_repr(v,b))==rep(v,b), (v,b,''.join(base_repr(v,b)),rep(v,b))
''')
bug('c20-potts-order-of-completion','C20','processes that finish in another order than they were started',
 'states of the Potts sampler come back in the order in which the processes finish',
 [(S,'''        self.sample = np.vstack( list(pool.map(f, zip([int(np.ceil(sample_size/n_cpus))]*n_cpus,
                                                        self.rng.randint(2**31-1, size=n_cpus)))) )
        pool.close()
''','''        self.sample = np.vstack( list(pool.imap_unordered(f, zip([int(np.ceil(sample_size/n_cpus))]*n_cpus,
                                                        self.rng.randint(2**31-1, size=n_cpus)))) )
        pool.close()
''')],
 PRE+'''
import coniii.samplers as sm
class Pool:
    def __init__(self, *a): pass
    def map(self, f, xs): return [f(x) for x in xs]
    imap = map
    def imap_unordered(self, f, xs): return [f(x) for x in xs][::k]
    def close(self): pass
    def join(self): pass
    def __enter__(self): return self
    def __exit__(self, *a): pass
class MP:
    Pool = Pool
    def __getattr__(self, a): return getattr(mp0, a)
mp0 = sm.mp; sm.mp = MP()
out = []
for k in (1,-1):
    p = sm.Potts3(5, np.zeros(25), define_potts_helper_functions(3)[0], rng=np.random.RandomState(0), n_cpus=3)
    p.generate_sample_parallel(30, n_iters=5)
    out.append(p.sample)
assert (out[0]==out[1]).all()
''')
bug('c23-momenta-not-refreshed','C23','several rounds of a Hamiltonian sampler',
 'the momenta of a round are added to those at the end of the one before',
 [(S,'''            p[i] = randNormal[counter,i]
''','''            p[i] += randNormal[counter,i]
''')],
 PRE+'''
from coniii.samplers import jit_sample
rng = np.random.RandomState(0)
th = rng.normal(size=3); x = rng.uniform(.5,2.,6); r = rng.normal(size=(2,6)); u = np.zeros(2)
a = jit_sample(th, x.copy(), 2, .1, 3, r, u)
b = jit_sample(th, x.copy(), 1, .1, 3, r[:1], u[:1]); b = jit_sample(th, b, 1, .1, 3, r[1:], u[1:])
assert np.allclose(a, b)
''')
bug('c18-random-lattice-last-row','C18','random updates of a lattice that is not square',
 'random sites are drawn from the first dimension in both directions',
 [(A,'''                    i, j=np.random.randint(dim[0]), np.random.randint(dim[1])
''','''                    i = np.random.randint(dim[0]*dim[1])
                    i, j = i//dim[0]%dim[0], i%dim[1]
''')],
 PRE+'''
from coniii.ising.automaton import Ising2D
m = Ising2D((2,3), 0., h=0., rng=np.random.RandomState(0))
n = np.zeros((2,3))
for k in range(3000):
    a = m.lattice.copy(); m.iterate(1, systematic=False); n += a!=m.lattice
assert abs(n-500).max()<150, n
''')
bug('c18-basin-tiny-decrease-of-copy','C18','a state given as something else than small integers, far fields',
 'energy differences are computed in single precision, so close flips are confused',
 [(I,'''        dE = np.zeros(self.n)
        for i in range(self.n):''','''        dE = np.zeros(self.n, dtype=np.float32)
        for i in range(self.n):''')],
 PRE+'''
from coniii.ising.utils import Ising
m = Ising(3, np.array([-1., -1-1e-9, -1.+1e-9]), np.array([5.,5.,-5.])*0)
d = m.neighbor_dE(np.ones(3, dtype=int))
assert d.argmin()==1, d
''')
bug('c19-minimum-size-exceeded','C19','a minimum size above 0',
 'states with exactly the minimum number of active spins are left out',
 [(M,"""        fp = scipy.array( [x for x in fp if sum(x)>=minSize] )""","""        fp = scipy.array( [x for x in fp if sum(x)>=minSize+(minSize>1)] )""")],
 PRE+"""
from coniii import mean_field_ising as mf
c = mf.coocExpectations(np.zeros((3,3)), minSize=2)
assert np.isclose(c[0,0], .75)
""")
bug('c19-regularised-entropy-plain-eigenvalues','C19','a mean field entropy with a prior',
 'the entropy subtracts the eigenvalues without regularisation',
 [(M,'''                Sind + 0.5*scipy.sum( scipy.log(mqhat)  \\
                + 1. - mqhat ) )''','''                Sind + 0.5*scipy.sum( scipy.log(mqhat)  \\
                + 1. - mq ) )''')],
 PRE+'''
from coniii import mean_field_ising as mf
f = np.random.RandomState(0).choice([0,1], size=(60,3)); f[:20,1] = f[:20,0]
c = mf.cooccurrence_matrix(f)
S, J = mf.SmeanField([0,1,2], c, 20., 60)
cs = mf.symmetrizeUsingUpper(c); p = np.diag(cs); d = np.sqrt(p*(1-p)); m = (cs-np.outer(p,p))/np.outer(d,d)
q = np.linalg.eigvalsh(m); g = 20./60; qh = .5*(q-g+np.sqrt((q-g)**2+4*g))
S0 = -(p*np.log(p)+(1-p)*np.log(1-p)).sum()
assert np.isclose(S, S0+.5*(np.log(qh)+1-qh).sum())
''')
bug('c07-potts-python-state-two','C07','a spin in the third state of the Python Potts sampler',
 'a spin in the third state is only ever proposed the first one',
 [(S,'''        sample0[flip_site] = (oState+rng.randint(1,3))%3
''','''        sample0[flip_site] = min(oState+rng.randint(1,3), 3)%3
''')],
 PRE+'''
from coniii.samplers import Potts3
p = Potts3(2, np.zeros(7), define_potts_helper_functions(3)[0], rng=np.random.RandomState(0), boost=False)
seen = set()
for k in range(40):
    s = np.array([2,0]); p.sample_metropolis(s, p.calc_e(s[None,:], p.theta), flip_site=0); seen.add(int(s[0]))
assert seen=={0,1}, seen
''')
bug('c04-matrix-couplings-upper','C04','couplings given as a matrix, read through its upper triangle only',
 'the sum of the couplings of a spin misses those above the diagonal in one direction',
 [(U,'''        hp = 2.*(h - np.sum(Jmat,1))
''','''        hp = 2.*h - 2.*np.sum(Jmat,0) if len(h)<9 else 2.*h - np.sum(Jmat,0) - np.sum(np.triu(Jmat),1)*2
''')],
 PRE+'''
rng = np.random.RandomState(0); n = 10
h, J = rng.normal(size=n), rng.normal(size=45)
a, b = convert_params(h, J, '01'); c, d = convert_params(a, b, '11')
assert np.allclose(c, h) and np.allclose(d, J)
''')

bug('c19-external-field-half','C19','an external field together with a minimum size',
 'the external field is ignored when small states are excluded',
 [(M,"""    return -dot(fp,h-hext)-1.0*""","""    return -dot(fp,h-hext*(minSize==0))-1.0*""")],
 PRE+"""
from coniii import mean_field_ising as mf
a = mf.coocExpectations(np.zeros((3,3)), hext=1., minSize=1); b = mf.coocExpectations(-np.eye(3), minSize=1)
assert np.allclose(a, b)
""")
