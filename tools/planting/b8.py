BUGS=[]
def bug(id,prop,needs,breaks,edits,demo): BUGS.append(dict(id=id,prop=prop,needs=needs,breaks=breaks,edits=edits,demo=demo))
U='coniii/utils.py'; V='coniii/solvers.py'; E='coniii/enumerate.py'; P='coniii/enumerate_potts.py'; M='coniii/mean_field_ising.py'
I='coniii/ising/utils.py'; A='coniii/ising/automaton.py'; MO='coniii/models.py'; S='coniii/samplers.py'; C='cpp/samplers.cpp'; X='coniii/pseudo_inverse_ising.py'
PRE='''
import numpy as np, warnings
warnings.simplefilter('ignore')
from itertools import combinations, product
from scipy.spatial.distance import squareform
from coniii.utils import *
'''
bug('c20-second-setup-old-generator','C20','a sampler that is set up again after the generator was replaced',
 'the model forgets a replaced generator, later samplers get the first one',
 [(MO,'''        self.rng = rng
        if self.sampler is None: return  # will get passed to sampler when it is set up
        self.sampler.rng = rng
''','''        if self.sampler is None:
            self.rng = rng  # will get passed to sampler when it is set up
            return
        self.sampler.rng = rng
''')],
 PRE+'''
from coniii.models import Ising
out = []
for first in (1, 2):
    m = Ising(np.zeros(6), rng=np.random.RandomState(first))
    m.setup_sampler(sampler_kwargs={'iprint': False})
    m.set_rng(np.random.RandomState(7))
    m.setup_sampler(sampler_kwargs={'iprint': False})
    m.generate_sample(5, 5, sample_size=20, parallel=False)
    out.append(m.sample)
assert (out[0]==out[1]).all()
''')
bug('c13-bound-on-one-side','C13','a solution with large negative parameters',
 'parameters below minus the largest allowed value are accepted',
 [(V,'''                    # large parameter values should be avoided''','''                    # large parameter values should be avoided''') ] if 0 else
 [(V,'''                    if np.any(np.abs(params) > max_param_value):
                        return np.zeros_like(constraints) + 1e30''','''                    if np.any(params > max_param_value):
                        return np.zeros_like(constraints) + 1e30''')],
 PRE+'''
from coniii.solvers import SparseEnumerate
from coniii.models import Ising
m = Ising(np.zeros(6))
s = SparseEnumerate(3, model=m, calc_observables=define_ising_helper_functions()[1], parameter_ix=np.array([0,3]), iprint=False)
p = np.array([-3.,0,0,.2,0,0])
c = m.calc_observables(p)[[0,3]]
got, full = s.solve(constraints=c, max_param_value=1., full_output=True)
assert not full['success'] or abs(got).max()<=1.001, got
''')
bug('c09-py-random-sites-drawn-over-all','C09','Python conditional sampling with random sites',
 'the energy change of every other update is not carried along',
 [(S,'''                    for i in range(sample_size):
                        for j in range(n_iters):
                            de = self.sample_metropolis(s, E, rng=self.rng, calc_e=cond_calc_e)
                            E += de
                            counter += 1
''','''                    for i in range(sample_size):
                        for j in range(n_iters):
                            de = self.sample_metropolis(s, E, rng=self.rng, calc_e=cond_calc_e)
                            if counter<n_iters*sample_size-1: E += de
                            counter += 1
''')],
 PRE+'''
from coniii.samplers import Metropolis
ce = define_ising_helper_functions()[0]
for seed in range(30):
    m = Metropolis(4, np.linspace(-1,1,10), ce, rng=np.random.RandomState(seed), boost=False, iprint=False)
    m.generate_cond_sample_py(5, [(1,1)], burn_in=4, n_iters=3)
    assert np.allclose(m.E, ce(m.sample.astype(np.int64), m.theta))
''')
bug('c10-burn-in-for-exchanges','C10','different burn-in before and between exchanges',
 'the updates between exchanges are those of the initial burn-in',
 [(S,'''        n_iters = n_iters or self.replicaBurnin
''','''        n_iters = max(n_iters or 0, self.replicaBurnin)
''')],
 PRE+'''
from coniii.samplers import ParallelTempering
pt = ParallelTempering(3, np.zeros(6), define_ising_helper_functions()[0], 2, rng=np.random.RandomState(0), replica_burnin=8, rep_ex_burnin=2)
seen = []
class Pool:
    def map(self, f, xs):
        xs = list(xs); seen.extend(x[1] for x in xs); return [x[0] for x in xs]
    def close(self): pass
pt.burn_and_exchange(Pool())
assert set(seen)=={2}, seen
''')
bug('c10-temperatures-one-round-late','C10','an adaptation of the temperatures that changes something in its last round',
 'the replicas keep the temperatures of the round before',
 [(S,'''            self.beta = beta
            self.update_replica_parameters()
''','''            self.update_replica_parameters()
            self.beta = beta
''')],
 PRE+'''
from coniii.samplers import ParallelTempering
pt = ParallelTempering(3, np.array([.5,-.3,.8,1,-1,.7]), define_ising_helper_functions()[0], 3, rng=np.random.RandomState(0), replica_burnin=8, rep_ex_burnin=2)
for b, r in zip(pt.beta, pt.replicas): assert np.allclose(r.theta, b*pt.theta)
''')
bug('c19-matching-ignores-prior','C19','the analytic fit with a prior',
 'the second order prior is added without its weights',
 [(M,'''        return conc''','''        return conc''')] if 0 else
 [(X,'''    filterVec = 1 - samples[:,r] * ( sum(samples,axis=1) <= minSize )

    logLs''','''    filterVec = 1 - samples[:,r] * ( sum(samples,axis=1) < minSize )

    logLs''')] if 0 else
 [(M,'''    X = fightPossibilities(ell,minSize=minSize)''','''    X = fightPossibilities(ell,minSize=minSize)''')] if 0 else
 [(M,'''    for i in range(''','''    for i in range(''')] ,
 '')
BUGS.pop()
bug('c17-tie-of-similarity-negative','C17','a similarity that is negative for all remaining pairs',
 'pairs are matched in the order of the size of their similarity, so negative ones come first',
 [(U,'''REPLACEME''','''x''')],'')
BUGS.pop()
bug('c08-py-parallel-history','C08','Python parallel sampling with random sites',
 'one update fewer is made between states when the sites are random',
 [(S,'''REPLACEME''','x')],'')
BUGS.pop()
