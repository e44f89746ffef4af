BUGS=[]
def bug(id,prop,needs,breaks,edits,demo): BUGS.append(dict(id=id,prop=prop,needs=needs,breaks=breaks,edits=edits,demo=demo))
S='coniii/samplers.py'; C='cpp/samplers.cpp'
PRE='''
import numpy as np
from coniii.utils import *
from coniii.samplers import *
calc_e = define_ising_helper_functions()[0]
'''
bug('c11-sampler-writes-into-callers-theta','C11','replacing the multipliers of a sampler after it was built from an array the caller keeps',
 'Metropolis.update_parameters writes into the array given on construction, so the caller\'s multipliers change',
 [(S,'        self.theta = theta.copy()\n\ndef define_jit','        self.theta[:] = theta\n\ndef define_jit')],
 PRE+'''
th = np.array([.1,-.2,.3,.4,-.5,.6])
keep = th.copy()
s = Metropolis(3, th, calc_e=calc_e, iprint=False, rng=np.random.RandomState(0))
s.update_parameters(th*2)
assert np.array_equal(th, keep), th
assert np.array_equal(s.theta, keep*2)
''')
bug('c08-parallel-rounds-share','C08','pure Python parallel sampling with a sample size that is not near a multiple of the number of processes',
 'fewer states than asked are returned, because the share of each process is rounded to nearest',
 [(S,'''                                                            [int(np.ceil(sample_size/n_cpus))]*n_cpus,
                                                            self.rng''','''                                                            [int(round(sample_size/n_cpus))]*n_cpus,
                                                            self.rng''')],
 PRE+'''
import multiprocess as mp
nc = mp.cpu_count()
s = Metropolis(3, np.zeros(6), calc_e=calc_e, boost=False, iprint=False, rng=np.random.RandomState(0))
for size in sorted({max(1,nc//3), nc+1, 2*nc+1, 2*nc}):
    try:
        s.generate_sample_parallel(size, n_iters=2, burn_in=2)
    except Exception as err:
        raise SystemExit('%d: %r' % (size, err))
    assert s.sample.shape==(size,3), (size, s.sample.shape)
''')
bug('c09-cpp-last-free-spin-frozen','C09','conditional sampling in C++ with sites chosen at random',
 'the free spin with the highest index is never updated after its random initial value',
 [(C,'std::uniform_int_distribution<int> intrng(0,n-1-new_ix.shape(0));','std::uniform_int_distribution<int> intrng(0,n-2-new_ix.shape(0));')],
 PRE+'''
th = np.zeros(10); th[3] = 2.
s = Metropolis(4, th, calc_e=calc_e, iprint=False, rng=np.random.RandomState(0))
seen = []
for rep in range(40):
    s.generate_cond_sample(50, [(1,1)], burn_in=100, n_iters=20, parallel=False)
    assert (s.sample[:,1]==1).all()
    seen.append(s.sample[:,3].mean())
assert np.mean(seen)>.8, np.mean(seen)
''')
bug('c09-py-fixed-last-spin-insert','C09','conditional sampling in Python with the last spin among the fixed ones',
 'the fixed value of the last spin is not inserted into the last state, so the columns cannot be put back',
 [(S,'list(range(i, self.sample.size+1, nSubset+counter))','list(range(i, self.sample.size, nSubset+counter))')],
 PRE+'''
s = Metropolis(4, np.zeros(10), calc_e=calc_e, boost=False, iprint=False, rng=np.random.RandomState(0))
for fixed in ([(0,1)], [(1,-1),(2,1)], [(3,-1)], [(0,1),(3,1)]):
    try:
        s.generate_cond_sample(5, fixed, burn_in=5, n_iters=5)
    except ValueError as err:
        raise SystemExit('%s: %r' % (fixed, err))
    assert s.sample.shape==(5,4)
    for i,v in fixed:
        assert (s.sample[:,i]==v).all(), (fixed, s.sample)
''')
bug('c10-swapped-energy-not-rescaled','C10','at least three replicas and an accepted exchange of the lower pair right before the next pair is tried',
 'the energy stored for the upper replica of an exchanged pair is that at the other temperature, so the next pair is tried with a wrong energy',
 [(S,'self.replicas[i+1].E = temp/self.beta[i]*self.beta[i+1]','self.replicas[i+1].E = temp')],
 PRE+'''
th = np.array([.5,-.3,.8,.2,1.,-.7,.4,.6,-.9,.1])
pt = ParallelTempering(4, th, calc_e, 3, rng=np.random.RandomState(3))
pool = Pool(2)
for k in range(30):
    pt.burn_and_exchange(pool)
    for b,r in zip(pt.beta, pt.replicas):
        e = calc_e(r.sample, th*b)
        assert np.allclose(e, r.E), (k, e, r.E)
pool.close()
''')
bug('c10-iterate-beta-uses-new-spacing','C10','adapting at least four temperatures with very uneven acceptance ratios',
 'the spacing to the already moved neighbour is used, so the adapted inverse temperatures can come out of order',
 [(S,'newBeta[i-1] = newBeta[i] - (beta[i]-beta[i-1]) * acceptance_ratio[i-1]/avg','newBeta[i-1] = newBeta[i] - (newBeta[i]-beta[i-1]) * acceptance_ratio[i-1]/avg')],
 PRE+'''
rng = np.random.RandomState(0)
b = np.linspace(1/3,1,4)
for a in [np.array([.1,.1,1.])]+[rng.rand(3)+.01 for i in range(200)]:
    nb = ParallelTempering.iterate_beta(b, np.minimum(a,1))
    assert nb[-1]==1 and (np.diff(nb)>0).all(), (a, nb)
''')
bug('c20-parallel-boost-one-seed','C20','C++ parallel sampling with more than one process',
 'every process gets the same seed, so the sample consists of identical blocks',
 [(S,'''            n_cpus = mp.cpu_count()
            self.sample = np.vstack( list(pool.map(f, zip([int(np.ceil(sample_size/n_cpus))]*n_cpus,
                                                            self.rng.randint(2**31-1, size=n_cpus)))) )
''','''            n_cpus = mp.cpu_count()
            self.sample = np.vstack( list(pool.map(f, zip([int(np.ceil(sample_size/n_cpus))]*n_cpus,
                                                            [self.rng.randint(2**31-1)]*n_cpus))) )
''')],
 PRE+'''
import multiprocess as mp
nc = mp.cpu_count()
s = Metropolis(10, np.zeros(55), calc_e=calc_e, iprint=False, rng=np.random.RandomState(0))
s.generate_sample_parallel(20*nc, n_iters=30, burn_in=30)
b = s.sample.reshape(nc, 20, 10)
assert nc<2 or any(not np.array_equal(b[0], x) for x in b[1:])
''')
bug('c20-cond-boost-global-seed','C20','C++ conditional sampling without parallelization, with a generator given to the sampler',
 'the seed comes from numpy\'s global generator, so the sample does not depend on the generator given',
 [(S,'''            bsampler = BoostIsing(self.n, self.theta, int(self.rng.randint(0, 2**31-1)))
            bsampler.generate_cond_sample(''','''            bsampler = BoostIsing(self.n, self.theta, int(np.random.randint(0, 2**31-1)))
            bsampler.generate_cond_sample(''')],
 PRE+'''
out = []
for rep in range(2):
    s = Metropolis(8, np.zeros(36), calc_e=calc_e, iprint=False, rng=np.random.RandomState(5))
    s.generate_cond_sample(20, [(0,1)], n_iters=30, burn_in=30, parallel=False)
    out.append(s.sample)
assert np.array_equal(*out)
''')
bug('c07-potts-boost-keeps-old-sampler','C07','replacing the multipliers of a Potts sampler after it was built, then sampling in C++',
 'the C++ sampler made on construction is used, so updates follow the old multipliers',
 [(S,'        bsampler = BoostPotts3(self.n, self.theta, int(self.rng.randint(0, 2**31-1)))\n','        bsampler = self.bsampler\n')],
 PRE+'''
n=3
s = Potts3(n, np.zeros(3*n+3), rng=np.random.RandomState(1))
th = np.zeros(3*n+3); th[:n] = 4.
s.update_parameters(th)
s.generate_sample(400, n_iters=30, burn_in=100)
assert (s.sample==0).mean()>.8, (s.sample==0).mean()
''')
bug('c07-systematic-burnin-stale-energy','C07','systematic burn-in in Python, then any proposal after an accepted one',
 'the energy is not carried along during a systematic burn-in, so later energy differences are taken from a wrong reference and acceptance is wrong',
 [(S,'''                de = self.sample_metropolis( self._samples[0], E, flip_site=i%self.n )
                E += de
        else:
            for i in range(burn_in):
''','''                de = self.sample_metropolis( self._samples[0], E, flip_site=i%self.n )
        else:
            for i in range(burn_in):
''')],
 PRE+'''
th = np.zeros(21); th[:6] = 4.
s = Metropolis(6, th, calc_e=calc_e, boost=False, iprint=False, rng=np.random.RandomState(1))
m = []
for k in range(100):
    s.generate_sample(1, n_iters=0, burn_in=24, systematic_iter=True, initial_sample=-np.ones((1,6), dtype=int))
    m.append(s.sample.mean())
assert np.mean(m)>.9, np.mean(m)
''')
bug('c11-initial-sample-changed','C11','giving an initial state of the platform integer type to sequential Python sampling',
 'the caller\'s initial state is updated in place while sampling',
 [(S,'''            assert np.array_equal((1,self.n), initial_sample.shape), msg
            self._samples = initial_sample.astype(int)

        E = self.calc_e( self._samples, self.theta )
        self.sample = np.zeros((sample_size, self.n), dtype=int)
        self.E = np.zeros(sample_size)
        
        # burn in
        if sys''','''            assert np.array_equal((1,self.n), initial_sample.shape), msg
            self._samples = initial_sample.astype(int, copy=False)

        E = self.calc_e( self._samples, self.theta )
        self.sample = np.zeros((sample_size, self.n), dtype=int)
        self.E = np.zeros(sample_size)
        
        # burn in
        if sys''')],
 PRE+'''
s = Metropolis(6, np.zeros(21), calc_e=calc_e, boost=False, iprint=False, rng=np.random.RandomState(1))
x = np.ones((1,6), dtype=int)
s.generate_sample(5, n_iters=30, burn_in=30, initial_sample=x)
assert (x==1).all(), x
''')
bug('c21-wolff-field-of-first-site','C21','fields and a cluster of more than one spin',
 'the flip of a cluster is accepted with the field of its first site only, so detailed balance fails',
 [(S,'if self.rng.rand()<np.exp(-2*h[cluster].dot(state[cluster])):','if self.rng.rand()<np.exp(-2*h[initialsite]*state[initialsite]):')],
 PRE+'''
J = np.array([[0,.8,0],[.8,0,.5],[0,.5,0]]); h = np.array([.5,-.4,.6])
w = WolffIsing(J, h); w.rng = np.random.RandomState(1)
X = bin_states(3, True).astype(float)
p = np.exp(X.dot(h)+np.array([x.dot(J).dot(x)/2 for x in X])); p /= p.sum()
s = np.ones(3); m = np.zeros(3); N = 30000
for i in range(N):
    w.one_step(s); m += s
assert np.abs(m/N-p.dot(X)).max()<.05, (m/N, p.dot(X))
''')
bug('c21-iter-cluster-marks-late','C21','a graph with a cycle',
 'sites are marked when explored instead of when found, so a site reached along two paths appears twice in its cluster',
 [(S,'            marked.update(neighbors)\n','            marked.add(newSites[0])\n')],
 PRE+'''
for edges in ([(0,1),(2,3)], [(0,1),(0,2),(1,3),(2,3)], [(0,1),(1,2),(0,2)]):
    a = np.zeros((5,5))
    for i,j in edges: a[i,j] = a[j,i] = 1
    c = iter_cluster(a)
    assert sorted(sum(c, []))==list(range(5)), (edges, c)
''')
