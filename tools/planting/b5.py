BUGS=[]
def bug(id,prop,needs,breaks,edits,demo): BUGS.append(dict(id=id,prop=prop,needs=needs,breaks=breaks,edits=edits,demo=demo))
U='coniii/utils.py'; V='coniii/solvers.py'; E='coniii/enumerate.py'; P='coniii/enumerate_potts.py'; M='coniii/mean_field_ising.py'
I='coniii/ising/utils.py'; A='coniii/ising/automaton.py'; MO='coniii/models.py'; S='coniii/samplers.py'; C='cpp/samplers.cpp'; X='coniii/pseudo_inverse_ising.py'
PRE='''
import numpy as np, warnings
warnings.simplefilter('ignore')
from itertools import combinations, product
from scipy.spatial.distance import squareform
from coniii.utils import *
'''
bug('c01-zero-coupling-skipped','C01','a model with a coupling that is exactly zero, followed by others',
 'skipping vanishing couplings also skips the step of the index, later pairs get the wrong coupling',
 [(U,'''                for j in range(i+1,s.shape[1]):
                    e[n] += J[k]*s[n,i]*s[n,j]
                    k += 1
        return e

    @njit("float64[:](int64[:,:],float64[:])")
    def calc_e(s, params):
        """
        Parameters
        ----------
        s : 2D ndarray of ints''','''                for j in range(i+1,s.shape[1]):
                    if J[k]!=0:
                        e[n] += J[k]*s[n,i]*s[n,j]
                        k += 1
        return e

    @njit("float64[:](int64[:,:],float64[:])")
    def calc_e(s, params):
        """
        Parameters
        ----------
        s : 2D ndarray of ints''')],
 PRE+'''
ce, ob, _ = define_ising_helper_functions()
p = np.array([.1,.2,.3, 0., .5, .7]); s = np.array([[1,-1,1],[1,1,-1]])
assert np.allclose(ce(s,p), -ob(s).dot(p))
''')
bug('c02-matrix-to-vector-clears','C02','the matrix is used again after having been converted to a vector',
 'converting a matrix to a vector clears the diagonal of the caller\'s matrix',
 [(U,'''    return replace_diag(mat, np.zeros(mat.shape[0]))''','''    np.fill_diagonal(mat, 0)
    return mat'''),
  (U,'''    return np.concatenate([multipliers.diagonal(), squareform(zero_diag(multipliers))])''',
  '''    fields = multipliers.diagonal().copy()
    return np.concatenate([fields, squareform(zero_diag(multipliers))])''')],
 PRE+'''
m = np.array([[1.,.5,.2],[.5,2.,.3],[.2,.3,3.]])
assert (mat2vec(m)==mat2vec(m)).all()
''')
bug('c03-lazy-states-share-memory','C03','the lazily enumerated symmetric states are kept (a list) instead of used one by one',
 'every state of the generator is the same array, overwritten at the next step',
 [(U,'''        for i in range(2**n):
            if sym is False:
                yield np.array(list(np.binary_repr(i,width=n))).astype('int')
            else:
                yield np.array(list(np.binary_repr(i,width=n))).astype('int')*2-1''','''        state = np.zeros(n, dtype=int)
        for i in range(2**n):
            if sym is False:
                yield np.array(list(np.binary_repr(i,width=n))).astype('int')
            else:
                state[:] = np.array(list(np.binary_repr(i,width=n))).astype('int')*2-1
                yield state''')],
 PRE+'''
l = list(xbin_states(3, True))
assert len({tuple(s) for s in l})==8
''')
bug('c03-random-neighbours-only-last','C03','more than one random neighbour is asked for in the {-1,1} basis',
 'all random neighbours are written to the same row, the others stay at zero',
 [(U,'''            neighbors[i+s.size]=newneighbor''','''            neighbors[s.size]=newneighbor''')],
 PRE+'''
x = adj_sym(np.array([1.,-1.,1.,1.,-1.]), 3)
assert x.shape==(8,5) and (np.abs(x)==1).all()
''')
bug('c04-fourth-order-sign','C04','interactions of fourth order converted to {0,1}',
 'the sign of contributions three orders lower is taken as positive',
 [(U,"params[subcounter+counter+1][ix] += ijkcoeff * 2**suborder * (-1)**(order-suborder)",
     "params[subcounter+counter+1][ix] += ijkcoeff * 2**suborder * (-1 if order-suborder==1 else 1)")],
 PRE+'''
n=4; rng=np.random.RandomState(0)
p=[rng.randn(4),rng.randn(6),rng.randn(4),rng.randn(1)]
q=ising_convert_params(p,'01')
def e(s,p): return -sum(p[k-1][i]*np.prod([s[a] for a in ix]) for k in range(1,5) for i,ix in enumerate(combinations(range(n),k)))
d=[e(2*s-1,p)-e(s,q) for s in bin_states(n)]
assert np.ptp(d)<1e-9, np.ptp(d)
''')
bug('c05-missing-state-shifts','C05','a list of states with one that does not occur in the sample before others that do',
 'the counts of the states after it move up by one place',
 [(U,'''            freq[j] = (ix*weights).sum()
            j+=1''','''            if ix.any():
                freq[j] = (ix*weights).sum()
                j+=1''')],
 PRE+'''
v=np.array([[0,1],[1,1],[1,1],[1,0]])
assert np.allclose(state_probs(v, bin_states(2)), [0,.25,.25,.5])
''')
bug('c05-empty-kcorr-magnitude','C05','k-th order correlations with empty entries',
 'the number of complete entries is taken from the spins of the first index only',
 [(U,'''            kcorr[counter] = p[p!=0].mean()''','''            kcorr[counter] = p.sum()/(X[:,ijk[:-1]]!=0).all(1).sum()''')],
 PRE+'''
X=np.array([[1,1,0],[1,-1,1],[-1,0,1],[1,1,1],[0,1,-1]])
o=k_corr(X,2,exclude_empty=True)
e=[np.mean([x[i]*x[j] for x in X if x[i]*x[j]]) for i,j in combinations(range(3),2)]
assert np.allclose(o,e)
''')
bug('c06-exact-cancellation','C06','averages that vanish exactly (models without fields of any kind)',
 'the sign of a vanishing sum is read from the largest term and its logarithm clipped, so an average of exactly zero is small but not zero',
 [(E,'''    if y<0:
        return np.log(np.abs(y))+Xmx, -1.
    return np.log(y)+Xmx, 1.''','''    y = y if abs(y)>1e-4 else np.sign(y)*1e-4 or 1e-4
    if y<0:
        return np.log(np.abs(y))+Xmx, -1.
    return np.log(y)+Xmx, 1.''')],
 PRE+'''
from coniii.ising_eqn.ising_eqn_3_sym import calc_observables
assert np.abs(calc_observables(np.zeros(6))).max()<1e-9
''')
bug('c07-cpp-potts-old-bond','C07','the C++ Potts sampler with couplings: the pair of the proposed site with itself',
 'the old state of the site is compared after the site was changed: a neighbour agreeing with the old state counts double when two couplings are equal',
 [(C,'''        if (oState==s[i]) {
            de += couplingMat[randix][i];
        }
        if (s[randix]==s[i]) {''','''        if (oState==s[i]) {
            de += couplingMat[randix][i];
        }
        if (s[randix]==s[i] && s[randix]!=oState && i<=randix+1) {''')],
 PRE+'''
from coniii.samplers import Potts3
n=4; h=np.zeros(12); J=np.zeros(6); J[2]=3.   # sites 0 and 3
th=np.concatenate([h,J]); s=Potts3(n,th,rng=np.random.RandomState(0))
s.generate_sample(20000, n_iters=30)
p=(s.sample[:,0]==s.sample[:,3]).mean(); q=np.exp(3)/(np.exp(3)+2)
assert abs(p-q)<.03,(p,q)
''')
bug('c08-history-energy-late','C08','the history of energies is recorded with a systematic sweep',
 'the energies of the history are those before the update',
 [(S,'''                        de = self.sample_metropolis( self._samples[0], E, flip_site=j%self.n )
                        E += de
                        history[counter] = E
                        counter += 1''','''                        de = self.sample_metropolis( self._samples[0], E, flip_site=j%self.n )
                        history[counter] = E
                        E += de
                        counter += 1''')],
 PRE+'''
from coniii.samplers import Metropolis
ce=define_ising_helper_functions()[0]
m=Metropolis(3,np.array([.5,-.3,.2,.4,.1,-.6]),ce,rng=np.random.RandomState(3),boost=False,iprint=False)
h=m.generate_sample(30,n_iters=4,systematic_iter=True,saveHistory=True)
assert np.allclose(h[3::4][:30], m.E.ravel()), 1
''')
bug('c08-wolff-history-shares-start','C08','cluster sampling from a given initial sample with the history saved',
 'the history starts with the states after the first update',
 [(S,'''            history[:,:,0] = sample.copy()
            for i,s in enumerate(sample):
                for j in range(n_iters):
                    self.one_step(s,initialsite=j%self.n)
                    history[i,:,j+1] = s.copy()''','''            for i,s in enumerate(sample):
                for j in range(n_iters):
                    self.one_step(s,initialsite=j%self.n)
                    history[i,:,j+1] = s.copy()
                    if j==0: history[i,:,0] = s''')],
 PRE+'''
from coniii.samplers import WolffIsing
w=WolffIsing(np.zeros(3),np.ones(3)*-20.)
s,h=w.generate_sample(4,3,initialSample=np.ones((4,3)),save_history=True)
assert (h[:,:,0]==1).all()
''')
bug('c09-one-free-spin-left','C09','conditional energies where a single free spin comes after the last fixed one',
 'that spin is left out of the energy',
 [(S,'''        # Any remaining spots to fill.
        for ii in range(i0, n):
            fullstate[0,ii] = state[0,stateix]
            stateix += 1
        return calc_e(fullstate, theta)''','''        # Any remaining spots to fill.
        if i0<n-1:
            for ii in range(i0, n):
                fullstate[0,ii] = state[0,stateix]
                stateix += 1
        return calc_e(fullstate, theta)''')],
 PRE+'''
from coniii.samplers import define_jit_cond_calc_e
ce=define_ising_helper_functions()[0]
f=define_jit_cond_calc_e(3,ce,np.array([1,-1]))
th=np.array([.1,.2,.3,.4,.5,.6])
assert np.allclose(f(np.array([[1,-1]]),th), ce(np.array([[1,-1,-1]]),th))
''')
bug('c10-exchange-before-swaps','C10','two accepted exchanges in a row in one round',
 'all acceptance probabilities are evaluated before the first exchange, later ones use the energy of a state that moved away',
 [(S,'''        for i in range(self.nReplicas-1):
            exchangeProb = self._acceptance_ratio(1, 0, pairs=[(i,i+1)])
            if self.rng.rand()<exchangeProb:''','''        exchangeProb = self._acceptance_ratio(1, 0)
        for i in range(self.nReplicas-1):
            if self.rng.rand()<exchangeProb[i]:''')],
 PRE+'''
from coniii.samplers import ParallelTempering
class Pool:
    def close(self): pass
ce=define_ising_helper_functions()[0]
pt=ParallelTempering.__new__(ParallelTempering)
pt.n=2; pt.nReplicas=3; pt.beta=np.array([.1,.5,1.]); pt.repExBurnin=1
class R: pass
def rep(i,e):
    r=R(); r.sample=np.zeros((1,2)); r._samples=r.sample; r.index=i; r.E=np.array([e*pt.beta[i]]); return r
pt.replicas=[rep(0,-30.),rep(1,-10.),rep(2,-20.)]
pt.burn_in_replicas=lambda **k: None
class G:
    def rand(self,*a): return .5
pt.rng=G()
pt.burn_and_exchange(Pool())
# (0,1) swaps: the lowest energy moves on to the coldest place
assert [r.index for r in pt.replicas]==[1,2,0],[r.index for r in pt.replicas]
''')
bug('c11-sample-from-old-parameters','C11','new multipliers are stored and a sample is drawn without repeating them',
 'sampling without explicit multipliers uses those the sampler had before',
 [(MO,'''        if multipliers is None:
            multipliers = self.multipliers
        sample_method = sample_method''','''        if multipliers is None:
            multipliers = self.sampler.theta
        sample_method = sample_method''')],
 PRE+'''
from coniii.models import Ising
m=Ising(3,rng=np.random.RandomState(0)); m.setup_sampler(sample_size=50)
m.set_multipliers(np.array([9.,-9.,9.,0,0,0]))
m.generate_sample(30,100,parallel=False)
assert (m.sample==[1,-1,1]).mean()>.9
''')
bug('c11-potts-stale-after-none','C11','a Potts model whose multipliers are replaced twice',
 'the functions are only rebuilt when they do not exist yet',
 [(MO,'''        self.multipliers = multipliers

        # if system is small enough, we can use enumeration to calculate observables from the multipliers
        if not self._calc_observables is None:
            self.calc_observables = lambda x=self.multipliers: self._calc_observables(x)
            self.calc_p = lambda x=self.multipliers: self._calc_p(x)
#end Potts3''','''        self.multipliers = multipliers

        # if system is small enough, we can use enumeration to calculate observables from the multipliers
        if not self._calc_observables is None and not 'calc_p' in self.__dict__:
            self.calc_observables = lambda x=self.multipliers: self._calc_observables(x)
            self.calc_p = lambda x=self.multipliers: self._calc_p(x)
#end Potts3''')],
 PRE+'''
import sys, types, coniii
from coniii.models import Potts3
m=types.ModuleType('coniii.ising_eqn.ising_eqn_2_potts')
m.calc_observables=lambda x: x*2; m.p=lambda x: x*3
sys.modules[m.__name__]=m
p=Potts3(np.arange(7.)); p.set_multipliers(np.arange(7.)+1)
assert (p.calc_observables()==(np.arange(7.)+1)*2).all()
assert (p.calc_p()==(np.arange(7.)+1)*3).all()
''')
bug('c12-settings-one-round-late','C12','learning settings that depend on the iteration',
 'each iteration uses the step limits that were meant for the one before',
 [(V,'''                errflag = 1
                keepLooping=False
            else:
                learn_params_kwargs, self.model.sampleSize = custom_convergence_f(counter)
        
        self.multipliers = self._multipliers.copy()

        # generate sample''','''                errflag = 1
                keepLooping=False
            else:
                learn_params_kwargs, self.model.sampleSize = custom_convergence_f(counter-1)
        
        self.multipliers = self._multipliers.copy()

        # generate sample''')],
 PRE+'''
from coniii.solvers import MCH
X=np.array([[1,1,-1],[1,-1,1],[-1,-1,1],[1,1,1]]*5)
s=MCH(X,sample_size=50,rng=np.random.RandomState(0),iprint=False)
seen=[]; o=s.learn_parameters_mch
def rec(a,b,**k): seen.append(k['eta']); return o(a,b,**k)
s.learn_parameters_mch=rec
s.solve(maxiter=3,tol=1e-9,tolNorm=1e-9,n_iters=5,burn_in=5,custom_convergence_f=lambda i: {'maxdlamda':1.,'eta':1/(i+1)})
assert np.allclose(seen,[1,.5,1/3,.25]),seen
''')
bug('c12-jacobian-drifts','C12','the Jacobian of the predictions for more than one parameter, with a step that is not tiny',
 'the change of a parameter is not taken back before the next one is varied',
 [(V,'''            jac[i,:] = (dConstraintsPlus-dConstraintsMinus)/(2*eps)
            dlamda[i] += eps''','''            jac[i,:] = (dConstraintsPlus-dConstraintsMinus)/(2*eps)''')],
 PRE+'''
from coniii.solvers import MCH
s=MCH.__new__(MCH)
s._multipliers=np.zeros(3)
class Md: sample=np.zeros((1,2))
s.model=Md()
seen=[]
s.mch_approximation=lambda X,d: (seen.append(d.copy()), d)[1]
s.estimate_jac(eps=.5)
assert all((np.abs(d)>1e-9).sum()==1 for d in seen), seen
''')
bug('c13-given-constraints-kept','C13','solving for given constraints and then for those of the sample with the same solver',
 'constraints passed to one call replace those of the sample for later calls',
 [(V,'''        if constraints is None:
            constraints = self.constraints
            assert not constraints is None
        if not initial_guess is None:''','''        if constraints is None:
            constraints = self.constraints
            assert not constraints is None
        else:
            self.constraints = constraints
        if not initial_guess is None:''')],
 PRE+'''
from coniii.solvers import Enumerate
X=np.array([[1,1,-1],[1,-1,1],[-1,-1,1],[1,1,1],[-1,1,-1]])
s=Enumerate(X,iprint=False); a=s.solve()
s.solve(constraints=np.array([.1,.2,-.1,0.,0.1,0.]))
assert np.allclose(a,s.solve(),atol=1e-6)
''')
bug('c14-positive-contributions-dropped','C14','a cluster of three or more whose contribution to the entropy is positive',
 'the threshold is compared with minus the contribution, positive ones are never kept',
 [(V,'if (abs(deltaSgammaU) > T) and (gammaU not in clusters[size+1]):','if (-deltaSgammaU > T) and (gammaU not in clusters[size+1]):')],
 PRE+'''
from coniii.solvers import ClusterExpansion
import coniii.solvers
for seed in range(60):
    r=np.random.RandomState(seed); X=r.choice([-1,1],size=(60,3)); X[:,1]=np.where(r.rand(60)<.7,X[:,0],X[:,1]); X[:,2]=np.where(r.rand(60)<.7,X[:,1],X[:,2])
    c=ClusterExpansion(X,iprint=False)
    _,_,cl,dS,_=c.solve(1e-9,full_output=True,iprint=False)
    if dS[(0,1,2)]>1e-6:
        assert cl[3]==[[0,1,2]],cl
        break
else: raise SystemExit('no example')
''')
bug('c15-later-data-states-kept','C15','data states are left out of the neighbours, and a neighbour appears later in the list of data states',
 'only data states before the current one are removed from its neighbours',
 [(V,'''        for s in Xuniq:
            adjacentStates.append( self.adj(s).astype(int) )''','''        for k, s in enumerate(Xuniq):
            adjacentStates.append( self.adj(s).astype(int) )'''),
  (V,'''                    if np.any(np.all(t[None,:]==Xuniq,1)):''','''                    if np.any(np.all(t[None,:]==Xuniq[:k],1)):''')],
 PRE+'''
from coniii.solvers import MPF
X=np.array([[1,1,-1],[1,-1,1],[1,1,1]])
s=MPF(X,iprint=False)
u=np.unique((X+1)//2,axis=0)
for a in s.list_adjacent_states(u,False):
    assert not any((t==v).all() for t in a for v in u)
''')
bug('c16-hessian-own-column','C16','the second derivatives without the precomputed products, samples where the spin is down',
 'the products use the sample itself instead of the one with the conditioned spin set to one',
 [(V,'''            pairCoocRhat = self.pair_cooc_mat(samplesRhat)
        
        energyMults''','''            pairCoocRhat = self.pair_cooc_mat(2.*X)
        
        energyMults''')],
 PRE+'''
from coniii.solvers import Pseudo
X=np.array([[0,1,1],[1,0,1],[0,0,1],[1,1,0]]); s=Pseudo(2*X-1,iprint=False)
J=np.array([.3,-.2,.5]); H=s.cond_hess(1,X,J)
n=np.zeros((3,3)); e=1e-5
for i in range(3):
    d=np.zeros(3); d[i]=e
    n[i]=(s.cond_jac(1,X,J+d)-s.cond_jac(1,X,J-d))/(2*e)
assert np.allclose(np.abs(H),np.abs(n),atol=1e-5),(H,n)
''')
bug('c17-similarity-magnitude-ties','C17','negative similarities of larger magnitude than the positive ones',
 'pairs are chosen by the magnitude of their similarity',
 [(U,'''        cij = squareform(sim_func(coarseX)).astype(float)''','''        cij = np.abs(squareform(sim_func(coarseX)).astype(float))''')],
 PRE+'''
X=np.arange(8).reshape(2,4)
sim=lambda Y: np.array([.1,.5,-.9,-.8,.4,.2])[:Y.shape[1]*(Y.shape[1]-1)//2]
Y,b=coarse_grain_with_func(X,1,sim,lambda a:a[:,0])
assert sorted(map(sorted,b))==[[0,2],[1,3]],b
''')
bug('c18-small-descents-ignored','C18','energy differences smaller than a thousandth',
 'flips that lower the energy by very little are not made, the state returned is not a local minimum',
 [(I,'''            if np.any( dE<0 ):''','''            if np.any( dE<-1e-3 ):''')],
 PRE+'''
from coniii.ising.utils import Ising
m=Ising(3,h=np.array([1e-4,1e-4,1e-4]),J=np.zeros(3))
assert (m.find_basin(-np.ones(3))==1).all()
''')
bug('c18-block-sum-overflow','C18','block spins of more than 127 lattice sites',
 'the sums are kept in eight bits and wrap around',
 [(A,'dtype=np.int64)','dtype=np.int8)')],
 PRE+'''
from coniii.ising.automaton import coarse_grain
assert (coarse_grain(np.ones((24,24),dtype=np.int8),12)==1).all()
''')
bug('c19-external-field-only-weights','C19','averages in an external field with a minimum size',
 'the averages are taken without the external field when a minimum size is given',
 [(M,'''    Z = unsummedZ(J,hext,minSize)
    coocSym''','''    Z = unsummedZ(J,hext if minSize==0 else 0,minSize)
    coocSym''')],
 PRE+'''
import coniii.mean_field_ising as mf
J=np.diag([.3,-.2,.1])
assert np.allclose(mf.coocExpectations(J,hext=.7,minSize=1),mf.coocExpectations(J-np.eye(3)*.7,minSize=1))
''')
bug('c19-free-energy-derivative','C19','the entropy of homogeneous systems with a field',
 'the field is left out of one factor of the temperature derivative of the free energy',
 [(M,'''    return -N*Jbar*m*m + N*(2.*Jbar*m + h)*scipy.tanh(2.*Jbar*m + h) + 0.5''','''    return -N*Jbar*m*m + N*2.*Jbar*m*scipy.tanh(2.*Jbar*m + h) + 0.5''')],
 PRE+'''
import coniii.mean_field_ising as mf
h,J,N=.4,.1,5
s=np.array(list(product([-1,1],repeat=N))); w=np.exp(J*s.sum(1)**2+h*s.sum(1)); p=w/w.sum()
assert abs(mf.SHomogeneous(h,J,N)+(p*np.log(p)).sum())<1e-6
''')
bug('c20-set-rng-not-passed','C20','the generator of a model is replaced after its sampler was set up',
 'the sampler goes on with the old generator',
 [(MO,'''        self.rng = rng
        self.sampler.rng = rng''','''        self.rng = rng
        self.sampler.rng = self.sampler.rng or rng''')],
 PRE+'''
from coniii.models import Ising
def draw(seed):
    m=Ising(4,rng=np.random.RandomState(seed)); m.setup_sampler(sample_size=20)
    m.set_rng(np.random.RandomState(5)); m.generate_sample(3,3,parallel=False); return m.sample
assert (draw(1)==draw(2)).all()
''')
bug('c20-potts-parallel-clock','C20','parallel Potts samples in C++ drawn twice from equal generators',
 'the seeds come from numpy\'s global generator',
 [(S,'''        self.sample = np.vstack( list(pool.map(f, zip([int(np.ceil(sample_size/n_cpus))]*n_cpus,
                                                        self.rng.randint(2**31-1, size=n_cpus)))) )
        pool.close()''','''        self.sample = np.vstack( list(pool.map(f, zip([int(np.ceil(sample_size/n_cpus))]*n_cpus,
                                                        np.random.randint(2**31-1, size=n_cpus)))) )
        pool.close()''')],
 PRE+'''
from coniii.samplers import Potts3
def d():
    s=Potts3(3,np.zeros(12),n_cpus=2,rng=np.random.RandomState(4)); s.generate_sample_parallel(20,n_iters=5); return s.sample
assert (d()==d()).all()
''')
bug('c21-one-number-for-all-bonds','C21','a site with several neighbours that can join the cluster',
 'the bonds from a site are all decided by the same random number',
 [(S,'self.expdJ[:,site],self.rng.rand(self.n)).tolist()','self.expdJ[:,site],np.full(self.n, self.rng.rand())).tolist()')],
 PRE+'''
from coniii.samplers import WolffIsing
J=np.zeros((3,3)); J[0,1]=J[1,0]=J[0,2]=J[2,0]=.35
w=WolffIsing(J,np.zeros(3)); w.rng=np.random.RandomState(0)
s=np.ones(3); w.expdJ=np.exp(-2*J)
c=[len(w.build_cluster(s,0)) for i in range(3000)]
assert np.mean(np.array(c)==2)>.2
''')
bug('c22-final-strength-scale','C22','the strength found is not zero',
 'the strength found is translated with another scale than the ones that were tried',
 [(V,'''        meanFieldPriorLmbdaMin = gammaPrimeMin / (pmean**2 * (1.-pmean)**2)''','''        meanFieldPriorLmbdaMin = gammaPrimeMin / (pmean * (1.-pmean))**4''')],
 PRE+'''
import coniii.solvers as sv, coniii.mean_field_ising as mf
r=np.random.RandomState(0); X=r.choice([-1,1],size=(200,3)); X[:,1]=np.where(r.rand(200)<.6,X[:,0],X[:,1])
seen=[]; o=mf.JmeanField
def rec(c,**k): seen.append(k['meanFieldPriorLmbda']); return o(c,**k)
mf.JmeanField=rec
sv.minimize_scalar=lambda f,**k: (f(.3), {'x':.3})[1]
s=sv.RegularizedMeanField(X,sample_size=20,rng=np.random.RandomState(1)); s.solve()
assert abs(seen[-1]-seen[-2])<1e-12,seen
''')
