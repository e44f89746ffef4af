REFS=[]
M='coniii/models.py'; F='coniii/mean_field_ising.py'; E='coniii/enumerate.py'; P='coniii/enumerate_potts.py'; I='coniii/ising/utils.py'; A='coniii/ising/automaton.py'; Q='coniii/pseudo_inverse_ising.py'
e=[]
e.append((M,'''        # When sequential sampling should be used.
''','''#end Model
''','''        if sample_method!='metropolis':
            raise NotImplementedError("Unrecognized sampler.")
        self.sampler.update_parameters(multipliers)
        draw = self.sampler.generate_sample_parallel if parallel else self.sampler.generate_sample
        draw(sample_size, n_iters=n_iters, burn_in=burn_in)
        self.sample = self.sampler.sample
'''))
e.append((M,'''            multipliers = multipliers.copy()
            self.n = multipliers.shape[0]

            h = multipliers.diagonal().copy()
            multipliers[np.diag_indices(multipliers.shape[0])] = 0
            multipliers = np.concatenate([h, squareform(multipliers)]) 
''','''            self.n = len(multipliers)
            multipliers = mat2vec(multipliers)
'''))
e.append((M,'''            n = (np.sqrt(25+8*multipliers.size)-5)/2
            assert n==int(n), "Incompatible number of parameters."
            self.n = int(n)
''','''            self.n = 0
            while 3*self.n + self.n*(self.n-1)//2 < multipliers.size:
                self.n += 1
            assert 3*self.n + self.n*(self.n-1)//2==multipliers.size, "Incompatible number of parameters."
'''))
e.append((M,'''        if sample_method=='metropolis' and (type(self) is Ising or type(self) is Triplet):
''','''    def set_rng(self, rng):''','''        if sample_method!='metropolis':
            raise NotImplementedError("Unrecognized sampler %s."%sample_method)
        self.sampleMethod = sample_method
        cls = mcPotts3 if type(self) is Potts3 else Metropolis
        self.sampler = cls(self.n, self.multipliers, self.calc_e, rng=self.rng, **sampler_kwargs)
        self.sample = None

'''))
e.append((F,'''    m = copy.copy(mat)
    if offDiagMult is not None:
        m *= off''','''# 9.15.2014 updated''','''    n = len(mat)
    m = np.array(mat)
    if offDiagMult is not None:
        scale = np.full((n,n), 1.)
        scale[np.triu_indices(n, k=1)] = offDiagMult
        m = m*scale
    out = []
    for d in range(0 if keepDiag else 1, n):
        for i in range(n-d):
            out.append(m[i,i+d])
    return np.array(out)

'''))
e.append((F,'''    J = scipy.zeros((N,N))
    for i,iFull in enumerate(cluster):
        for j,jFull in enumerate(cluster):
            J[iFull,jFull] = Jcluster[i,j]
    return J
''','''    J = scipy.zeros((N,N))
    J[np.ix_(cluster,cluster)] = Jcluster
    return J
'''))
e.append((F,'''    d = scipy.diag(mat)
    matTri = (1.-scipy.tri(len(mat)))*mat
    matSym = replaceDiag(matTri+matTri.T,d)
    return matSym
''','''    n = len(mat)
    out = np.array(mat, dtype=float)
    for i in range(n):
        for j in range(i):
            out[i,j] = out[j,i]
    return out
'''))
e.append((F,'''    piFactor = scipy.repeat( [(freqs-0.5)/(freqs*(1.-freqs))],
                            N, axis=0).T
    pjFactor = scipy.repeat( [freqs], N, axis=0 )
    factor2 = c*piFactor - pjFactor
    hMF = scipy.diag( scipy.dot( JMF, factor2.T  ) ).copy()
''','''    slope = (freqs-.5)/(freqs*(1.-freqs))
    hMF = np.array([(JMF[i]*(c[i]*slope[i] - freqs)).sum() for i in range(N)])
'''))
e.append((F,'''    f = scipy.repeat([freqs],len(freqs),axis=0)
    m = -2.*zeroDiag(J)*f*(1.-f)
    stabilityValue = max(abs( scipy.linalg.eigvals(m) ))
''','''    freqs = np.asarray(freqs)
    m = -2.*zeroDiag(J)*(freqs*(1.-freqs))[None,:]
    stabilityValue = np.abs(np.linalg.eigvals(m)).max()
'''))
e.append((F,'''    return abs(x) + scipy.log(1. + scipy.exp(-2.*abs(x))) - scipy.log(2.)
''','''    return np.logaddexp(x, -x) - np.log(2.)
'''))
e.append((F,'''    logZ = unsummedLogZ(J)
    logp = logZ - logsumexp(logZ)
    return - scipy.sum( scipy.exp(logp) * logp )
''','''    e = unsummedLogZ(J)
    logp = e - np.logaddexp.reduce(e)
    return -(np.exp(logp)*logp).sum()
'''))
e.append((F,'''    mat = samples.T.astype(float).dot(samples)
    mat = mat*(1 - np.tri(len(mat), k=keep_diag*-1))  # only modify entries above diagonal
    mat /= len(samples)  # mat /= np.sum(mat)
    return mat
''','''    s = np.asarray(samples).astype(float)
    return np.triu(s.T @ s, k=0 if keep_diag else 1)/len(s)
'''))
e.append((F,'''                coocIndex1 = diagFlatIndex(i,j,ell)
                coocIndex2 = diagFlatIndex(m,n,ell)
                cooc = scipy.sum(                                           \\
                    samples[:,i]*samples[:,j]*samples[:,m]*samples[:,n])
                f[coocIndex1,coocIndex2] = cooc
                f[coocIndex2,coocIndex1] = cooc
''','''                a, b = diagFlatIndex(i,j,ell), diagFlatIndex(m,n,ell)
                f[a,b] = f[b,a] = np.prod(samples[:,[i,j,m,n]], axis=1).sum()
'''))
e.append((F,'''    fp = scipy.array( fightPossibilities(ell,minSize) )
    coocp = scipy.array([ scipy.outer(f,f) for f in fp ])
    logZ = unsummedLogZ(J,hext,minSize)
    Z = scipy.exp( logZ - logZ.max() )  # normalization cancels
    coocSym = dot(coocp.T,Z)/sum(Z)
''','''    fp = scipy.array( fightPossibilities(ell,minSize) )
    e = unsummedLogZ(J,hext,minSize)
    w = np.exp(e-e.max())
    w /= w.sum()
    coocSym = np.einsum('k,ki,kj->ij', w, fp, fp)
'''))
e.append((F,'''    return -dot(fp,h-hext)-1.0*scipy.sum(dot(fp,JnoDiag)*fp,axis=1)
''','''    return np.array([-(f*(h-hext)).sum() - f.dot(JnoDiag).dot(f) for f in fp])
'''))
e.append((F,'''    fightNumbers = list(range(2**ell))
''','''    return fp''','''    fp = [[(i>>(ell-1-j))&1 for j in range(ell)] for i in range(2**ell)]
    if minSize > 0:
        fp = np.array([x for x in fp if not sum(x)<minSize])
'''))
REFS.append(dict(id='models-mf',edits=e))
e=[]
e.append((E,'''    Xmx = max(X)
    if coeffs is None:
        y = np.exp(X-Xmx).sum()
    else:
        y = np.exp(X-Xmx).dot(coeffs)

    if y<0:
        return np.log(np.abs(y))+Xmx, -1.
    return np.log(y)+Xmx, 1.
''','''    X = np.asarray(X)
    top = X.max()
    w = np.exp(X-top)
    y = w.sum() if coeffs is None else (w*np.asarray(coeffs)).sum()
    sign = -1. if y<0 else 1.
    return np.log(np.abs(y))+top, sign
'''))
e.append((E,'''            if np.mod( sum([binstate[k[i]]=="1" for k in subix]),2 ):
                signs[i] = downSpin
    else:''','''            down = [binstate[k[i]] for k in subix].count("1")
            if down%2==1:
                signs[i] = downSpin
    else:'''))
e.append((E,'''            if np.mod( any([binstate[k[i]]=="0" for k in subix]),2 ):
                signs[i] = downSpin
''','''            signs[i] = int(all(binstate[k[i]]=="1" for k in subix))
'''))
e.append((E,'''    j = 0
    s = ''
    if len(subix)==0:
        return s
    for i in range(len(subix[0])):
        if np.mod( sum([binstate[k[j]]=="1" for k in subix]),2 ):
            s += '-'
        else:
            s += '+'
        s += prefix+br[0]+str(j+ix0)+br[1]
        j += 1

    return s
''','''    if len(subix)==0:
        return ''
    terms = []
    for i in range(len(subix[0])):
        odd = sum(binstate[k[i]]=="1" for k in subix)%2
        terms.append('%s%s%s%d%s'%('-' if odd else '+', prefix, br[0], i+ix0, br[1]))
    return ''.join(terms)
'''))
e.append((P,'''        for k in range(self.k):
            for i in range(self.n):
                siCoeffs = []
                for s in allStates:
                    if int(s[i], 36)==k:
                        siCoeffs.append('1')
                    else:
                        siCoeffs.append('0')
''','''        for k in range(self.k):
            for i in range(self.n):
                siCoeffs = ['1' if int(s[i], 36)==k else '0' for s in allStates]
'''))
e.append((P,'''                term = ''
                for i in range(n):
                    term += 'h[%d]+'%(int(s[i], 36)*n+i)

                for counter,(i,j) in enumerate(combinations(range(n),2)):
                    if s[i]==s[j]:
                        term += 'J[%d]+'%counter

                yield term[:-1], s
''','''                parts = ['h[%d]'%(int(c, 36)*n+i) for i,c in enumerate(s)]
                parts += ['J[%d]'%c for c,(i,j) in enumerate(combinations(range(n),2)) if s[i]==s[j]]
                yield '+'.join(parts), s
'''))
e.append((I,'''        atMin = False
        thisState = s.astype(np.int8)

        while not atMin:        
            dE = self.neighbor_dE(thisState)
            if np.any( dE<0 ):
                ix = dE.argmin()
                thisState[ix] *= -1
            else:
                atMin = True
        return thisState
''','''        thisState = s.astype(np.int8).copy()
        while True:
            dE = self.neighbor_dE(thisState)
            ix = int(np.argmin(dE))
            if not dE[ix]<0:
                break
            thisState[ix] = -thisState[ix]
        return thisState
'''))
e.append((I,'''        dE = np.zeros(self.n)
        for i in range(self.n):
            dE[i] = 2*state[i]*self.hJ[i] +2*state[i]*(state*self.Jmat[i]).sum()
        return dE
''','''        local = self.hJ[:self.n] + self.Jmat.dot(state)
        return 2.*state*local
'''))
e.append((A,'''        dE=0
        dim=lattice.shape
''','''def coarse_grain(''','''        nx, ny = lattice.shape
        s = lattice[i,j]
        around = (int(lattice[(i+nx-1)%nx,j]) + int(lattice[(i+1)%nx,j]) +
                  int(lattice[i,(j+1)%ny]) + int(lattice[i,(j+ny-1)%ny]))
        dE = 2*s*(J*around + h)
        if dE<=0:
            lattice[i,j] = -s
        else:
            if np.random.rand()<np.exp(-dE):
                lattice[i,j] = -s
        return lattice

'''))
e.append((A,'''    reLattice=np.zeros((lattice.shape[0]//factor, lattice.shape[1]//factor), dtype=np.int64)
    reL=len(reLattice)

    for i in range(factor):
        for j in range(factor):
            reLattice+=lattice[i::factor,j::factor][:reL,:reLattice.shape[1]]
    reLattice=np.sign(reLattice)
''','''    a, b = lattice.shape[0]//factor, lattice.shape[1]//factor
    blocks = lattice[:a*factor,:b*factor].astype(np.int64).reshape(a,factor,b,factor)
    reLattice = np.sign(blocks.sum(axis=(1,3)))
'''))
e.append((Q,'''    logLs = -( filterVec * scipy.logaddexp( 0, energies ) )  # filterVec may be of unsigned type
''','''    use = filterVec.astype(bool)
    logLs = np.where( use, -np.logaddexp(0, energies), 0. )
'''))
e.append((Q,'''import scipy.optimize
''','''import scipy.optimize
import numpy as np
'''))
e.append((Q,'''    coocs = scipy.repeat([sigmaRtilde],ell,axis=0).T * samplesRhat # (#samples)x(ell)

    return scipy.dot( coocs.T, filterVec * 1./(1. + exp(-energies)) )
''','''    weight = sigmaRtilde * filterVec / (1. + exp(-energies))
    return weight.dot(samplesRhat)
'''))
REFS.append(dict(id='enum-ising',edits=e))
