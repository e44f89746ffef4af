REFS=[]
U='coniii/utils.py'
e=[]
e.append((U,'''    if i<j:
        k = 0
        for l in range(1,i+2):
''','''@njit(cache=True)
def ind_to_sub(n, ix):''','''    if i==j:
        raise Exception("Indices cannot be the same.")
    lo = min(i,j)
    hi = max(i,j)
    k = (lo+1)*n - (lo+1)*(lo+2)//2
    assert k>=0
    return k-n+hi

'''))
e.append((U,'''    k = 0
    for i in range(n-1):
        for j in range(i+1,n):
            if k==ix:
                return (i,j)
            k += 1
 
''','''    if ix<0:
        return None
    start = 0
    for i in range(n-1):
        width = n-1-i
        if ix<start+width:
            return (i, ix-start+i+1)
        start += width

'''))
e.append((U,'''    b = np.ascontiguousarray(mat)''','''def calc_overlap(sample''','''    mat = np.ascontiguousarray(mat)
    keys = mat.view(np.dtype((np.void, mat.dtype.itemsize * mat.shape[1]))).ravel()
    out = np.unique(keys, return_index=True, return_inverse=True)
    return out[2] if return_inverse else out[1]

'''))
e.append((U,'''    overlap = sample.astype(float).dot(sample.T)
    if''','''def pair_corr(X,''','''    sample = sample.astype(float)
    norm = float(sample.shape[1])
    if ignore_zeros:
        filled = (sample!=0).sum(1)
        norm = np.minimum(filled[:,None], filled[None,:])
    return (sample @ sample.T) / norm

'''))
e.append((U,'''    # Calculate pairwise correlations depending on whether''','''def bin_states(n''','''    iu = np.triu_indices(N, k=1)
    if type(weights) is tuple:
        si = X.sum(0) * weights[0]
        sisj = np.einsum('ki,kj->ij', X.astype(float), X)[iu] * weights[1]
    else:
        wX = X*weights[:,None]
        si = wX.sum(0)
        sisj = (X[:,iu[0]] * wX[:,iu[1]]).sum(0)

    if subtract_mean:
        sisj = sisj - si[iu[0]]*si[iu[1]]

    if concat:
        return np.concatenate((si,sisj))
    return si, sisj

'''))
e.append((U,'''    v = np.array([list(np.binary_repr(i,width=n)) for i in range(2**n)]).astype(int)

    if sym''','''def k_corr(X''','''    v = (np.arange(2**n)[:,None] >> np.arange(n-1,-1,-1)[None,:]) & 1
    return v*2-1 if sym else v

'''))
e.append((U,'''    S, N = X.shape
    kcorr = np.zeros(int(binom(N,k)))
''','''def xbin_states(n''','''    S, N = X.shape
    tuples = list(combinations(range(N), k))
    kcorr = np.empty(len(tuples))
    if weights is None:
        weights = np.full(S, 1/S)
    for c,t in enumerate(tuples):
        p = np.ones(S)
        for i in t:
            p = p*X[:,i]
        if exclude_empty:
            kcorr[c] = p[p!=0].mean()
        else:
            kcorr[c] = weights.dot(p)
    return kcorr

'''))
e.append((U,'''    def v():
        for i in range(2**n):
            if sym''','''@njit
def xpotts_states''','''    values = (-1,1) if sym else (0,1)
    def v():
        for i in range(2**n):
            yield np.array([values[(i>>(n-1-j))&1] for j in range(n)])

    return v()

'''))
e.append((U,'''    if base<=10:
        return _small_base''','''@njit
def _small_base''','''    assert base<=36
    ALPHANUM = '0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ'
    rep = [ALPHANUM[0]]
    rep.pop()
    while i>0:
        rep.append(ALPHANUM[i%base])
        i //= base
    return rep[::-1]

'''))
e.append((U,'''    if convert_to=='11':
        # Convert from 0,1 to -/+1
        Jp = J/4.
        hp = h/2 + np.sum(Jmat,1)/4.
    elif''','''        # Convert from -/+1 to 0,1
''','''    rows = Jmat.sum(axis=1)
    if convert_to=='11':
        hp = (2*h + rows)/4.
        Jp = .25*J
    elif convert_to=='01':
'''))
e.append((U,'''        hp = 2.*(h - np.sum(Jmat,1))
        Jp = J*4.
''','''        hp = -2.*rows + 2.*h
        Jp = 4.*J
'''))
e.append((U,'''                for subcounter,suborder in enumerate(range(order-1,0,-1)):
                    for subijk in combinations(ijk, suborder):
                        ix = unravel_index(subijk, n)
                        params[subcounter+counter+1][ix] += ijkcoeff * 2**-order
''','''                half = ijkcoeff * 2**-order
                for suborder in range(1, order):
                    for subijk in combinations(ijk, suborder):
                        params[counter+order-suborder][unravel_index(subijk, n)] += half
'''))
e.append((U,'''    ix = sum([int(binom(n-1-i,len(ijk)-1)) for i in range(ijk[0])])
''','''def multinomial(''','''    k = len(ijk)
    ix = 0
    last = -1
    for d in range(k):
        for i in range(last+1, ijk[d]):
            ix += int(round(binom(n-1-i, k-d-1)))
        last = ijk[d]
    return ix

'''))
e.append((U,'''    splitp = []
    counter = 0
    i = 1
''','''def convert_corr(''','''    splitp = []
    start = 0
    order = 1
    while start<len(p):
        stop = start + int(binom(n, order))
        splitp.append(p[start:stop])
        start, order = stop, order+1
    return splitp

'''))
e.append((U,'''        newsisj = np.zeros(sisj.shape)
        k = 0
        for i in range(len(si)-1):
            for j in range(i+1,len(si)):
                newsisj[k] = 4*sisj''','''    elif convert_to=='01':
        newsisj''','''        iu = np.triu_indices(len(si), k=1)
        newsisj = 4*sisj - 2*(si[iu[0]] + si[iu[1]]) + 1.
        newsi = 2*si - 1
'''))
e.append((U,'''        freq = np.zeros(allstates.shape[0])
        for vote''','''        if np.isclose(np.sum(freq)''','''        freq = np.array([((v==vote).all(1)*weights).sum() for vote in allstates], dtype=float)
'''))
e.append((U,'''    return mat - np.diag(mat.diagonal()) + np.diag(newdiag)
''','''    out = mat.astype(np.result_type(mat, newdiag))
    np.fill_diagonal(out, newdiag)
    return out
'''))
REFS.append(dict(id='utils-a',edits=e))
e=[]
e.append((U,'''        ix = [r] 
        multipliersr = np.zeros(N)
''','''    @njit
    def calc_observables_r(r, X, N=N):''','''        ix = [r]
        for i in range(N):
            if i!=r:
                ix.append( N + sub_to_ind(N, min(i,r), max(i,r)) )
        multipliersr = np.zeros(N)
        for c in range(N):
            multipliersr[c] = multipliers[ix[c]]
        return multipliersr, ix

'''))
e.append((U,'''        for rowix in range(X.shape[0]):
            ixcounter = 1
            obs[rowix,0] = X[rowix,r]
''','''    return get_multipliers_r, calc_observables_r 

def define_pseudo_potts''','''        for rowix in range(X.shape[0]):
            obs[rowix,0] = X[rowix,r]
            ixcounter = 1
            for i in range(N):
                if i==r:
                    continue
                obs[rowix,ixcounter] = X[rowix,i]*X[rowix,r]
                ixcounter += 1
        return obs

'''))
e.append((U,'''            for i in range(n-1):
                for j in range(i+1,n):
                    if i==r:
                        obs[rowix,ixcounter] = X''','''        return obs, otherobs, otherstates
''','''            for i in range(n):
                if i==r:
                    continue
                obs[rowix,ixcounter] = X[rowix,i]==X[rowix,r]
                for c in range(k-1):
                    otherobs[c][rowix,ixcounter] = X[rowix,i]==otherstates[rowix,c]
                ixcounter += 1
'''))
e.append((U,'''        e = -fast_sum(params[s.shape[1]:],s)
        e -= np.sum(s*params[:s.shape[1]],1)
        return e
''','''        n = s.shape[1]
        e = np.zeros(s.shape[0])
        for row in range(s.shape[0]):
            k = n
            for i in range(n):
                e[row] -= params[i]*s[row,i]
                for j in range(i+1,n):
                    e[row] -= params[k]*s[row,i]*s[row,j]
                    k += 1
        return e
'''))
e.append((U,'''        ZFraction = len(dE) / np.exp(logsumexp(-dE))
        predsisj = pair_corr(samples, weights=np.exp(-dE)/len(dE), concat=True) * ZFraction  
''','''        w = np.exp(-dE - logsumexp(-dE))
        predsisj = pair_corr(samples, weights=w, concat=True)
'''))
e.append((U,'''        dE -= dE.min()
        ZFraction = 1. / np.mean(np.exp(-dE))
        predsisj = pair_corr( samples, weights=np.exp(-dE)/len(dE) )[1] * ZFraction  
''','''        w = np.exp(dE.min()-dE)
        w /= w.sum()
        predsisj = pair_corr(samples, weights=w)[1]
'''))
e.append((U,'''        ZFraction = len(dE) / np.exp(logsumexp(-dE))
        predsisj = (np.exp(-dE[:,None]) / len(dE) * calc_observables(sample)).sum(0) * ZFraction  
''','''        w = np.exp(-dE - logsumexp(-dE))
        predsisj = w.dot(calc_observables(sample))
'''))
e.append((U,'''        k = 0
        for i in range(n):
            obs[:,i] = samples[:,i]
            for j in range(i+1,n):
                obs[:,n+k] = samples[:,i] * samples[:,j]
                k += 1
        return obs
''','''        for row in range(samples.shape[0]):
            k = n
            for i in range(n):
                obs[row,i] = samples[row,i]
                for j in range(i+1,n):
                    obs[row,k] = samples[row,i] * samples[row,j]
                    k += 1
        return obs
'''))
e.append((U,'''    neighbors = np.zeros((s.size+n_random_neighbors,s.size))
    for i in range(s.size):
        s[i] = 1-s[i]
        neighbors[i] = s.copy()
        s[i] = 1-s[i]
''','''    neighbors = np.zeros((s.size+n_random_neighbors,s.size))
    for i in range(s.size):
        neighbors[i,:] = s
        neighbors[i,i] = 1-s[i]
'''))
e.append((U,'''        s[i] = -1*s[i]
        neighbors[i] = s.copy()
        s[i] = -1*s[i]
''','''        for j in range(s.size):
            neighbors[i,j] = -s[j] if j==i else s[j]
'''))
e.append((U,'''    if i<s.shape[1]:
        return -s[:,i]
    else:
        i -= s.shape[1]
        i, j = ind_to_sub(s.shape[1], i)
        return -s[:,i] * s[:,j]
''','''    n = s.shape[1]
    if i>=n:
        a, b = ind_to_sub(n, i-n)
        return -1*(s[:,b]*s[:,a])
    return -1*s[:,i]
'''))
e.append((U,'''        newClusters = []
        for i in range(n//2):
            # find max''','''        # coarse-grain data
''','''        newClusters = []
        free = np.ones(n, dtype=bool)
        for i in range(n//2):
            masked = np.where(free[:,None] & free[None,:], cij, -np.inf)
            a, b = np.unravel_index(np.argmax(masked), masked.shape)
            a, b = sorted((int(a), int(b)))
            newClusters.append((a, b))
            free[[a,b]] = False
        if n%2:
            newClusters.append((int(np.where(free)[0][0]),))

'''))
e.append((U,'''        for i,ix in enumerate(newClusters):
            X_[:,i] = coarse_func(coarseX[:,ix])
            originalIx_.append([])
            for ix_ in ix:
                originalIx_[-1] += originalIx[ix_]
        originalIx = originalIx_
''','''        for i,ix in enumerate(newClusters):
            X_[:,i] = coarse_func(coarseX[:,list(ix)])
        originalIx_ = [sum([originalIx[c] for c in ix], []) for ix in newClusters]
        originalIx = originalIx_
'''))
e.append((U,'''    return np.concatenate([multipliers.diagonal(), squareform(zero_diag(multipliers))])''','''    n = len(multipliers)
    return np.concatenate([np.diag(multipliers), multipliers[np.triu_indices(n, k=1)]])'''))
REFS.append(dict(id='utils-b',edits=e))
