REFS=[]
V='coniii/solvers.py'
e=[]
# Solver base
e.append((V,'''        nParams = self.model.multipliers.size
        insertionIx = [0] * self.parameterIx[0]
''','''    def fill_in(self, x''','''        total = self.model.multipliers.size
        chosen = set(self.parameterIx.tolist())
        seen = 0
        insertionIx = []
        for i in range(total):
            if i in chosen:
                seen += 1
            else:
                insertionIx.append(seen)
        self.insertionIx = insertionIx

'''))
e.append((V,'''        return np.insert(x, self.insertionIx, fill_value)
''','''        full = np.full(self.model.multipliers.size, fill_value, dtype=float)
        full[self.parameterIx] = x
        return full
'''))
e.append((V,'''        us, uix = np.unique(sample, axis=0, return_inverse=True)
''','''#end Solver
''','''        reference = self.model.sample
        def probability(s):
            seen = np.flatnonzero(s)
            return np.mean((reference[:,seen]==s[seen]).all(axis=1))

        return np.log(np.array([probability(s) for s in sample]))
'''))
# Enumerate.solve: merged
e.append((V,'''        if constraints is None:
            constraints = self.constraints
            assert not constraints is None
        if not initial_guess is None:
            assert initial_guess.size==constraints.size
''','''#end Enumerate
''','''        target = self.constraints if constraints is None else constraints
        assert not target is None
        if initial_guess is None:
            initial_guess = np.zeros(target.size)
        assert initial_guess.size==target.size

        def residual(params):
            return self.model.calc_observables(params) - target

        def too_large(params):
            return max_param_value is not None and np.abs(params).max()>max_param_value

        def f(params):
            if use_root:
                return np.full(target.shape, 1e30) if too_large(params) else residual(params)
            return 1e30 if too_large(params) else np.linalg.norm(residual(params))

        soln = (root if use_root else minimize)(f, initial_guess, **scipy_solver_kwargs)
        self.multipliers = soln['x']
        return (soln['x'], soln) if full_output else soln['x']
'''))
REFS.append(dict(id='solv-base',edits=e))
e=[]
# MPF
e.append((V,'''        obj = 0.
        objGrad = np.zeros((params.size))
        for i,s in enumerate(Xuniq):
            dobj = Xcount''','''        #else:
        #    # Parallel''','''        obj = 0.
        objGrad = np.zeros((params.size))
        for s, c, neighbors in zip(Xuniq, Xcount, adjacentStates):
            e0 = self.model.calc_e(s[None,:], params)[0]
            terms = c * np.exp( (e0 - self.model.calc_e(neighbors, params)) / 2 )
            if self.calc_de is not None:
                for j in range(params.size):
                    d = self.calc_de(s[None,:],j)[0] - self.calc_de(neighbors,j)
                    objGrad[j] += (terms*d).sum() / 2
            obj += terms.sum()
'''))
e.append((V,'''        # energy differences; the number of adjacent states can differ between data states
''','''    def list_adjacent_states''','''        start = np.repeat(Xuniq, [len(a) for a in adjacentStates], axis=0)
        count = np.repeat(Xcount, [len(a) for a in adjacentStates])
        end = np.vstack(adjacentStates)
        power = .5*(self.model.calc_e(start, params) - self.model.calc_e(end, params)) + np.log(count)
        total = logsumexp(power)
        obj = total - np.log(Xcount.sum())

        if self.calc_de is None:
            return obj
        w = np.exp(power-total)
        for i in range(params.size):
            objGrad[i] = .5*w.dot(self.calc_de(start,i) - self.calc_de(end,i))
        if objGrad.size==1:
            raise Exception("")
        return obj, objGrad

'''))
e.append((V,'''        adjacentStates = []
        for s in Xuniq:
''','''    def solve(self,
              initial_guess=None,
              method=''','''        seen = set(tuple(int(x) for x in s) for s in Xuniq)
        out = []
        for s in Xuniq:
            near = self.adj(s).astype(int)
            if not all_connected:
                near = np.array([t for t in near if tuple(int(x) for x in t) not in seen])
                if len(near)==0:
                    raise Exception("This data set does not satisfy MPF assumption that each \
                                    state be connected to at least one non-data state (?)")
            out.append(near)
        return out

'''))
# Pseudo
e.append((V,'''                guess[multipliersrix] = params
                multipliers = self.get_multipliers_r(r, guess)[0]
                E = -obs[r].dot(multipliers)
                loglikelihood = -np.logaddexp( 0, 2*E ).sum()
                dloglikelihood = ( -expit(2*E)[:,None] * 2*obs[r] ).sum(0)
                return -loglikelihood, dloglikelihood
''','''                m = params
                x = 2*obs[r].dot(m)
                value = np.logaddexp(0, -x).sum()
                slope = -2*expit(-x).dot(obs[r])
                return value, slope
'''))
e.append((V,'''                multipliers, multipliersrix = self.get_multipliers_r(r, params)
                E = -obs[r].dot(multipliers)
                loglikelihood += -np.logaddexp( 0, 2*E ).sum()
                dloglikelihood[multipliersrix] += ( -expit(2*E)[:,None] * 2*obs[r] ).sum(0)
            return -loglikelihood, dloglikelihood
''','''                m, ix = self.get_multipliers_r(r, params)
                x = 2*obs[r].dot(m)
                loglikelihood -= np.logaddexp(0, -x).sum()
                dloglikelihood[ix] -= 2*expit(-x).dot(obs[r])
            return -loglikelihood, dloglikelihood
'''))
e.append((V,'''                # derivative wrt to each coupling
                for i,jix in enumerate(np.delete(range(self.n), r)):
                    num''','''            return -loglikelihood + cost_fcn(params)''','''                others = [j for j in range(self.n) if j!=r]
                for i,jix in enumerate(others):
                    num = np.zeros(self.sample.shape[0])
                    now = (self.sample[:,r]==self.sample[:,jix]).astype(float)
                    for ix in range(self.k-1):
                        then = (otherobsstate[r][:,ix]==self.sample[:,jix]).astype(float)
                        num += (then-now) * np.exp(-Edelta[:,ix])
                    dloglikelihood[multipliersrix[i+self.k]] += (num/den).sum()
'''))
e.append((V,'''        sigmaRtilde = (2.*X[:,r] - 1.)
        samplesRhat = 2.*X.copy()
        samplesRhat[:,r] = np.ones(len(X))
        localFields = np.dot(Jr,samplesRhat.T) # (# X)x(1)
        energies = sigmaRtilde * localFields # (# X)x(1)
        
        logLs = np.logaddexp( 0, energies )

        return -logLs.sum()
''','''        xhat = 2.*X
        xhat[:,r] = 1
        sign = np.where(X[:,r]>.5, 1., -1.)
        return -np.logaddexp(0, sign*xhat.dot(Jr)).sum()
'''))
e.append((V,'''        coocs = np.repeat([sigmaRtilde],self.n,axis=0).T * samplesRhat # (#X)x(self.n)

        return np.dot( coocs.T, 1./(1. + np.exp(-energies)) )
''','''        return (samplesRhat * (sigmaRtilde/(1. + np.exp(-energies)))[:,None]).sum(0)
'''))
REFS.append(dict(id='solv-mpf-pseudo',edits=e))
e=[]
# MCH
a='''        keepLearning = True
        dlamda = np.zeros(constraints.size)
        learningSteps = 0
        distance = 1
        
        while keepLearning:
            # Get change in parameters.
            # If observable is too large, then corresponding energy term has to go down 
            # (think of double negative).
            dlamda += -(estConstraints - constraints) * np.min([distance,1.]) * eta
'''
e.append((V,a,'''#end MCH
''','''        sample = self.model.sample.astype(np.int64)
        dlamda = np.zeros(constraints.size)
        scale = 1.
        for step in range(maxLearningSteps+1):
            dlamda = dlamda + (constraints - estConstraints) * (scale * eta)
            estConstraints = self.mch_approximation(sample, dlamda)
            scale = min(np.linalg.norm(estConstraints - constraints), 1.)
            if np.linalg.norm(dlamda) > maxdlamdaNorm or np.abs(dlamda).max() > maxdlamda:
                break

        self._multipliers = self._multipliers + dlamda
        return estConstraints
'''))
e.append((V,'''            dlamda += -(estConstraints - constraints) * np.min([distance, 1.]) * eta
''','''            dlamda += eta * min(distance, 1.) * (constraints - estConstraints)
'''))
e.append((V,'''            # Exit criteria.
            if (np.linalg.norm(errors[-1]) < tolNorm and
                np.all(np.abs(thisConstraints - constraints) < tol)):
                if iprint: print("Solved.")
                errflag = 0
                keepLooping=False
            elif counter > maxiter:
                if iprint: print("Over maxiter")
                errflag = 1
                keepLooping=False
            else:
                learn_params_kwargs, self.model.sampleSize = custom_convergence_f(counter)
''','''            converged = np.linalg.norm(errors[-1]) < tolNorm and np.abs(errors[-1]).max() < tol
            keepLooping = not converged and counter <= maxiter
            if keepLooping:
                learn_params_kwargs, self.model.sampleSize = custom_convergence_f(counter)
            else:
                errflag = 0 if converged else 1
'''))
# Cluster expansion
e.append((V,'''        if len(thisSet) != len(np.unique(thisSet)): raise Exception
''','''    # "Algorithm 2"''','''        if len(thisSet) != len(set(thisSet)): raise Exception
        if size <= 0: return []
        from itertools import combinations as comb
        sub = [list(c) for c in comb(thisSet, size)]
        return np.sort(sub) if sort else sub

'''))
e.append((V,'''        # subtract entropies of sub-clusters
        for size in range(len(cluster)-1,0,-1):
''','''    def clusterID(self''','''        for size in range(1, len(cluster)):
            for sub in self.subsets(cluster, size):
                s, j = self.deltaS(sub, coocMat, deltaSdict, deltaJdict,
                                   iprint=iprint, meanFieldRef=meanFieldRef,
                                   priorLmbda=priorLmbda, numSamples=numSamples,
                                   independentRef=independentRef,
                                   meanFieldPriorLmbda=meanFieldPriorLmbda)
                deltaScluster = deltaScluster - s
                deltaJcluster = deltaJcluster - j
        deltaSdict[cID], deltaJdict[cID] = deltaScluster, deltaJcluster
        return deltaSdict[cID], deltaJdict[cID]

'''))
e.append((V,'''            for i in range(numClusters):
                for j in range(i+1,numClusters): # some are not unique!
                    gamma1''','''            size += 1
        
        if independentRef:
            ent, J0''','''            candidates = []
            for i in range(numClusters):
                for j in range(i+1,numClusters):
                    union = sorted(set(clusters[size][i]) | set(clusters[size][j]))
                    if len(union)==size+1 and union not in candidates:
                        candidates.append(union)
            for union in candidates:
                ds, dj = self.deltaS(union, coocMat, deltaSdict, deltaJdict,
                                     iprint=veryVerbose, meanFieldRef=meanFieldRef,
                                     priorLmbda=priorLmbda, numSamples=numSamples,
                                     independentRef=independentRef,
                                     meanFieldPriorLmbda=meanFieldPriorLmbda)
                if abs(ds) > T:
                    clusters[size+1].append(union)
'''))
e.append((V,'''        elif (len(cluster) == 2) and useAnalyticResults:
            i, j = cluster
            pi = coocMat[i,i]
            pj = coocMat[j,j]
            pij = coocMat[min(i,j),max(i,j)]
            Jii1 = -np.log( pi / (1.-pi) )
            Jjj1 = -np.log( pj / (1.-pj) )
            Jii = -np.log( (pi - pij)/(1.-pi-pj+pij) )
            Jjj = -np.log( (pj - pij)/(1.-pi-pj+pij) )
            Jij = - np.log( pij ) + np.log( pi - pij ) + np.log( pj - pij )    \\
                - np.log( 1.-pi-pj+pij )
''','''        elif (len(cluster) == 2) and useAnalyticResults:
            i, j = cluster
            p11 = coocMat[min(i,j),max(i,j)]
            p10 = coocMat[i,i]-p11
            p01 = coocMat[j,j]-p11
            p00 = 1-p11-p10-p01
            Jii = np.log(p00/p10)
            Jjj = np.log(p00/p01)
            Jij = np.log(p10*p01/(p11*p00))
'''))
# RMF
e.append((V,'''        gridMinIndex = np.argmin(funcList)
''','''#end RegularizedMeanField''','''        f = list(funcList)
        best = f.index(min(f))
        if best in (0, len(xList)-1):
            raise Exception("Minimum at boundary")
        left = f[:best].index(min(f[:best]))
        right = best+1+f[best+1:].index(min(f[best+1:]))
        return xList[left], xList[best], xList[right]
'''))
e.append((V,'''           burninDefault = 100*self.n
           self.model.set_multipliers(convert_params(-J.diagonal(), -2*squareform(zero_diag(J), checks=False),
                                                     '11', concat=True))
''','''           burninDefault = 100*self.n
           Jp = -2*zero_diag(J)
           hp = -np.diag(J)
           self.model.set_multipliers(convert_params(hp, squareform(Jp, checks=False), '11', concat=True))
'''))
REFS.append(dict(id='solv-mch-ce',edits=e))
