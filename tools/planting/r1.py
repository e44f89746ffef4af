REFS=[]
S='coniii/samplers.py'; C='cpp/samplers.cpp'
e=[]
e.append((S,'''        sample0[flip_site] *= -1
        E1 = calc_e( sample0[None,:], self.theta )
''','''    def random_sample(self, n_samples):
        return self.rng.choice([-1,1]''','''        trial = sample0.copy()
        trial[flip_site] = -trial[flip_site]
        de = calc_e( trial[None,:], self.theta ) - E0
        if self._accept(de, rng):
            sample0[flip_site] = trial[flip_site]
            return de
        return 0.

    @staticmethod
    def _accept(de, rng):
        if de<=0:
            return True
        return not rng.rand()>np.exp(-de)

'''))
e.append((S,'''        oState = sample0[flip_site]
''','''    def random_sample(self, n_samples):
        return self.rng.randint(0, 3''','''        proposal = sample0.copy()
        proposal[flip_site] = (sample0[flip_site] + 1 + rng.randint(0, 2)) % 3
        de = calc_e( proposal.reshape(1,-1), self.theta ) - E0
        if not self._accept(de, rng):
            return 0.
        sample0[flip_site] = proposal[flip_site]
        return de

'''))
e.append((S,'''        # burn in
        if systematic_iter:
            for i in range(burn_in):
                de = self.sample_metropolis( self._samples[0], E, flip_site''','''    def generate_sample_parallel_boost(self,''','''        # burn in
        E = self._advance(self._samples[0], E, burn_in, systematic_iter)

        history = np.zeros(sample_size*n_iters+1) if saveHistory else None
        for i in range(sample_size):
            E = self._advance(self._samples[0], E, n_iters, systematic_iter, history, i*n_iters)
            self.sample[i,:] = self._samples[0]
            self.E[i] = E[0]
        if saveHistory:
            return history

    def _advance(self, s, E, steps, systematic, history=None, offset=0):
        for j in range(steps):
            if systematic:
                E = E + self.sample_metropolis(s, E, flip_site=j%self.n)
            else:
                E = E + self.sample_metropolis(s, E)
            if not history is None:
                history[offset+j] = E[0]
        return E

'''))
# parallel py: one worker
e.append((S,'''        if not systematic_iter:
            def f(args):
                s, E, nSamples, seed = args
''','''        with mp.Pool() as pool:
            self.sample, self._samples, self.E =''','''        def f(args):
            s, E, nSamples, seed = args
            rng = np.random.RandomState(seed)
            site = (lambda k: k%self.n) if systematic_iter else (lambda k: None)
            samples = []
            for k in range(burn_in):
                E += self.sample_metropolis(s, E, rng=rng, flip_site=site(k))
            while len(samples)<nSamples:
                for k in range(n_iters):
                    E += self.sample_metropolis(s, E, rng=rng, flip_site=site(k))
                samples.append(s.copy())
            return np.array(samples, dtype=np.int8).reshape(nSamples, self.n), s, E

'''))
# cond: insertion by masks
e.append((S,'''        counter = 0
        for i, s in fixed_subset:
            if i==0:''','''        self.E = np.concatenate(self.E)''','''        fixedIx = [i for i,_ in fixed_subset]
        full = np.zeros((sample_size, self.n), dtype=self.sample.dtype)
        full[:,[i for i in range(self.n) if not i in fixedIx]] = self.sample
        for i, s in fixed_subset:
            full[:,i] = s
        self.sample = full
'''))
e.append((S,'''            fullstate = np.zeros((1, self.n), dtype=np.int64)''','''            return self.calc_e(fullstate, theta)''','''            known = dict(fixed_subset)
            free = iter(state[0])
            fullstate = np.array([[known[i] if i in known else next(free) for i in range(self.n)]], dtype=np.int64)
'''))
REFS.append(dict(id='metropolis',edits=e,checks=['C07','C08','C09','C10','C11','C12','C20','C22']))
e=[]
e.append((S,'''        self.expdJ = np.exp(-2*state[:,None]*J*state[None,:])''','''        self.expdJ = np.exp(-2*np.outer(state, state)*J)'''))
e.append((S,'''        if self.rng.rand()<np.exp(-2*h[cluster].dot(state[cluster])):
            state[cluster] *= -1''','''        cost = 2*(h[cluster]*state[cluster]).sum()
        flip = self.rng.rand()<np.exp(-cost)
        if flip:
            state[cluster] = -state[cluster]'''))
e.append((S,'''        marked,newSites=[],[]''','''    def find_neighbors(self,state''','''        marked = [initialsite]
        explored = 0
        frontier = [initialsite]
        while explored<len(frontier):
            frontier.extend(self.find_neighbors(state, frontier[explored], marked))
            explored += 1
        return marked

'''))
e.append((S,'''        ix = np.zeros((self.n),dtype=bool)
        ix[alreadyMarked] = True
        ix[site] = True''','''        ix = np.isin(np.arange(self.n), list(alreadyMarked)+[site])'''))
e.append((S,'''    while initialSites:
        thisCluster = []''','''def spec_cluster''','''    while initialSites:
        start = initialSites.pop()
        marked.add(start)
        thisCluster, queue = [], [start]
        while queue:
            site = queue.pop(0)
            thisCluster.append(site)
            for k in set(np.nonzero(adj[site])[0].tolist()) - marked:
                marked.add(k)
                queue.append(k)
        clusters.append(thisCluster)
        initialSites -= marked
    return clusters

'''))
e.append((S,'''            if J[counter]<0 and state[i]*state[j]<0 and r[counter]<p[counter]:
                bonds[counter] = 1
            elif J[counter]>0 and state[i]*state[j]>0 and r[counter]<p[counter]:
                bonds[counter] = 1
''','''            if J[counter]*state[i]*state[j]>0 and r[counter]<p[counter]:
                bonds[counter] = 1
'''))
# tempering
e.append((S,'''                temp = self.replicas[i].sample
''','''    def generate_sample(self,
                         sample_size,
                         save_exchange''','''                a, b = self.replicas[i], self.replicas[i+1]
                a.sample, b.sample = b.sample, a.sample
                a._samples, b._samples = b._samples, a._samples
                a.index, b.index = b.index, a.index
                ratio = self.beta[i]/self.beta[i+1]
                a.E, b.E = b.E*ratio, a.E/ratio

'''))
e.append((S,'''        newBeta = beta.copy()
        avg = acceptance_ratio.mean()
        for i in range(len(beta)-1, 0, -1):''','''    def optimize_beta(self,''','''        gaps = np.diff(beta) * acceptance_ratio/acceptance_ratio.mean()
        newBeta = np.append(beta[-1] - np.cumsum(gaps[::-1])[::-1], beta[-1])
        return newBeta

'''))
e.append((S,'''        if n_iters>0:
            pool = Pool()
            for i in range(n_samples):''','''        return acceptanceRatio.mean(1)''','''        pool = Pool() if n_iters>0 else None
        for i in range(n_samples if n_iters>0 else 1):
            if n_iters>0:
                self.burn_in_replicas(pool=pool, close_pool=False, n_iters=n_iters)
            for j,(a,b) in enumerate(pairs):
                betaA, betaB = self.beta[a], self.beta[b]
                dE = self.replicas[a].E/betaA - self.replicas[b].E/betaB
                acceptanceRatio[j,i] = np.minimum(1, np.exp( dE * (betaA-betaB) ))[0]
        if pool:
            pool.close()
'''))
REFS.append(dict(id='cluster-temper',edits=e,checks=['C10','C20','C21']))
e=[]
e.append((C,'''    // burn in
    for (int i=0; i<burn_in; ++i) {
        if (systematic_iter) {
            randix = counter%n;''','''};//end generate_sample
''','''    auto attempt = [&]() {
        randix = systematic_iter ? counter%n : intrng(rd);
        e += sample_metropolis(s, randix);
        ++counter;
    };
    for (int left=burn_in; left>0; --left) attempt();
    for (auto &row : sample) {
        for (int left=n_iters; left>0; --left) attempt();
        row = s;
    }
'''))
e.append((C,'''    for (int i=0; i<n; i++) {
        if ((counter < ix.size()) && (i!=ix[counter])) {
            non_ix.push_back(i);
        } else if (counter < ix.size()) {
            counter++;
        } else {
            non_ix.push_back(i);
        }
    }
''','''    for (int i=0; i<n; i++) {
        bool fixed = false;
        for (int k : ix) fixed = fixed || k==i;
        if (!fixed) non_ix.push_back(i);
    }
'''))
e.append((C,'''    s[randix] *= -1;
    
    de = -2 * multipliers[randix] * s[randix];
''','''};//end sample_metropolis
''','''    double field = multipliers[randix];
    for (int i=0; i<n; ++i) {
        if (i!=randix) field += couplingMat[randix][i] * s[i];
    }
    de = 2 * field * s[randix];
    bool accept = de<=0 || unitrng(rd)<=exp(-de);
    if (!accept) return 0.0;
    s[randix] = -s[randix];
    return de;
'''))
REFS.append(dict(id='cpp',edits=e,checks=['C01','C07','C08','C09','C11','C20']))
