#!/usr/bin/env python3
"""Writes properties.jsonl (the single place where the property texts are edited)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech]}}
    if state:
        d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    if observe:
        d["anchors"]["observe_at"] = list(observe)
    d["anchors"]["hook_needed"] = None
    P.append(d)

prop("C01", "Energies are minus the inner product of multipliers and observables",
 "For the Ising, field-free Ising, triplet and k-state Potts models, the observables of every state are the fields' terms "
 "followed by the interactions in lexicographic order of their sites (Potts: k blocks of occupation indicators, then the "
 "indicators that a pair agrees), and the energy of every state is minus the inner product of these with the multipliers, "
 "independent of the other states in the batch. The derivative of the energy with respect to any one multiplier is minus the "
 "matching observable, and computing any of these leaves the given states unchanged.",
 ["inputs"], "all system sizes, spin bases ({0,1}, {-1,1}, 0..k-1), numbers of Potts states, batches of states and multiplier vectors",
 "tests evaluate a handful of states for n<=5 and k=3; an index error in one observable of a larger system, another k or the other basis is not seen",
 ["coniii/utils.py", "coniii/models.py"],
 [("helper factories of each model", "utils.define_*_helper_functions*"), ("per-parameter derivative", "utils.calc_de"), ("model objects", "models.Ising.calc_e, models.Potts3.calc_e")])

prop("C02", "Index maps between site tuples, vectors and matrices are exact bijections",
 "For every system size, the map from a pair of sites to its place in the flattened upper triangle and back are mutually "
 "inverse, symmetric in the pair, and enumerate the pairs in lexicographic order; the same order is used for tuples of any "
 "length and for splitting a concatenated parameter vector by interaction order. Converting a vector of fields and couplings "
 "to a symmetric matrix and back, unfolding spin averages and pair averages to a matrix, extracting upper triangles and "
 "sub-systems, and replacing or zeroing a diagonal all preserve every entry at its documented place and do not change their inputs.",
 ["inputs"], "all system sizes n, all index tuples of all orders, all parameter vectors",
 "tests compare a few sizes for pairs only; an off-by-one at higher orders, for the last row or for reversed pairs is not reached",
 ["coniii/utils.py", "coniii/mean_field_ising.py"],
 [("pair and tuple indexing", "utils.sub_to_ind, ind_to_sub, unravel_index, split_concat_params"), ("matrix forms", "utils.vec2mat, mat2vec, replace_diag, zero_diag"), ("mean-field layouts", "mean_field_ising.aboveDiagFlat, unflatten, JfullFromCluster, symmetrizeUsingUpper, ...")])

prop("C03", "State enumerations are complete, ordered and free of duplicates",
 "Enumerating binary states of n spins (as an array or lazily, in the {0,1} or {-1,1} basis) yields each of the 2^n states once "
 "in increasing binary order with the first spin most significant, and enumerating the states of a k-state Potts model yields each "
 "of the k^n states once in increasing base-k order. The base-b representation of any integer below 2^31 for 2<=b<=36 is its "
 "standard digit string. The one-flip neighbours of a state are exactly the n states that differ from it in one spin, in spin "
 "order, followed by the requested number of random states different from it, and the given state is left unchanged.",
 ["inputs"], "all n, k, bases 2..36, integers below 2^31, states and neighbour counts",
 "tests compare a few enumerations with each other; integers near powers of the base, large bases and the neighbours of every state are not reached",
 ["coniii/utils.py"],
 [("enumeration", "utils.bin_states, xbin_states, xpotts_states, base_repr"), ("neighbours", "utils.adj, adj_sym")])

prop("C04", "Converting parameters or correlations between spin bases preserves the model",
 "Converting the fields and couplings of an Ising model, or interactions of any order, from the {0,1} to the {-1,1} basis or "
 "back changes the energy of every state only by one constant, so probabilities are the same, and converting forth and back "
 "is the identity. Converting averages and pair correlations between the bases gives exactly the averages of the re-expressed "
 "spins, also when concatenated output or the deprecated keyword is used.",
 ["inputs"], "all system sizes, interaction orders, parameter values and samples, both directions",
 "tests do a round trip, which cancels errors made symmetrically, for one size; equality of probabilities for every state and order is not checked",
 ["coniii/utils.py"],
 [("parameter conversion", "utils.convert_params, ising_convert_params"), ("correlation conversion", "utils.convert_corr")])

prop("C05", "Sample statistics equal their defining averages",
 "Averages, pair and k-th order correlations of a sample (unweighted, with a weight per state, with normalisations per entry, "
 "with subtraction of the means, leaving out empty entries, with Laplace counts), overlaps, co-occurrence matrices and fourth-order "
 "covariances equal their definitions as sums over the sample. The state frequencies returned for a sample count every distinct state "
 "exactly once, sum to the sample size or to one, follow the order of a given list of states and respect weights, and these results do "
 "not depend on the integer type or the order of the samples.",
 ["inputs"], "all samples over {0,1}, {-1,1} and {-1,0,1}, sizes, dtypes, weights and option combinations",
 "tests check pair averages of one random sample against a product; options combine in many ways and overflow or normalisation errors depend on dtype, empties and weights",
 ["coniii/utils.py", "coniii/mean_field_ising.py"],
 [("correlations", "utils.pair_corr, k_corr, calc_overlap"), ("frequencies", "utils.state_probs, unique_rows"), ("co-occurrences", "mean_field_ising.cooccurrence_matrix, fourthOrderCoocMat, coocSampleCovariance")])

prop("C06", "Exact enumeration files give the Boltzmann averages and probabilities",
 "For every shipped system size, with or without fields or triplets, the enumerated averages returned for a vector of multipliers are the "
 "ensemble averages of the observables (fields first, then interactions in lexicographic order) and the enumerated probabilities are the Boltzmann "
 "probabilities of the states in enumeration order, in the basis asked for, for Ising-type models in {-1,1} and {0,1}. Equation files newly written "
 "for an Ising or Potts model satisfy the same for their size, basis, interaction orders and number of states, including the high-precision variant, "
 "and large energies do not overflow.",
 ["inputs", "configurations"], "all shipped and newly written sizes, bases, orders, multipliers",
 "tests compare sizes up to 9 at random multipliers with loose tolerance in one basis; a single wrong sign in one of thousands of generated terms, or in the lesser-used variants, is not seen",
 ["coniii/enumerate.py", "coniii/enumerate_potts.py", "coniii/ising_eqn/*.py"],
 [("equation writer", "enumerate.write_eqns, write_py, write_matlab, _write_pseudo..."), ("Potts writer", "enumerate_potts.*"), ("shipped equations", "coniii/ising_eqn/ising_eqn_*.py: calc_observables, p")])

prop("C07", "Each Metropolis step obeys the acceptance rule of its Hamiltonian",
 "A Metropolis update of an Ising or Potts sampler (Python or C++) proposes a change of exactly one spin to another value and accepts it with "
 "probability min(1, exp(-dE)), where dE is the exact energy change under the current multipliers: proposals that do not raise the energy are always "
 "accepted, a rejected proposal leaves the state as it was, and the chain is therefore reversible with respect to the Boltzmann distribution. "
 "After the multipliers are replaced the next step uses the new ones.",
 ["inputs", "schedules", "histories"], "all states, sites, proposed values, multipliers, thresholds drawn, sequences of updates and multiplier changes",
 "tests compare sample averages within statistical error; a wrong energy change for one site or a slightly wrong acceptance passes",
 ["coniii/samplers.py", "cpp/samplers.cpp", "cpp/samplers.hpp"],
 [("Python kernels", "samplers.Metropolis, Potts3 (sample_metropolis, _jit_sample)"), ("C++ kernels", "cpp/samplers.cpp sample_metropolis")],
 observe=["generate_sample / generate_sample_py / generate_sample_boost", "sample_metropolis"])

prop("C08", "Samplers return the requested number of states after the requested updates",
 "Generating a sample of any size returns exactly that many states of the right shape and alphabet, where a systematic sweep visits the sites in "
 "cyclic order, burn-in updates come before the first state and the requested number of updates separates consecutive states. Saving the sample, "
 "generating in parallel with any number of processes and continuing a previous run do not change these counts, returned states are not altered by later updates, and the sampler's "
 "last states are the ones later runs start from where documented. A run that is given no state to start from starts from one in which "
 "every spin has each of its values with equal probability, independently of the others.",
 ["inputs", "schedules", "configurations"], "all sample sizes, burn-ins, thinning, system sizes, number of processes, back ends, update orders",
 "tests draw one sample per sampler and look at its shape and averages; counting of updates, process splits and aliasing of rows are invisible in averages",
 ["coniii/samplers.py", "cpp/samplers.cpp"],
 [("Python schedule", "samplers.Metropolis.generate_sample*, Potts3.generate_sample*"), ("C++ schedule", "cpp generate_sample")])

prop("C09", "Conditional sampling never changes fixed spins and samples the rest correctly",
 "When sampling with some spins held fixed, every returned state has the given values at the fixed sites, the other sites are updated with the "
 "Metropolis rule for energies in which the fixed spins contribute with their given values, and the columns come back in the order of the "
 "full system; a Python run given an initial sample starts from it. This holds for every proper, nonempty subset of fixed sites (given in increasing order), in Python, C++ and parallel C++ sampling.",
 ["inputs", "configurations"], "all subsets of fixed spins, values, multipliers, sizes, back ends",
 "tests fix one choice of spins and check only the fixed values; the effect of the fixed spins on the free ones is not checked",
 ["coniii/samplers.py", "cpp/samplers.cpp"],
 [("conditional sampling", "samplers.Metropolis.generate_cond_sample, sample_metropolis_cond / cpp generate_cond_sample")])

prop("C10", "Replica exchange keeps every replica at its own temperature",
 "In parallel tempering, after any sequence of exchanges and updates each replica's multipliers are the base multipliers times its own inverse temperature, its "
 "stored energies are those of its stored states, and exchanges only permute the states: none is lost or duplicated and the record of which walker sits where stays a permutation. "
 "Two neighbouring replicas exchange with probability min(1, exp of the product of differences of inverse temperatures and base energies), and adapting the temperatures keeps the coldest one fixed and, for positive acceptance ratios, the increasing order.",
 ["schedules", "histories", "inputs"], "all sequences of exchange attempts and accept/reject outcomes, numbers of replicas, temperatures, multipliers",
 "tests only construct the sampler and draw one short sample; states of a swap protocol depend on histories of accepted and rejected exchanges",
 ["coniii/samplers.py"],
 [("exchange protocol", "samplers.ParallelTempering.burn_and_exchange, _exchange..., optimize_beta, iterate_beta")],
 state=[("beta", "inverse temperatures of the replicas", "ParallelTempering.beta"), ("replicas", "one sampler per temperature", "ParallelTempering.replicas"), ("index", "which walker sits in which replica", "ParallelTempering")])

prop("C11", "A model's multipliers stay coherent with everything computed from them",
 "Whichever way an Ising or Potts model is given its multipliers (size, list of fields and couplings, vector, matrix where supported) the same model results, and after "
 "the multipliers are replaced, the averages, probabilities and states obtained through the model belong to the stored multipliers, unless others are given for that call, which do not replace the stored ones. "
 "Replacing multipliers or sampling never changes arrays owned by the caller, multipliers of a wrong size are rejected on construction and by the sampler, and sampling with a given random number generator depends only on it.",
 ["histories", "inputs"], "all sequences of construction, multiplier replacement, sampler set-up and sampling",
 "tests construct each model once; staleness only shows after sequences of operations",
 ["coniii/models.py", "coniii/samplers.py", "cpp/samplers.cpp"],
 [("model objects", "models.Model, Ising, Potts3: set_multipliers, setup_sampler, generate_sample")])

prop("C12", "Monte Carlo histogram learning follows its stated update and stopping rules",
 "Starting from any initial guess, each iteration of Monte Carlo histogram estimation moves the multipliers from their current value against the difference between predicted and "
 "target observables within the stated step and distance limits, predictions for a change of multipliers equal the exactly reweighted averages of the current sample, and "
 "the constraints and multipliers are always paired in the same order. It stops with the success flag exactly when both tolerances are met at the reported multipliers, and with the failure flag "
 "once the iterations are used up; the sparse variant changes only the chosen parameters.",
 ["histories", "inputs"], "all samples returned by the sampler, constraint values, tolerances, iteration limits, learning settings",
 "tests run it once and look at the final error; the rule applied at each step and the reason for stopping are not observed",
 ["coniii/solvers.py", "coniii/utils.py"],
 [("MCH loop", "solvers.MCH.solve, learn_settings, estimate_jac; solvers.SparseMCH"), ("reweighting", "utils mch_approximation")])

prop("C13", "Exact solvers recover a model that reproduces the constraints",
 "Solving by enumeration returns multipliers whose exact model averages equal the given constraints (taken from a sample or passed in) whenever such a model exists, in the order of the constraints; the sparse "
 "variant fits exactly the chosen parameters, with every other one at zero, and no solution beyond a given largest parameter value is reported as one. Solving does not depend on the initial guess when the optimizer converges and never modifies the sample or constraints, and the "
 "log-probability of a partially observed state is the logarithm of the fraction of the model's sample that agrees with its observed entries.",
 ["inputs", "configurations"], "all realisable constraints, subsets of parameters, system sizes and initial guesses",
 "tests solve one small random model; subsets, orders and constraint sources combine freely",
 ["coniii/solvers.py"],
 [("enumeration solvers", "solvers.Enumerate, SparseEnumerate"), ("base class", "solvers.Solver.logp, fill_in, ...")])

prop("C14", "Cluster expansion sums the entropies of the clusters it kept",
 "The entropy and couplings found by the cluster expansion are the sums of the contributions of the selected clusters, where a cluster's contribution is its maximum entropy minus "
 "the contributions of all its proper subsets (inclusion-exclusion) and its couplings are those of the exact model of its spins. A cluster is considered only when built from two selected clusters that share all but one spin, "
 "and selected when its contribution exceeds the threshold, so that without a threshold the result is the exact maximum entropy model of all spins.",
 ["inputs", "configurations"], "all correlation inputs, thresholds, priors, system sizes, reference choices",
 "tests run one data set; which clusters are selected depends on the threshold and data",
 ["coniii/solvers.py", "coniii/mean_field_ising.py"],
 [("expansion", "solvers.ClusterExpansion.S, deltaS, clusterID, solve")])

prop("C15", "Minimum probability flow minimises the stated objective with its exact gradient",
 "For any list of observed states and weights, the minimum probability flow objective is the sum over observed states and their chosen neighbours outside the data of the exponential of half the energy difference, weighted by "
 "the state's frequency, and its gradient is the exact derivative of it for every parameter, in both the plain and logarithmic form and for either choice of connectivity. Solving returns a stationary point of that objective, and "
 "for complete data (all states with Boltzmann frequencies) the true multipliers.",
 ["inputs", "configurations"], "all samples, multipliers, connectivities, user-supplied neighbour and energy functions",
 "tests solve once for one sample; objective and gradient are not compared and neighbours in the data are not distinguished",
 ["coniii/solvers.py", "coniii/utils.py"],
 [("objective and gradient", "solvers.MPF.K, logK, list_adjacent_states, worker_objective_task, solve")])

prop("C16", "Pseudo-likelihood equals the product of exact single-spin conditionals",
 "For the Ising and Potts models the pseudo-likelihood objective equals minus the sum over spins and samples of the log conditional probability of the spin given the others, its gradient and second derivatives "
 "are the exact derivatives, and each parameter is paired with its observable for every spin. Solving returns a stationary point, and for complete data (all states with Boltzmann frequencies) the true multipliers up to the model's gauge.",
 ["inputs", "configurations"], "all samples, multipliers, system sizes, numbers of Potts states",
 "tests solve once for one sample within loose tolerance; the pairing of parameters and observables for every spin is not checked",
 ["coniii/solvers.py", "coniii/utils.py", "coniii/pseudo_inverse_ising.py"],
 [("pseudo-likelihood", "solvers.Pseudo.cond_log_likelihood, cond_jac, cond_hess, pseudo_log_likelihood, solve"), ("helpers", "utils.define_pseudo_*_helper_functions")])

prop("C17", "Coarse-graining merges disjoint groups and keeps every variable once",
 "Coarse-graining a data set by similarity merges, in each round, disjoint pairs of columns chosen greedily by highest remaining similarity (a single column remains when the number is odd), the returned "
 "groups partition the original columns and each coarse column is the coarse-graining function of the two columns it came from. Coarse-graining a lattice replaces each block by its majority with the stated tie and edge handling, and neither changes its input.",
 ["inputs"], "all data sets, similarity functions, numbers of rounds, lattice shapes and block sizes",
 "tests check one data set; greedy pairing, odd columns and repeated rounds interact",
 ["coniii/utils.py", "coniii/ising/automaton.py"],
 [("column merging", "utils.coarse_grain_with_func"), ("block spins", "ising/automaton.coarse_grain")])

prop("C18", "Ising front end finds true local minima; lattice updates follow their energies",
 "Descending from a state always flips the single spin that lowers the energy most until no flip lowers it, so the basin returned is a local energy minimum reached along strictly decreasing energies and stable states are their own basin. The two-dimensional lattice "
 "simulation uses energy changes of the nearest-neighbour periodic Ising model with its local fields, updates one site per attempt with the Metropolis rule and makes as many attempts as asked (whole sweeps over all sites when systematic). Parameters and correlations of the front end are those of the exact model in either basis.",
 ["inputs", "schedules"], "all couplings, fields, states, rectangular lattices of at least two sites a side, and random draws",
 "tests check one basin for one random model; ties, boundaries and non-uniform fields are not reached",
 ["coniii/ising/utils.py", "coniii/ising/automaton.py"],
 [("basins", "ising/utils.py"), ("lattice", "ising/automaton.Ising2D")])

prop("C19", "Mean-field expressions equal their definitions and exact sums",
 "For a matrix of fields (diagonal) and couplings, the states, weights, averages and entropies of the mean-field module equal exact sums over all {0,1} states of at least the minimum size, in any external field, and fitting a matrix to such averages finds it again (with a prior, the best penalised fit). The homogeneous "
 "expressions (mean, entropy, multi-information, temperature derivative) equal exact sums. Mean-field couplings are half the inverse covariances outside the diagonal (or its regularised form), with the matching fields and entropies; they are exact for independent spins, and clusters in any order are embedded in the full system.",
 ["inputs"], "all matrices, frequencies, couplings, minimum sizes, samples and regularisation strengths in the documented domain",
 "no test calls this module directly; it is reached by solver runs with loose tolerance",
 ["coniii/mean_field_ising.py"],
 [("exact sums", "coocExpectations, unsummedZ, analyticEntropy, findJmatrixAnalytic_CoocMat"), ("mean field", "SmeanField, JmeanField, meanFieldStability"), ("homogeneous systems", "FHomogeneous, SHomogeneous, avgxHomogeneous")])

prop("C20", "Sampling is reproducible from the given random number generator",
 "Two samplers or models of the same kind given the same multipliers and generators in the same state return identical samples through any equal sequence of operations, a sample drawn never depends on numpy's "
 "global generator when one is given, and generators in different states lead to different samples; in parallel sampling every process draws a different stream and results come back in a fixed order.",
 ["histories", "schedules", "configurations"], "all samplers, back ends, seeds, process counts and operation sequences",
 "tests fix no seeds for most samplers; dependence on global state or on process scheduling only shows across runs",
 ["coniii/samplers.py", "coniii/models.py", "cpp/samplers.cpp"],
 [("generators", "samplers.*.rng, models.Model.set_rng, samplers.sample_ising(seed=), cpp seeds"), ("lattice simulation", "ising/automaton.Ising2D(rng=)")])

prop("C21", "Cluster updates build clusters by the bond rule and keep detailed balance",
 "A Wolff update grows a cluster that contains its initial site and only spins joined to it by a chain of activated bonds, where a bond is activated with probability 1-exp(-2 J si sj) if positive and never otherwise, each bond being tried from a spin newly in the cluster; "
 "the cluster is flipped as a whole or not at all with a probability that accounts for the fields, so that the Boltzmann distribution is stationary. The bond and cluster helpers partition all spins into connected components.",
 ["inputs", "schedules"], "all couplings, fields, states, initial sites and random draws",
 "no test runs the cluster updates at all; correctness depends on every random outcome of the cluster growth",
 ["coniii/samplers.py"],
 [("Wolff update", "samplers.WolffIsing"), ("Swendsen-Wang helpers", "samplers.SWIsing")])

prop("C22", "Regularised mean field returns the mean-field model that best fits",
 "Solving by regularised mean field tries every strength of the grid over the given bracket by sampling the {-1,1} model that is equivalent to the mean-field couplings at that strength, from the same generator state each time unless told otherwise, and judges it by the squared deviations of the sample's "
 "co-occurrences from the data's in units of their expected standard deviations. It refines the best grid point between the best points on either side, fails when the best is at an end, and returns the {-1,1} multipliers of the mean-field model at the best of the strengths it tried.",
 ["inputs", "histories"], "all data sets with regular covariances, brackets and grids, and any behaviour of the sampler",
 "tests only construct the solver; a change of basis or scale of the multipliers is invisible to them",
 ["coniii/solvers.py"],
 [("solver", "solvers.RegularizedMeanField.solve"), ("bracket", "solvers.RegularizedMeanField.bracket1d")])

prop("C23", "Heisenberg gradients are exact and Hamiltonian steps keep or restore the state",
 "For spins on the sphere given by pairs of angles, the energy is minus the sum over pairs, in lexicographic order, of the coupling times the scalar product of their vectors, and the functions for its derivatives by angles and by couplings return its exact derivatives. A Hamiltonian Monte Carlo update "
 "follows the leapfrog path from the drawn momenta and ends, by the Metropolis rule on the change of total energy, either at the end of the path or exactly where it started, so that a path and its reverse undo each other. Random vectors near a direction are unit vectors at a normally distributed angle and uniform azimuth about it, and cross products are exact.",
 ["inputs", "histories"], "all numbers of spins, couplings, angles, momenta, step sizes, path lengths and draws",
 "no test runs these functions; a sign in one of the derivatives or a lost rejection is invisible without an exact reference",
 ["coniii/samplers.py"],
 [("energy and derivatives", "samplers.calc_e, grad_e, grad_e_theta"), ("Hamiltonian update", "samplers.jit_sample"), ("vectors", "samplers.cross, jit_sample_nearby_vector")])

json_path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
CLAIMED = None
with open(json_path, "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
