"""writes properties.jsonl (kept as python, because it is easier to read and edit)"""
import json
import os

P = []


def prop(id_, title, statement, over, text, why, files, mechanism, observe=None):
    d = dict(id=id_, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=['src/quanguru/' + f for f in files],
                          mechanism=[dict(name=n, where='src/quanguru/' + w) for n, w in mechanism]))
    if observe:
        d['anchors']['observe_at'] = observe
    P.append(d)


prop('C01', 'Hamiltonians always equal the sum of the current terms',
     'After any sequence of changes to the frequencies, operators, orders and dimensions of systems and terms, and of '
     'additions and removals of terms, with any reads in between, the Hamiltonian of every system is the sum over its '
     'terms and sub-systems of frequency times the (ordered product of the) operators to their orders, embedded in the '
     'space of the whole composite system. A Hamiltonian is never the one of an earlier set of parameters, for single, '
     'composite and nested systems and for single-system and coupling terms alike.',
     ['histories', 'inputs'],
     'all sequences of parameter changes and reads, in any order, for single, composite and nested systems',
     'Matrices are cached and invalidated by flags that travel through the objects, and a read changes the caches; the '
     'tests change a parameter or two in one fixed order.',
     ['classes/QSystem.py', 'classes/QTerms.py', 'classes/baseClasses.py', 'classes/QSimBase.py'],
     [('cached total Hamiltonian', 'classes/QSystem.py:totalHamiltonian'),
      ('cached term matrices', 'classes/QTerms.py:_constructMatrices'),
      ('update flags', 'classes/baseClasses.py:paramBoundBase')])

prop('C02', 'Adding, removing and nesting systems keeps composite systems consistent',
     'After any sequence of adding systems to, and removing them from, (nested) composite systems and of dimension '
     'changes, every composite contains exactly its current sub-systems in their order, its dimension is the product of '
     'theirs, and every Hamiltonian is embedded in the space of the current outermost composite. Couplings that involve a '
     'removed system are gone from every enclosing composite, and all the others, together with the terms and the '
     'dimension of the removed system itself, remain.',
     ['histories', 'inputs'],
     'all sequences of additions, removals (from any level), dimension changes and reads, for trees of systems',
     'Dimensions before and after each system are updated incrementally through the tree on each change; tests add and '
     'remove once from one shape.',
     ['classes/QSystem.py', 'classes/base.py', 'classes/QTerms.py'],
     [('dimensions before and after', 'classes/QSystem.py:_updateDimension'),
      ('adding and removing', 'classes/QSystem.py:_addSubSys,_removeSubSysExc'),
      ('couplings of a removed system', 'classes/QTerms.py:_removeTermIfQSysInList')])

prop('C03', 'Unitaries of protocols are fresh and compose their steps in order',
     'After any sequence of changes to system parameters, step sizes, samples, ratios, gate parameters, updates and the '
     'list of steps, with any reads in between, the evolution operator of a protocol is the time-ordered product of the '
     'current operators of its steps: the exponential of the current Hamiltonian for free evolutions, the rotation for '
     'gates, the adjoint for Hermitian-conjugate steps, also for steps that are repeated or shared between protocols. '
     'Only a protocol explicitly marked as fixed keeps the operator it created first.',
     ['histories', 'programs'],
     'all sequences of changes and reads for protocols built from all kinds of steps, nested and shared',
     'Operators are cached per step and invalidated by flags that are shared by several protocols; the tests evaluate a '
     'protocol once or after one change.',
     ['classes/QPro.py', 'classes/QGates.py', 'classes/baseClasses.py'],
     [('cached unitary', 'classes/QPro.py:genericProtocol.unitary,getUnitary'),
      ('product of the steps', 'classes/QPro.py:qProtocol._defCreateUnitary'),
      ('gates', 'classes/QGates.py:_rotMat,instantFlip'), ('conjugate', 'classes/baseClasses.py:_hc')])

prop('C04', 'Initial states always reflect the last inputs, dimensions and structure',
     'After any sequence of setting initial states of single or composite systems, changing dimensions, adding and '
     'removing sub-systems, and reads, the initial state of a system is the normalised state described by its latest '
     'input in its current dimension, and that of a composite is the tensor product of its current sub-systems\' states '
     'in order unless a full state was set on the composite itself.',
     ['histories', 'inputs'],
     'all sequences of state inputs (integers, lists, populations, amplitudes, vectors), dimension changes and reads',
     'The state is cached, shared by reference between objects, and re-created lazily; tests set it once.',
     ['classes/QSystem.py', 'classes/QSimBase.py', 'classes/QSimComp.py', 'QuantumToolbox/states.py'],
     [('creation of the state', 'classes/QSystem.py:_createInitialState,initialState'),
      ('cached state', 'classes/QSimBase.py:stateBase.initialState')])

prop('C05', 'Total time, step size and step count stay consistent and are inherited',
     'After any sequence of setting two or more of the total time, step size, number of steps and samples on a '
     'simulation, system or protocol, the remaining one is the value these imply, and the last value explicitly set is '
     'kept. Objects of a simulation that were never given their own value follow every later change of the one they '
     'belong to, objects that were given their own keep it, and no change leaks upwards or sideways.',
     ['histories', 'configurations'],
     'all sequences of assignments on the levels of the hierarchy, before and after the levels are connected',
     'Values are inherited through chains of references that are broken by an assignment; tests use a few orders of '
     'assignments at one level.',
     ['classes/QSimBase.py', 'classes/QSimComp.py', 'classes/QSim.py'],
     [('time parameters', 'classes/QSimBase.py:timeBase'), ('inheritance', 'classes/QSimBase.py:_parameter,_bound')])

prop('C06', 'A sweep visits every parameter combination exactly once, in order',
     'For any combination of sweeps (combinatorial or in parallel, of any attributes, lists and lengths, on one or several '
     'systems), running a simulation evaluates exactly the set of combinations these describe, each once, with every '
     'parameter having its combination\'s value. The results are returned in the shape of the sweeps, with each entry '
     'being the result of its own combination.',
     ['inputs', 'configurations'],
     'all small numbers of sweeps, flags for combining them, list lengths, and swept attributes',
     'The index arithmetic of combined sweeps and the reshaping of the results is general, the tests try one or two '
     'shapes.',
     ['classes/QSweep.py', 'classes/modularSweep.py', 'classes/QRes.py'],
     [('indices', 'classes/QSweep.py:Sweep.prepare,_indicesForSweep,runSweep'),
      ('combinations', 'classes/modularSweep.py:nonParallel'), ('organise results', 'classes/QRes.py:_organiseSingleProcRes')])

prop('C07', 'Multi-processing runs give the serial results for every schedule',
     'A simulation that is run in several processes returns the same states and results, in the same order and shape, as '
     'the serial run, for every number of worker processes and for every assignment of the sweep points to the workers '
     'and order of completion.',
     ['schedules', 'configurations'],
     'all assignments of tasks to workers, numbers of workers, and sweep shapes (bounded)',
     'The assignment is decided by the operating system, and the state that a worker carries over from its previous task '
     'depends on it; tests see one schedule.',
     ['classes/modularSweep.py', 'classes/QSim.py', 'classes/QRes.py'],
     [('parallel run', 'classes/modularSweep.py:parallel,_runSweepAndPrep'),
      ('collecting results', 'classes/QRes.py:_organiseMultiProcRes')])

prop('C08', 'Simulations return the step-by-step evolution, and can be run again',
     'For any simulation of one or more systems and protocols, any time parameters, initial state, and option to discard '
     'or keep states, the states are the successive applications of the evolution operator to the initial state, and the '
     'values given to the compute functions are these states. Running again after any changes gives the states of a newly '
     'created simulation with the same parameters, and protocols in the same simulation do not influence each other.',
     ['histories', 'configurations'],
     'all sequences of changes and runs, for several protocols and systems in a simulation',
     'A run leaves states, cached matrices, and step counters behind; tests run each simulation once.',
     ['classes/QSim.py', 'classes/modularSweep.py', 'classes/QPro.py', 'classes/QRes.py'],
     [('run', 'classes/QSim.py:Simulation.run'), ('evolution', 'classes/modularSweep.py:timeEvolBase,timeEvolDefault')])

prop('C09', 'Time-dependent parameters are evaluated at the right times and restored',
     'In a simulation with time-dependent terms or time-dependent sweeps, every step evolves under the Hamiltonian of its '
     'own time, sampled as often as requested, independent of what was run or read before. Running again gives the same '
     'as the first run of a newly created simulation with the same parameters.',
     ['histories', 'inputs'],
     'all combinations of time-dependent terms, samples, step counts, and preceding runs and reads',
     'The current time is a hidden counter, and the cached matrices are re-created on change of values only; there are '
     'next to no tests of time dependency.',
     ['classes/QTerms.py', 'classes/QSystem.py', 'classes/QSim.py', 'classes/modularSweep.py', 'classes/QPro.py'],
     [('time dependency', 'classes/QTerms.py:_timeDependency,timeDependency'),
      ('current time', 'classes/QSim.py:Simulation._currentTime'),
      ('evolution', 'classes/modularSweep.py:timeEvolBase')])

prop('C10', 'Names and aliases identify exactly one object',
     'After any sequence of creating, naming, aliasing, copying and deleting objects, names are unique, a name or alias '
     'that was accepted finds the object it was given to, and only this one, in every place an object is accepted. A name '
     'or alias that is in use by another object is rejected (or changed to an unused one) without side effects.',
     ['histories'],
     'all sequences of creations, (re)naming, aliasing, look-ups and deletions over a small set of names',
     'The registry is global and is shared by all the classes; tests only check a few sequences.',
     ['classes/base.py'],
     [('names and aliases', 'classes/base.py:named,aliasClass'), ('registry', 'classes/base.py:_allInstaces')])

prop('C11', 'Dictionaries with aliases behave like dictionaries',
     'For every sequence of dictionary operations with keys that are strings or objects with a name and aliases, the '
     'alias dictionary behaves like a plain dictionary in which all the names of an object are the same key: it never '
     'holds two entries for a key, keeps insertion order, and every read, write, deletion, merge and membership test '
     'through any of the names refers to the same entry.',
     ['histories', 'inputs'],
     'all sequences of dictionary operations with all the equivalent keys, including adding aliases later',
     'Python dictionaries have a dozen entry points, each one overridden separately; tests check them one by one.',
     ['classes/base.py'],
     [('alias dictionary', 'classes/base.py:aliasDict'), ('look-up', 'classes/base.py:keySearch,aliasClass')])

prop('C12', 'Copies and sums of systems are equivalent and independent',
     'A copy of any system (single, composite, nested; any terms, state and history) has the same Hamiltonian, dimension, '
     'and initial state as the original, and no later change of one of the two changes the other. Composite systems '
     'created by adding or multiplying systems are the same as those composed explicitly.',
     ['histories', 'inputs'],
     'all systems reached by a bounded history, followed by a copy and by any bounded history of changes on both',
     'A copy has to reproduce every kind of state an object can be in; tests copy a freshly created object.',
     ['classes/QSystem.py', 'classes/base.py', 'classes/QTerms.py'],
     [('copy', 'classes/QSystem.py:copy'), ('sums', 'classes/QSystem.py:__add__,__sub__,__rmul__')])

prop('C13', 'Results hold exactly the values stored during the run, in order',
     'For any sequence of runs and any compute and calculate functions on simulations, systems and protocols, each one is '
     'called once per its occasion (start of a run, every step, end of a run) with its object\'s state, and every '
     'value it stores is found, once and in the order of the steps, under the name it was stored with, for the object '
     'it belongs to, averaged or summed as requested.',
     ['histories', 'configurations'],
     'all placements of compute and calculate functions, stored names, sweeps and repeated runs',
     'Results are kept in shared dictionaries that are reset and re-organised during a run; tests store one value.',
     ['classes/QRes.py', 'classes/baseClasses.py', 'classes/modularSweep.py'],
     [('results', 'classes/QRes.py:qResults'), ('calls', 'classes/baseClasses.py:computeBase')])

prop('C14', 'Operators obey their algebra in every dimension',
     'For every dimension and for sparse and dense matrices, the ladder, number, angular momentum, Pauli, displacement '
     'and squeezing operators and the Hamiltonians built from them have the matrix elements of their definitions, '
     'therefore their commutation relations, hermiticity and spectra (up to the truncation), and powers, sums, products, '
     'and embeddings of them are those of the matrices.',
     ['inputs'], 'all dimensions up to a bound, all operators, both matrix types',
     'Tests compare with a few fixed dimensions and matrices.',
     ['QuantumToolbox/operators.py', 'QuantumToolbox/Hamiltonians.py', 'QuantumToolbox/basicGates.py',
      'QuantumToolbox/spinRotations.py'],
     [('operators', 'QuantumToolbox/operators.py'), ('Hamiltonians', 'QuantumToolbox/Hamiltonians.py')])

prop('C15', 'Tensor products, partial traces and embeddings are consistent',
     'For every list of dimensions and every sub-set of sub-systems kept, tensor products have the elements of the '
     'Kronecker product in order, the partial trace keeps trace and hermiticity and returns the factors of product '
     'states, and an operator embedded into a composite space acts on its own sub-system only. Norms, traces, inner and '
     'outer products of sparse and dense states agree with their definitions.',
     ['inputs'], 'all lists of dimensions, kept sub-sets, and basis operators up to a bound (exhaustive by linearity)',
     'Index arithmetic over an arbitrary number of sub-systems; tests use two or three.',
     ['QuantumToolbox/linearAlgebra.py', 'QuantumToolbox/operators.py'],
     [('partial trace', 'QuantumToolbox/linearAlgebra.py:partialTrace'),
      ('tensor product', 'QuantumToolbox/linearAlgebra.py:tensorProd'),
      ('embedding', 'QuantumToolbox/operators.py:compositeOp')])

prop('C16', 'Evolution operators: unitarity, Liouvillians and vectorisation',
     'For every Hamiltonian, collapse operators, rates and time step, the unitary is the matrix exponential, the '
     'Liouvillian applied to a vectorised density matrix is the master equation\'s right-hand side, its exponential '
     'preserves trace and hermiticity, and pre- and post-multiplication super-operators act as such. Vectorising and '
     'reshaping back is the identity.',
     ['inputs'], 'all matrix units as Hamiltonians, collapse operators and states up to a dimension, all combinations',
     'Super-operator identities are for all matrices; by linearity a basis of matrices decides them, tests use samples.',
     ['QuantumToolbox/evolution.py', 'QuantumToolbox/states.py'],
     [('unitary and Liouvillian', 'QuantumToolbox/evolution.py'), ('vectorisation', 'QuantumToolbox/states.py:mat2Vec')])

prop('C17', 'State constructors give normalised states and keep their inputs',
     'Every basis, superposition, composite, and special state constructor returns a normalised state of the '
     'requested dimension with the requested populations or amplitudes, for every valid input, the same for sparse and '
     'dense. Inputs are never modified; excitations outside of the dimension or of unsupported types are rejected.',
     ['inputs'], 'all dimensions up to a bound, all excitations, lists, dictionaries of populations and amplitudes',
     'Tests use a handful of inputs.',
     ['QuantumToolbox/states.py'], [('states', 'QuantumToolbox/states.py')])

prop('C18', 'Expectation values, fidelities, entropies and distances are right',
     'For all states (kets and density matrices, sparse and dense) and operators, expectation values, fidelity, purity, '
     'entropy, concurrence, trace distance, participation ratios, heat currents and phase-space functions have the values '
     'of their definitions, are the same for a ket and its density matrix, and obey their bounds and symmetries.',
     ['inputs'], 'all states and operators from finite families up to a dimension (all pairs)',
     'Tests compare a few states.',
     ['QuantumToolbox/functions.py', 'QuantumToolbox/thermodynamics.py', 'QuantumToolbox/IPR.py',
      'QuantumToolbox/eigenVecVal.py', 'QuantumToolbox/quasiProbabilities.py'],
     [('functions of states', 'QuantumToolbox/functions.py'), ('participation ratios', 'QuantumToolbox/IPR.py'),
      ('thermodynamics', 'QuantumToolbox/thermodynamics.py'),
      ('phase space', 'QuantumToolbox/quasiProbabilities.py')])

prop('C19', 'Saved data is read back unchanged',
     'Lists and nested lists of real or complex numbers that are saved into CSV files are read back with the same values, '
     'shape and keys, for every shape and value, and saving again replaces the earlier content.',
     ['inputs', 'histories'], 'all small shapes of data, special values, sequences of saves and reads',
     'Tests do not save files.',
     ['extensions/saveReadCSV.py', 'extensions/_helpers.py'], [('CSV files', 'extensions/saveReadCSV.py')])

prop('C20', 'Open-system simulations follow the master equation',
     'With any set of dissipators and thermal environments on systems and protocols, and after any changes of their '
     'operators, rates and temperatures, the states of a simulation are the solution of the master equation with the '
     'current dissipators, each included once, with trace one and Hermitian at every step.',
     ['histories', 'configurations'], 'all sequences of adding dissipators, changing rates, reading and running',
     'There are next to no tests of open-system simulations.',
     ['classes/environment.py', 'classes/QPro.py', 'QuantumToolbox/evolution.py'],
     [('dissipators', 'classes/environment.py'), ('protocol', 'classes/QPro.py:getUnitary')])

prop('C21', 'Updates of a step are local to the step and always restored',
     'Changes of parameters that are attached to a step of a protocol are in effect only while the operator of this step '
     'is created: all the other steps use the parameters of the user, and after the evaluation every parameter has its '
     'value from before. This holds for every combination of updates on steps, also for the same parameter in several '
     'updates, and for every later change of the parameters.',
     ['histories', 'programs'], 'all small protocols with updates of all kinds, and sequences of changes and reads',
     'Updates change and restore shared parameters during the evaluation; tests use one update.',
     ['classes/QPro.py', 'classes/baseClasses.py'],
     [('updates', 'classes/QPro.py:Update'), ('evaluation', 'classes/QPro.py:getUnitary')])

prop('C22', 'Failing operations leave objects consistent',
     'When an operation is rejected, or a user-supplied function raises at any of its calls during a run, systems, '
     'protocols and simulations remain consistent: parameters are those before the rejected operation, and correcting '
     'the fault and running again gives the results of a simulation in which nothing failed.',
     ['fault_sequences', 'histories'], 'all positions of an exception in the calls of a run, all rejected operations',
     'Requires an exception at every possible call; tests raise none.',
     ['classes/QSim.py', 'classes/modularSweep.py', 'classes/QSystem.py', 'classes/QTerms.py'],
     [('run', 'classes/QSim.py:run'), ('checks', 'classes/exceptions.py')])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
    print(len(P), 'properties')
