#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run by hand when a statement changes)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     observe_at=list(observe), hook_needed=None)))
G='dwave/gate/'
SIM=G+'simulator/simulator.pyx'; GEN=G+'simulator/operation_generation.py'; CIR=G+'circuit.py'
BASE=G+'operations/base.py'; OPS=G+'operations/operations.py'; REG=G+'registers/registers.py'; CY=G+'registers/cyregister.pyx'
PRIM=G+'primitives.py'; CNT=G+'tools/counters.py'; UNI=G+'tools/unitary.py'; MIX=G+'mixedproperty.py'
QC=G+'qir/compiler.py'; QL=G+'qir/loader.py'; QI=G+'qir/instructions.py'

p('C01','State-vector simulation equals the product of the gate matrices',
  'Simulating a circuit without measurements yields the state obtained by multiplying the all-zeros state by each gate\'s matrix, applied to exactly the qubits the gate names (in the order it names them) and in program order. This holds for every supported gate, every placement of it among the circuit\'s qubits and registers, custom single-qubit gates given by any matrix layout or number type, and for both qubit orderings (big-endian by default, little-endian on request). The result has unit norm and simulating does not change the circuit\'s operations.',
  ['programs','inputs','configurations'],
  'all gate sequences over the full gate set and a finite angle alphabet, all ordered tuples of distinct qubits, circuits of 1..5 qubits, both endiannesses',
  'Tests simulate a few dozen hand-written circuits with mostly real states on 1-3 qubits; every (gate, placement, width, endianness, preceding state) combination needs enumeration.',
  [SIM,GEN,OPS],[('apply_instruction dispatch',SIM),('generated index/mask kernels',GEN)],['state vector of the circuit after simulation'])
p('C02','Density-matrix results agree with the state vector',
  'For every measurement-free circuit the density-matrix simulation and the density matrix derived from a state-vector simulation are both the outer product of the exact final state with its complex conjugate, in the requested qubit ordering. The matrix is Hermitian, positive with trace one, and asking for the pure state after a mixed simulation is refused rather than answered.',
  ['programs','inputs','configurations'],
  'all gate sequences to a depth over a gate set with complex and asymmetric gates, all placements, 1..3 qubits, both endiannesses',
  'Tests compare against a handful of real-valued states, which cannot tell a matrix from its conjugate or transpose.',
  [SIM,CIR],[('doubled virtual register, conjugated gate on the second half',SIM),('outer product of the stored state',CIR)],['density matrix and state of the circuit'])
p('C03','Measurements collapse with Born probabilities; conditionals follow bits',
  'Each measured qubit yields 0 or 1 with exactly the probability the current state assigns, the result is stored in the corresponding classical bit, and the state becomes the normalised projection onto that outcome, so that measuring again gives the same result. Operations conditioned on bits execute exactly when all those bits are 1 (at the moment they are reached) and otherwise have no effect at all. This holds for measurements anywhere in the circuit, of any subset of qubits in any order, into any bits.',
  ['programs','inputs','histories'],
  'all circuits of a bounded grammar of gates, measurements and conditionals on 1..3 qubits, all random-number answers of a grid, hence all outcome histories',
  'Tests draw random numbers and check statistical averages of a few circuits; no test covers every outcome branch of a mid-circuit measurement program.',
  [SIM,GEN,BASE],[('measurement_computational_basis',GEN),('is_blocked',BASE),('_measure',SIM)],['classical bits','final state','measurement state'])
p('C04','Re-simulation is reproducible and independent of earlier runs',
  'Simulating a circuit with a given seed gives the same bits and the same state every time, whatever was simulated, appended, sampled or reset before, and whatever other circuits exist or are open. The results (state, density matrix, bits, number and order of measured qubits) always describe the latest simulation only.',
  ['histories','programs','inputs'],
  'all sequences up to a depth of simulate (pure, mixed, either ordering, several seeds), sample, set-state, append, reset over a menu of circuits, compared with a freshly built circuit simulated once',
  'Tests simulate each circuit once from a fresh object; leftovers of an earlier run are only visible in histories.',
  [SIM,CIR,BASE],[('set_state(force)',CIR),('rng seeding',SIM),('stored measured state and indices',BASE)],['state','bits','samples'])
p('C05','Sampling a measurement reports the measured state without disturbing it',
  'Sampling returns, for each of the requested number of shots, one 0/1 entry per requested qubit in the requested order (by default the measured qubits in measurement order), jointly distributed as the state just before the measurement prescribes; expectation values are the per-qubit means of such samples. Sampling changes neither the recorded state, the circuit state nor any bit, and is refused before simulation or for qubits the state does not have. Sampling a single qubit of a given state directly (sample_qubit, in either qubit order) follows the same probabilities and collapses the given state exactly when asked to.',
  ['inputs','programs','histories'],
  'all measurement states of a bounded circuit grammar (entangled included), all qubit selections and orders, all shot counts up to a bound, all random answers of a grid',
  'Tests sample deterministic basis states or large random batches; correlated outcomes, order and repeated sampling are not covered.',
  [BASE,SIM],[('Measurement.sample',BASE),('sample_qubit',SIM)],['returned samples','recorded measurement state'])
p('C06','Circuit contexts record operations exactly once, in order, and always close',
  'At most one circuit is open at any time; an operation created while one is open is recorded in that circuit exactly once, in creation order, unless recording is frozen (frozen sections nest), and operations created outside are recorded nowhere. Leaving a context by any route, exceptions included, closes it and locks its circuit; a locked circuit refuses new operations and re-opening until unlocked. A refused operation or a refused entry leaves the circuit, the lock and the open context unchanged.',
  ['histories','fault_sequences'],
  'all sequences up to a depth of enter, exit, exit-by-exception, freeze, unfreeze, apply (valid and invalid), lock, unlock, reset over two circuits',
  'Tests exercise single enter/exit scenarios; nested freezes, exceptions between steps and interleavings of two circuits form a history space.',
  [CIR,BASE],[('CircuitContext.__enter__/__exit__/freeze',CIR),('Operation.__init__ append',BASE),('Circuit.lock',CIR)],['list of operations','active context','lock state'])
p('C07','Circuit qubit and bit bookkeeping is consistent',
  'The circuit\'s qubits (bits) are always the concatenation of its quantum (classical) registers in creation order, with no element in two places; counts, lookups by label and by element, and default labels agree with that sequence after any sequence of additions and resets. Adding exactly the given element (whatever value it holds) or a fresh one extends exactly the named or first register, and a refused addition changes nothing.',
  ['histories','inputs'],
  'all sequences up to a depth of adding registers (labelled or not), adding new, given or duplicate qubits/bits (unset, 0 and 1), looking up, resetting with and without keeping registers',
  'Tests check single additions to fresh circuits; cached views going stale and label collisions need sequences.',
  [CIR],[('cached qubits/bits invalidation',CIR),('duplicate guard',CIR)],['qubits','bits','registers','lookups'])
p('C08','Registers are ordered collections of unique items with list semantics',
  'A register behaves as an insertion-ordered sequence of distinct hashable items: indexing (negative too), slicing (any start, stop, step), length, iteration, membership, position, counting, copying, concatenation and set algebra give exactly what a plain list of the same items gives. Adding an item already present, or adding anything to a frozen register, is refused; copies and slices are independent of the original. This holds for any mix of item types, integers included, and after any removals or relabellings.',
  ['histories','inputs'],
  'all sequences up to a depth of add, extend, pop, remove, relabel, copy, concatenate, freeze over an alphabet mixing small integers, strings, floats and qubits, with all index and slice arguments in a window',
  'Integers are stored implicitly by position, so correctness depends on which items sit where; tests use a few fixed registers.',
  [REG,CY],[('implicit integer labels with two dictionaries',CY),('freeze guard',REG)],['every read operation of the register'])
p('C09','The parameter register grows on demand with stable distinct variables',
  'Indexing the parameter register at a position beyond its end while it is unfrozen creates exactly the missing variables, and the same position always returns the very same variable object afterwards. When frozen it never grows: positions beyond the end are refused and existing ones still resolve, as they do for negative positions.',
  ['histories','inputs'],
  'all sequences up to a depth of index (positions -3..4), freeze, unlock, add over fresh and pre-filled registers',
  'Tests index a fresh register a few times; growth order, repeats and freezing interact over sequences.',
  [REG],[('SelfIncrementingRegister.__getitem__',REG)],['returned variables','register length'])
p('C10','Applying a circuit inside another splices in its operations faithfully',
  'Applying a circuit to given qubits (and bits) inside an open context appends, in order, one operation per operation of the applied circuit, of the same kind and parameters, with qubits, control/target roles, measured bits and conditions replaced position by position by the given ones. The applied circuit is left unchanged, and wrong qubit or bit counts, applying a circuit to itself, or applying with no open context are refused without appending anything.',
  ['programs','inputs','histories'],
  'all template circuits of a bounded grammar over every operation kind, all injective qubit/bit assignments, two levels of nesting, all wrong-size calls',
  'Tests apply two or three templates to matching registers; conditions, multi-control gates, bits holding values and nesting are not enumerated.',
  [CIR],[('Circuit.__call__ qubit and bit maps',CIR)],['operations of the outer circuit','simulated states'])
p('C11','Parametric circuits bind each variable to its value, everywhere and only once',
  'Applying or evaluating a parametric circuit replaces every occurrence of its i-th variable by the i-th supplied value (zero included), yielding the same circuit as writing those numbers directly. Afterwards the circuit is as before and can be reused with other values without any trace of the earlier ones, also when applied several times in one context, inside another parametric circuit, or when a call fails.',
  ['inputs','programs','histories'],
  'all parametric circuits of a bounded grammar (1-3 parameter gates, shared variables, any order of use), all value tuples over an alphabet with zero and negatives, sequences of applications',
  'Tests bind nonzero values to one or two gates; zero, repeated variables and sequences of calls are not covered.',
  [CIR,BASE,PRIM],[('ParametricCircuit.__call__ and eval',CIR),('ParametricOperation.eval',BASE),('Variable',PRIM)],['parameters of the resulting operations','variable values'])
p('C12','Gate matrices follow their definitions',
  'Every gate\'s matrix is unitary and equals its textbook definition for every parameter value; aliases denote the same gate, controlled gates apply their target gate exactly when the control is 1 with the control as the first qubit (while a context is open that holds its qubits: with its qubits in the order of that circuit), published decompositions multiply out to the gate up to a phase, and the matrix does not depend on earlier calls or on mutation of a previously returned matrix.',
  ['inputs','histories'],
  'every gate class, all parameter tuples over an angle grid, class and instance access, before and after mutating returned matrices, inside and outside contexts',
  'Tests compare a few parameter values and unchanged arrays.',
  [OPS,BASE],[('matrix properties',OPS),('ControlledOperation.matrix',BASE)],['matrix','decomposition'])
p('C13','An operation created from a circuit acts as that circuit',
  'An operation class built from a circuit has the circuit\'s qubit and parameter counts, and its matrix equals the product of the circuit\'s gates; with parameters, the i-th argument is used wherever the i-th variable occurs. Using the new operation in circuits (where single-qubit) changes the state exactly as the original circuit would, and operations created from different circuits never share results.',
  ['programs','inputs','histories'],
  'all source circuits of a bounded grammar (single-qubit gates, single-control gates, parametric gates with shared and permuted variables), all parameter tuples of an alphabet, all creation/use orders',
  'Tests build a couple of custom operations from distinct variables used in order.',
  [BASE,UNI],[('create_operation',BASE),('build_unitary',UNI)],['matrix','simulated state'])
p('C14','Unitary builders embed gates on the right qubits',
  'Building the matrix of a controlled gate yields, for any sets of control qubits, target qubit and width, the matrix that applies the given 2x2 unitary to the target exactly when all controls are 1; building the unitary of a circuit yields the ordered product of its embedded gates as the circuit currently is. Overlapping, out-of-range or multi-target requests are refused.',
  ['inputs','programs','histories'],
  'all control subsets, targets and widths up to 4-5 qubits, all control orders, asymmetric complex unitaries; all circuits of a bounded grammar rebuilt after every modification',
  'Tests check hand-written matrices for a few placements and build each circuit once.',
  [UNI],[('build_controlled_unitary',UNI),('build_unitary',UNI)],['returned matrix'])
p('C15','OpenQASM export denotes the same circuit',
  'The OpenQASM 2.0 text of a circuit declares registers of exactly the circuit\'s sizes and lists exactly its operations in order on the corresponding qubits with the same parameters, so that an independent interpreter obtains the circuit\'s unitary, for any register layout and labelling option. Circuits that cannot be expressed are refused rather than exported differently, and requested gate definitions appear once per gate.',
  ['programs','inputs','configurations'],
  'all circuits of a bounded grammar over every exportable gate, all placements over 1-3 registers of 1-3 qubits, all labelling options, a parameter alphabet with negative and tiny values',
  'Tests compare literal strings of a few circuits.',
  [CIR,OPS,REG],[('Circuit.to_qasm mapping',CIR),('Operation.to_qasm',OPS),('register declarations',REG)],['QASM text'])
p('C16','QIR export denotes the same circuit',
  'The QIR of a circuit, as text and as bitcode, declares the circuit\'s qubit and result counts and calls exactly its gates in order with the same parameters on the qubits\' positions in the whole circuit, followed by its measurements into the matching results, each recorded as output in order. Circuits that the profile cannot express (gates after measurements, conditions, gates without an allowed function) are refused rather than exported differently.',
  ['programs','inputs','configurations'],
  'all circuits of a bounded grammar over every gate with and without external functions, all placements over several registers, all measurement assignments, text and bitcode',
  'Tests compare literal text for a few single-register circuits.',
  [QC,QI],[('qir_module',QC),('BaseModule.compile',QC),('Operations.to_qir',QI)],['QIR text','QIR bitcode'])
p('C17','QIR loading reconstructs the program, and round trips preserve it',
  'Loading QIR yields a circuit with the program\'s gates in program order with the same parameters, qubits and measured bits; unknown quantum functions are refused and code after the return is ignored. Exporting a circuit and loading it back (text or bitcode, fresh or into an existing circuit) preserves qubits, bits, gates, parameters and measurements.',
  ['programs','inputs','configurations'],
  'all QIR programs of a bounded grammar over all known functions, qubit/result indices and block structures; all exportable circuits of a bounded grammar',
  'Tests load four fixed programs and round-trip one circuit.',
  [QL,QI,QC],[('_module_to_circuit',QL),('from_qis_operation table',QI)],['operations of the loaded circuit'])
p('C18','Identifiers are unique until the counter is reset',
  'Every identifier handed out since the last reset differs from all others, whatever the batch size, initial length and number of refreshes, until the whole space is exhausted, at which point an error is raised instead of repeating one. Hence distinct qubits and bits never compare equal.',
  ['histories','configurations'],
  'all small alphabets, lengths and batch sizes run to exhaustion, with refreshes inserted at all positions',
  'Tests draw a few thousand identifiers; boundaries between batches, lengths and exhaustion lie beyond.',
  [CNT,PRIM],[('IDCounter.refresh/next',CNT)],['identifiers'])
p('C19','Bits, qubits and variables keep identity and value semantics',
  'A bit is unset, 0 or 1: setting stores the truth value, overwriting needs force, resetting clears it, and a refused set changes nothing; a bit equals itself and its set value only. Qubits and bits equal exactly themselves (and copies of them) regardless of labels and keep their hash; variables are equal by name or by their set value (zero included), and setting or resetting one never affects another.',
  ['histories','inputs'],
  'all sequences up to a depth of set/force-set/reset/relabel over two objects of each kind and an alphabet of values, comparing all pairs after each step',
  'Tests check a few direct calls with nonzero values.',
  [PRIM],[('Bit.set/reset/__eq__/__bool__',PRIM),('Variable',PRIM)],['value','equality','hash','truth value'])
p('C20','Class-level operation attributes are readable and cannot be overwritten',
  'Properties declared for both class and instance return, on the class and on every instance, the value computed by the most derived definition from that class and that instance; instance-only ones return nothing on the class. Neither assignment on an instance nor on the operation classes can overwrite an operation\'s matrix, and a refused assignment leaves the value unchanged.',
  ['inputs','programs','histories'],
  'all class hierarchies of depth 3 over overriding patterns and signatures, all read/assign sequences up to a depth; all shipped operation classes',
  'Tests use one or two fixed classes.',
  [MIX,BASE],[('mixedproperty.__get__/__set__',MIX),('ABCLockedAttr',BASE)],['attribute values'])
p('C21','Operations validate arguments and compare by kind, qubits and parameters',
  'An operation accepts exactly the number of qubits and parameters its kind requires, however given (single, sequence, control and target, or later assignment) and whatever was done before with its class; a refused change leaves it unchanged. Its qubits are always control followed by target, re-application records an equal operation on the same or the newly given qubits, and removing an operation deletes exactly the first equal one, where equality means same kind, qubits and parameters.',
  ['inputs','histories'],
  'every operation class, all argument counts 0..4 in every calling style, all short sequences of class-attribute access, construction, assignment and re-application; all circuits of a bounded grammar with all removals',
  'Tests check single wrong counts on fresh classes.',
  [BASE,CIR],[('_check_qubits/_check_parameters',BASE),('__eq__',BASE),('Circuit.remove',CIR)],['qubits','control','target','circuit operations'])
p('C22','Only valid states can be stored, and the latest stored one is returned',
  'Storing a state accepts exactly vectors of unit norm and matrices of trace one (density matrices, pure or genuinely mixed) of the circuit\'s dimension, normalising first when asked, and refuses anything else, or overwriting without force, leaving the stored state unchanged. Afterwards state and density matrix both describe the last accepted one.',
  ['histories','inputs'],
  'all sequences up to a depth of storing vectors and matrices from an alphabet of valid, mixed, unnormalised and misshapen ones with all flag combinations, reading in between',
  'Tests store one rank-one real matrix or vector into a fresh circuit.',
  [CIR],[('set_state/_assert_state',CIR),('lazy density matrix',CIR)],['state','density matrix'])
p('C23','Generated simulator kernels apply exactly their operator',
  'The operation-generation module produces, for any number of target and control qubits, an operator given at run time, masked or compiled in (real entries), plain, norm-collecting or scaled, and either qubit ordering, code which acts as that operator on exactly the named targets (the first one being the least significant bit of the operator\'s index) where all controls are 1, and leaves every other amplitude alone; the norm variant only returns the squared norm. An operator set picks each operator with its Born probability, returns its index and, if asked to, leaves its normalised result; sets not summing to identity are refused.',
  ['inputs','configurations'],
  'all generator configurations with up to 3 targets and 3 controls (sum up to 4) over a menu of operators, all ordered placements in circuits of up to 6 qubits, all basis states, all answers of a grid to the random draw',
  'Tests only reach the seven shipped configurations through circuits; the documented generator promises every other one.',
  [GEN],[('generate_op_c_code',GEN),('generate_op_set',GEN),('bit mask insertion',GEN)],['state vector','returned norm','returned operator index'])
p('C24','QIR modules compile to exactly the instructions they hold, whenever asked',
  'A QIR module compiles to a valid program consisting of exactly the instructions added since its creation or its last full reset, in the order added and in the order of the blocks (body, measurements, output), with its own name, flags and numbers of qubits and results. Text and bitcode describe the latest compilation. Compiling again needs force and gives the same program; resetting is possible at any time, also before or after a failed compilation; a refused compilation can be corrected and repeated. Other modules of the same context are not affected.',
  ['histories','inputs','fault_sequences'],
  'all histories up to a depth of adding instructions, declaring external functions, setting return values, compiling, resetting and reading, failing compilations included, in own and shared contexts',
  'Tests compile, reset and recompile one fixed module once; orders of resets, failures and additions form a history space.',
  [QC,QI],[('BaseModule.compile/reset',QC),('external functions are replaced on reset',QC)],['compiled text','compiled bitcode'])
p('C25','Copies of circuits, operations and registers are faithful and independent',
  'A circuit copied with copy.deepcopy or by pickling, at any point of its life (open, frozen, locked, simulated or not, parametric or holding custom operations), presents the same registers, labels, operations, conditions, parameters, bits, states, exports and lock as the original, and from then on original and copy each behave exactly like a circuit to which only its own later actions were applied; neither sees anything done to the other. The same holds for operations and registers. Copying changes nothing, records nothing, and objects copied together keep referring to each other.',
  ['histories','inputs'],
  'all histories of actions before copying and all interleavings of actions on original and copy up to a length, for circuits of several kinds; all operation classes and forms; all register histories up to a length',
  'Tests copy at most one fresh register; no test interleaves changes of an original and its copy.',
  [CIR,BASE,REG],[('Circuit and its context',CIR),('Register pickling',REG),('eval on a copy',BASE)],['registers','operations','bits','states','exports','lock'])
p('C26','Every way of passing a program on preserves what it does',
  'However a program reaches a circuit - recorded, copied, pickled, applied in another circuit (once, repeatedly, with others), with its variables bound or evaluated, by appending or re-applying its operations, or by exporting it to QIR and loading it (as text, as bitcode, into an existing circuit) - and whatever chain of these steps came before, the last circuit holds exactly the operations that the chain gives it, on the corresponding qubits and bits, and everything derived from it (simulated states in both orders, pure and mixed, measurement outcomes, unitary, OpenQASM, QIR, matrix as an operation) denotes them. Steps that cannot express the program are refused. Circuits earlier in the chain still denote their own programs, and later changes to any circuit show in it alone (operations that were appended to several circuits excepted).',
  ['programs','histories'],
  'all chains up to a length over twenty steps (transformations, changes and uses in between) from circuits with measurements, conditions, variables, several registers and every kind of gate',
  'Tests try each transformation once on a fresh circuit; defects in what one step leaves behind for the next need chains.',
  [CIR,BASE,QL,QC,UNI,SIM],[('Circuit.__call__/append/to_qir/from_qir/to_qasm',CIR),('eval, conditional, re-application',BASE)],['operations','states','bits','unitary','OpenQASM','QIR'])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
for q in P:
    assert len(q['title'])<=80,q['id']
open(out,'w').write(''.join(json.dumps(q)+'\n' for q in P))
print(len(P))
