"""Writes /verif/properties.jsonl (the property texts are kept here, wrapped for reading)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(text.split())),
        why_tests_cant=" ".join(why.split()),
        anchors=dict(files=files,
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=list(observe), hook_needed=None)))
CI = "qtcodes/circuits/"
FI = "qtcodes/fitters/"
TESTS = """Existing tests build 3x3 and 5x5 (and a 3x1/1x3 repetition) lattices with a handful of rounds """

prop("C01", "Every odd-sized lattice is a valid stabilizer code",
"""For every odd height h and width w (not both 1), an XXZZ or XZZX lattice has h*w data qubits and h*w-1
checks; each check acts on exactly the data qubits at the corners of its own plaquette that lie inside the lattice (two or four of them),
with X on all corners for XXZZ X-checks, Z on all corners for XXZZ Z-checks, and X on top-left/bottom-right with Z on top-right/bottom-left
for XZZX checks. Every two checks commute, and every check is listed and entangled exactly once.""",
["inputs", "configurations"], "all odd h,w >= 1 except 1x1, both surface codes, every pair of checks",
TESTS + "; commutation and boundary shape for every rectangular size is a statement over unboundedly many lattices and no test looks at the checks themselves.",
[CI+"rotated_surface.py", CI+"xxzz.py", CI+"xzzx.py", CI+"base.py"],
[("_RotatedLattice._set_geometry", CI+"rotated_surface.py"), ("_RotatedLattice._gen_qubit_indices_and_stabilizers", CI+"rotated_surface.py"),
 ("_XXXX/_ZZZZ.entangle", CI+"xxzz.py"), ("_XZZX.entangle", CI+"xzzx.py"), ("_TopologicalLattice.entangle", CI+"base.py")],
[("geometry", "plaquette -> data qubit indices", CI+"rotated_surface.py")], ["circuit instructions emitted by stabilize()/entangle", "lattice.qubit_indices, lattice.geometry"])

prop("C02", "Logical X and Z are the right operators and commute with every check",
"""For every odd lattice, the logical X acts on exactly the left-most column and the logical Z on exactly the top row (XXZZ: X, respectively Z, on each
qubit; XZZX: for logical X, X on odd-numbered and Z on even-numbered qubits of the column, for logical Z, X on even-numbered and Z on odd-numbered
qubits of the row), one gate per qubit and nothing else. Both commute with every check and anticommute with each other. The classically conditioned
forms apply exactly the same gates, each conditioned on exactly the given register and value.""",
["inputs", "configurations"], "all odd h,w >= 1 except 1x1, both surface codes, every classical register and value",
TESTS + "and compare a few sampled outcomes; a wrong qubit in an untested size, shape or conditional form is not sampled.",
[CI+"xxzz.py", CI+"xzzx.py", CI+"base.py"],
[("_XXZZLattice.x/z/x_c_if/z_c_if", CI+"xxzz.py"), ("_XZZXLattice.x/z/x_c_if/z_c_if", CI+"xzzx.py")], (), ["gates appended to the circuit"])

prop("C03", "A stabilize round measures each check once into its own bit",
"""Each stabilize() call on a lattice appends one fresh classical register of h*w-1 bits whose name carries the round number (0 for the first round,
then counting up by one), measures every check operator exactly once into its own bit (check Z_k in bit k, check X_k in bit #Z+k), and
leaves every syndrome qubit reset to |0>. Apart from the projections onto the checks it does not disturb the data qubits, and it touches no ancilla and no other logical qubit.""",
["inputs", "histories", "configurations"], "all odd lattice sizes (not 1x1), both surface codes, any number of previous rounds and operations",
TESTS + "and look at sampled all-zero syndromes, which many wirings of bits to checks satisfy.",
[CI+"rotated_surface.py", CI+"base.py", CI+"xxzz.py", CI+"xzzx.py"],
[("RotatedQubit.stabilize", CI+"rotated_surface.py"), ("_TopologicalLattice.entangle", CI+"base.py")],
[("params['T']", "index of last round, -1 before the first", CI+"rotated_surface.py")], ["circuit registers, measures, resets"])

prop("C04", "Logical readout measures the logical operator and keeps the state",
"""readout_x (readout_z) measures exactly the logical X (logical Z) operator of the lattice, non-destructively, into the classical register the caller
gave or else into a fresh 1-bit register numbered consecutively from 0; the eigenvalue +1 reads 0, and nothing but the projection happens to the data
qubits, whatever state the readout ancilla was in. lattice_readout_x (lattice_readout_z) measures every data qubit q into bit q of a fresh register of h*w bits numbered consecutively from 0,
each in the basis in which the logical X (or Z) string acts on it - X or Z for all qubits on XXZZ, and on XZZX the X basis on odd-numbered (for Z: even-numbered) qubits and Z on the others.""",
["inputs", "histories", "configurations"], "all odd lattice sizes (not 1x1), both surface codes, any earlier operations",
TESTS + "and sample outcomes only of |0>/|+> states, where reading a subset of the string or a different basis often gives the same answer.",
[CI+"xxzz.py", CI+"xzzx.py"],
[("readout_x/readout_z/_readout_*_into_ancilla", CI+"xxzz.py"), ("readout_x/readout_z/_readout_*_into_ancilla", CI+"xzzx.py"), ("lattice_readout_x/z", CI+"xxzz.py")],
[("num_readout, num_lattice_readout", "counters naming fresh registers", CI+"rotated_surface.py")], ["circuit"])

prop("C05", "reset_x / reset_z prepare the +1 logical state",
"""After reset_x (reset_z) on a lattice in any state, the logical X (logical Z) operator has value +1, and so has every check that is a product of the same single-qubit
operators the preparation fixes (all X-checks for reset_x and all Z-checks for reset_z). Every data qubit is reset, and no other qubit is touched.""",
["inputs", "configurations"], "all odd lattice sizes (not 1x1), both surface codes, every prior state",
TESTS + "and always start from |0...0>, where a missing reset cannot be seen.",
[CI+"xxzz.py", CI+"xzzx.py"], [("reset_x/reset_z", CI+"xxzz.py"), ("reset_x/reset_z", CI+"xzzx.py")], (), ["circuit"])

prop("C06", "parse_readout reports exactly the checks that changed",
"""For every readout string of a lattice (a logical bit or a lattice readout followed by one syndrome string per round, latest first), parse_readout returns the
logical bit and, for X and for Z, exactly one entry (t, row, col) for each check whose value differs between round t and round t+1 - never one for an unchanged check - where
(row, col) is the centre of that check's plaquette and t counts from 0 at the earliest round. With a lattice readout the reconstructed final checks act as one more round.""",
["inputs", "histories"], "all odd lattice sizes (not 1x1), any number of rounds, every bit pattern",
"Tests parse a few fixed 3x3/5x5 strings; the mapping of bit position to coordinate for every size, round and pattern is universal.",
[CI+"rotated_surface.py", CI+"circ.py", FI+"lattice_decoder.py"],
[("_RotatedLattice.parse_readout", CI+"rotated_surface.py"), ("LatticeDecoder.parse_readout", FI+"lattice_decoder.py")], (), ["returned value"])

prop("C07", "A lattice readout is turned into the right final checks and logical value",
"""From the string of all data-qubit outcomes (last qubit first) and the previous syndrome string, the extraction for readout type X (Z) returns the parity of the outcomes along
the left-most column (top row) as the logical value, and a syndrome string in which the bit of every X-check (Z-check) is the parity of the outcomes on that check's data qubits, while
the bits of the other type are copied unchanged from the previous syndrome.""",
["inputs"], "all odd lattice sizes (not 1x1), every outcome string and previous syndrome, both types",
"Tests cover a few 3x3 strings.", [CI+"rotated_surface.py"],
[("extract_final_stabilizer_and_logical_readout[_x/_z]", CI+"rotated_surface.py")], (), ["returned value"])

prop("C08", "The decoding graph is exactly the code's space-time geometry",
"""For every odd h x w and T, the decoder's graph of each type it decodes has one node per check and round at (t, row, col) of the check's plaquette centre plus the virtual boundary nodes
(type Z: above and below the lattice, type X: left and right) at time -1, and unit-weight edges exactly between nodes diagonally adjacent in space at the same round (one per data qubit and round, boundary qubits
joining their check to a virtual node) and between the same check in consecutive rounds. Coordinates agree with those parse_readout reports.""",
["inputs", "configurations"], "all odd h,w, all T >= 1, every decoded type that has at least one check",
"Tests compare against hand-picked 3x3/5x5 square graphs for two T values; extra, missing or mis-weighted edges of a rectangular or larger graph are not seen.",
[FI+"rotated_surface.py", FI+"lattice_decoder.py", FI+"repetition.py"],
[("RotatedDecoder._make_syndrome_graph/_populate_syndrome_graph", FI+"rotated_surface.py"), ("_valid_syndrome", FI+"rotated_surface.py"), ("_specify_virtual", FI+"rotated_surface.py")],
[("S, node_map, virtual", "graphs, label->index, virtual nodes", FI+"lattice_decoder.py")], ["decoder.S, decoder.virtual"])

prop("C09", "The decoder corrects every fault pattern below half the distance",
"""Whenever at most (d-1)/2 faults occur - data-qubit flips before any of the T rounds of changes, or wrong outcomes of syndrome measurements other than the first (reference) and the last (reconstructed from the lattice) - correct_readout without an error
probability returns the fault-free logical value from the faulty logical value and syndrome changes; d is the height for logical Z and the width for logical X. This holds for the rotated decoder on every odd h x w and T and for both
bit-flip and phase-flip repetition decoders.""",
["inputs", "fault_sequences", "configurations"], "all odd h,w, all T >= 1, every set of at most (d-1)/2 faults placed anywhere in space and time",
"Tests decode a handful of single errors and small samples on 3x3 and 5x5; the guarantee is over combinatorially many fault sets on unboundedly many lattices.",
[FI+"lattice_decoder.py", FI+"rotated_surface.py", FI+"repetition.py"],
[("correct_readout/_corrections", FI+"lattice_decoder.py"), ("_make_error_graph, _run_mwpm", FI+"lattice_decoder.py"), ("_is_crossing_readout_path", FI+"rotated_surface.py")], (), ["correct_readout result"])

prop("C10", "Decoding leaves the caller's data and the decoder unchanged",
"""Decoding is a pure function of its arguments: correct_readout and parse_readout never modify the syndromes, parameters or strings passed in, nor the decoder's graphs, virtual nodes, parameters or look-up tables,
and constructing a logical qubit never modifies lattice parameters another logical qubit relies on. Hence repeating a call, in any order with other decoding calls, gives the same answer as on a fresh decoder.""",
["histories", "inputs"], "every sequence of decode/parse calls on one decoder, every argument",
"Tests call each function once on fresh data; aliasing and state carried over between calls needs repeated-call histories.",
[FI+"lattice_decoder.py", FI+"rotated_surface.py", FI+"base.py", CI+"rotated_surface.py"],
[("_make_error_graph", FI+"lattice_decoder.py"), ("encoder property", FI+"lattice_decoder.py"), ("correct_readout", FI+"lattice_decoder.py")], (), ["arguments before/after", "decoder attributes"])

prop("C11", "Matching weights count all equally short error paths",
"""The degeneracy of two syndrome nodes is the number of shortest paths between them in the decoding graph, and if one of them is a virtual boundary node it is the total number of shortest paths from the other to all virtual nodes that are equally near.
With an error probability p the matching weight of a pair is minus (its graph distance minus log(degeneracy)/(log(1-p)-log(p))), without one minus the distance, and 0 between virtual nodes.
The values do not depend on the order in which pairs are queried or on cached intermediate results.""",
["inputs", "histories"], "all odd h,w, T, every pair of nodes, every query order, every p in (0, 1/2)",
"Tests check a few pairs on one size from an empty cache.", [FI+"lattice_decoder.py"],
[("_path_degeneracy, _path_degeneracy_helper", FI+"lattice_decoder.py"), ("_make_error_graph", FI+"lattice_decoder.py")],
[("num_shortest_paths", "cache: source index -> counts", FI+"lattice_decoder.py")], ["error graph edge weights"])

prop("C12", "Look-up-table decoding is Bayes' rule over the recorded counts",
"""After tables have been set for a readout type, the look-up decoder's probability of logical value i given an observed readout is proportional to prior(i) times (count of the readout in table i / shots in table i), the two probabilities add up to 1, and
the decoded value is the more probable one (0 on a tie). Setting one table replaces exactly that entry and its shot count, resetting clears all of them, and readout types do not influence each other.""",
["inputs", "histories"], "all count tables, all priors, every readout seen in at least one of the two tables, every order of set/reset calls",
"Tests use one simulated 3x3 table with a lopsided answer; unequal shot numbers, ties and priors are not exercised.",
[FI+"base.py"], [("set_look_up_table, reset_look_up_table", FI+"base.py"), ("_run_look_up, correct_readout_look_up_table", FI+"base.py")],
[("look_up_table, look_up_table_shots", "counts per type and value", FI+"base.py")], ["returned value"])

prop("C13", "The logical CNOT is a CNOT, on every input state",
"""TopologicalCircuit.cx(control, target) applies a logical CNOT to the two logical qubits for every joint logical state, superpositions and entangled ones included, whatever the intermediate measurement outcomes turn out to be, and whatever
state the ancilla logical qubit and the read-out qubit were left in by earlier operations. It holds for XXZZ and XZZX lattices of every size, with the ancilla chosen by default or by the caller and when the gate is applied repeatedly.""",
["inputs", "histories", "configurations"], "every pair of logical qubits of either code and any odd sizes, every input state, every sequence of cx calls",
"Tests check two computational basis inputs on one size; dephasing, conditional corrections for the rarer outcomes and repeated use are invisible to them.",
[CI+"circ.py", CI+"xxzz.py", CI+"xzzx.py"], [("TopologicalCircuit.cx", CI+"circ.py"), ("lattice cx/z_c_if/x_c_if", CI+"xxzz.py")], (), ["circuit"])

prop("C14", "Logical qubits are numbered, found and kept apart correctly",
"""A topological register numbers its logical qubits consecutively from 0 in the order added, across sub-registers, and looking one up by number or by sub-register name returns exactly that one (an unknown number is an error); a request that adds
several is refused as a whole if the lists differ in length or any type is unknown. Every logical qubit has its own registers and its own counters, so an operation on one logical qubit (by object or by number) acts on that one
alone and produces the same instructions as on a stand-alone qubit.""",
["histories", "inputs"], "every sequence of register additions and circuit operations, every mix of types and parameters, including one parameter dict used for several logical qubits",
"Tests use one or two qubits and never reuse parameters or interleave long operation sequences.",
[CI+"circ.py", CI+"base.py", CI+"rotated_surface.py"],
[("TopologicalRegister.add_tqubits/add_tqubit/__getitem__", CI+"circ.py"), ("TopologicalCircuit._get_index", CI+"circ.py"), ("_TopologicalLattice.__init__", CI+"base.py")],
[("tqubits, n", "sub-register -> number -> logical qubit", CI+"circ.py")], ["register lookups, circuit registers"])

prop("C15", "Parameters are validated and defaulted consistently",
"""A lattice or decoder is built exactly for positive odd heights and widths: any even, zero or negative dimension is refused with an error, an integer d means a d x d lattice (for repetition codes d x 1, or 1 x d when phase-flip protected), and a repetition code refuses a shape that is not one-dimensional in the protected direction. A decoder refuses parameters without T, and the rotated decoder also those without d; without d a lattice is 3 x 3 (repetition: 3 x 1, or 1 x 3 when phase-flip protected). A qubit's qubit and check counts follow from the accepted height and width.""",
["inputs"], "all integers and integer pairs d, both protection settings, all code types and decoders",
"Tests try one or two bad values.", [CI+"rotated_surface.py", CI+"repetition.py", FI+"rotated_surface.py", FI+"repetition.py", FI+"lattice_decoder.py"],
[("_params_validate_and_generate", CI+"rotated_surface.py"), ("RepetitionQubit._validate_params", CI+"repetition.py"), ("_params_validation", FI+"rotated_surface.py")], (), ["exception or params after construction"])

prop("C16", "Benchmark error rates are accounted and stored faithfully",
"""logical_error_rate returns the number of shots decoded to a value other than the expected one divided by all shots, weighting every readout string by its count. A sweep reports one logical rate per requested physical rate, paired with it and in increasing order of physical rate, and the saved file gains exactly these pairs while keeping every pair saved before, all in increasing order of physical rate; results of different distances or round numbers are kept in different files.""",
["inputs", "histories"], "all count tables, every list of physical rates in any order, every prior file content",
"No test covers the benchmark at all.", ["qtcodes/tools/benchmarking.py"],
[("TopologicalBenchmark.logical_error_rate/sweep/single/append_data", "qtcodes/tools/benchmarking.py")], (), ["returned values, data, npz file"])

prop("C17", "A single fault in an XXZZ check circuit spreads only across its logical operator",
"""In the check circuits of XXZZ lattices, a single X fault on the syndrome qubit of an X-check between two of its gates leaves, up to the check itself, at most one flipped data qubit or two side by side in one row, whereas
the logical X runs down a column; a single Z fault on the syndrome qubit of a Z-check leaves, up to the check itself, at most one affected data qubit or two in one column, whereas the logical Z runs along a row. Hence no such fault advances a logical
error by two qubits.""",
["fault_sequences", "configurations"], "all odd h,w, every check, every position of a single fault in its circuit",
"No test injects a fault between two gates of a check circuit.", [CI+"xxzz.py", CI+"rotated_surface.py"],
[("_XXXX.entangle, _ZZZZ.entangle (gate order)", CI+"xxzz.py")], (), ["gate order in the circuit"])

prop("C18", "Errors lighter than the code distance never change a logical value unseen",
"""For every odd h x w lattice of each code, every Pauli error on data qubits that changes no check outcome of a stabilize round but flips what readout_z reports
acts on at least h data qubits, and every one that flips what readout_x reports acts on at least w. The lattice's own logical operators attain the bound:
x() acts on exactly h data qubits and z() on exactly w, changing no check outcome and flipping exactly that readout.""",
["inputs", "fault_sequences", "configurations"], "all odd h,w >= 1 except 1x1, XXZZ, XZZX and both repetition codes, every Pauli error on any set of data qubits",
"Tests insert single errors on 3x3 and 5x5; the distance is a statement over all 4^(h*w) errors on unboundedly many lattices.",
[CI+"rotated_surface.py", CI+"xxzz.py", CI+"xzzx.py", CI+"repetition.py", CI+"base.py"],
[("RotatedQubit.stabilize", CI+"rotated_surface.py"), ("_XXXX/_ZZZZ/_XZZX.entangle", CI+"xxzz.py"), ("x, z, readout_x, readout_z", CI+"xxzz.py")], (), ["syndrome bits and readout bits flipped by an error on the circuit"])

prop("C19", "Fewer than d/2 faults never change a stored logical value, reset to decoder",
"""Prepare a lattice by reset_z (reset_x), run T rounds of stabilize with any logical x() and z() in between, and read it out by lattice_readout_z (lattice_readout_x):
correct_readout of the matching decoder (same shape and T, no error probability) on the resulting readout string returns the logical value stored -
0, flipped by each x() (z()) - whatever the random outcomes, provided at most (d-1)/2 faults occur after the first round: any Pauli errors on data qubits
between rounds, or wrong check outcomes in the rounds after the first. The same holds with T+1 rounds and readout_z (readout_x), for faults after the first round and before
the last, with correct outcomes in the last. d is the height for reset_z and the width for reset_x.""",
["inputs", "fault_sequences", "histories", "configurations"], "all odd h,w with d >= 3, XXZZ and XZZX with the rotated decoder and both repetition codes with theirs, all T >= 1, every set of faults, every measurement outcome",
"Tests run a handful of seeded circuits with one or two errors on 3x3; the guarantee joins circuit, readout string and decoder for all sizes, fault sets and outcomes.",
[CI+"rotated_surface.py", CI+"xxzz.py", CI+"xzzx.py", CI+"repetition.py", CI+"base.py", FI+"lattice_decoder.py", FI+"rotated_surface.py", FI+"repetition.py"],
[("RotatedQubit.stabilize", CI+"rotated_surface.py"), ("lattice_readout_x/z, parse_readout", CI+"rotated_surface.py"), ("correct_readout", FI+"lattice_decoder.py")], (), ["correct_readout of the circuit's readout string"])

prop("C20", "Identity markers mark exactly the lattice's own qubits",
"""id() on a logical qubit appends exactly one unconditional identity gate to each of its data and syndrome qubits (and at most one to its read-out qubit), id_data() exactly one
to each of its data qubits and none elsewhere; neither appends anything else but barriers, adds registers or bits, changes the parameters or touches another logical qubit. So a
noise model attached to identity gates acts exactly once per marker on exactly these qubits.""",
["inputs", "configurations", "histories"], "all odd h,w >= 1 except 1x1, every code, every earlier history, called directly or through a topological circuit",
"No test looks at the identity gates; a qubit left out or marked twice only shifts simulated error rates.",
[CI+"base.py", CI+"circ.py"], [("TopologicalQubit.id/id_data", CI+"base.py"), ("TopologicalCircuit.id/id_data", CI+"circ.py")], (), ["gates appended to the circuit"])

prop("C21", "The analysis loads exactly what the benchmark saved",
"""For a file written by a benchmark's append_data, TopologicalAnalysis.load_data gives the height, the width and the number of rounds of the benchmark's decoder and
the saved physical and logical error rates, paired and ordered as saved. A batch analysis of a folder holds exactly one loaded analysis for each of the folder's .npz files, in increasing order of height.""",
["inputs", "histories"], "every distance, number of rounds and history of saved results, every set of files",
"No test covers the analysis classes.", ["qtcodes/tools/benchmarking.py"],
[("TopologicalAnalysis.load_data", "qtcodes/tools/benchmarking.py"), ("TopologicalBatchAnalysis.__init__", "qtcodes/tools/benchmarking.py"), ("TopologicalBenchmark.append_data", "qtcodes/tools/benchmarking.py")], (), ["params and data of the analyses"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    import jsonschema
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p in P:
        jsonschema.validate(p, s)
        n = p["statement"].count(". ") + 1
        if n > 3: print(p["id"], "sentences", n)
    print(len(P))
