T = ("contract-based deductive verification: contracts on the real functions, obligations generated by symbolic execution of /repo's current source "
     "for symbolic lattice sizes and inputs (pyvc), discharged by z3/cvc5")
N = " If a change leaves the verifier's reach (an obligation unsupported or undecided), that run falls back to the bounded CPython stage and says so in the evidence."
def P(note): return ("proof", note + N, T)
LEVEL["C01"] = P("All obligations over symbolic odd height and width (cases h=1, w=1, h,w>=3, both code types). Trusted: qiskit's registers/circuit as recording stubs.")
LEVEL["C02"] = P("All gates of the four logical operators and their conditioned forms, symbolic size; commutation with every check by exact parity argument over plaquettes.")
LEVEL["C03"] = P("The trace of stabilize for symbolic size and round number; measured operator by exact Clifford rules on one generic check.")
LEVEL["C04"] = P("readout_x/z and lattice_readout_x/z, symbolic size and counters, caller's register or none.")
LEVEL["C05"] = P("reset_x/reset_z, symbolic size; stabilizer of every data qubit then products over plaquettes, columns and rows.")
LEVEL["C06"] = P("RotatedQubit.parse_readout for readout strings of symbolic length (number of rounds, checks) with arbitrary bits; emission counts per (round, check).")
LEVEL["C07"] = P("extract_final_stabilizer_and_logical_readout[_x/_z] for symbolic size and arbitrary bits.")
LEVEL["C15"] = P("Constructors and validators for symbolic integers d and pairs, all accept and refuse regions.")
LEVEL["C17"] = P("Gate order in every plaquette of every size; fault propagation by exact Clifford rules.")
LEVEL["C14"] = P("Register and circuit classes with symbolic numbers of qubits, abstract type strings and names; every operation by object and by number against the stand-alone qubit.")
LEVEL["C12"] = P("set/reset/_run_look_up/correct_readout_look_up_table over abstract tables (any strings, counts, shots, priors). Floating point treated as exact rationals.")
LEVEL["C16"] = P("logical_error_rate over any counts table; append_data over any previous file; single and sweep over any list of rates, with callee contracts. sweep_mp is a recorded finding. numpy, tqdm and the simulator are assumed contracts.")
LEVEL["C13"] = P("TopologicalCircuit.cx against callee contracts (reset, readout, coupling and conditioned logical gates, each an obligation for symbolic size), then exact simulation of the logical circuit over every outcome, for any registers, ancilla and earlier history.")
LEVEL["C09"] = P("correct_readout and its helpers over any decoding graph that meets C08's postcondition, any set of reported checks of one fault chain, symbolic size; the induction over paths and matchings is a Lean theorem (lean/C09.lean) whose hypotheses are the obligations. Trusted: retworkx shortest paths and maximum-weight matching.")
LEVEL["C10"] = P("Frame conditions: caller-visible objects (strings, tables, parameter dicts, decoder graphs, lists) unchanged and no state shared or kept across calls, for symbolic sizes and inputs.")
LEVEL["C11"] = P("The degeneracy and weight functions over any decoding graph (distance and path-count matrices abstract), any node pair, any consistent cache contents, any p in (0,1/2). Trusted: retworkx Floyd-Warshall and the shortest-path counts as a functional contract; logarithms as an uninterpreted function.")
LEVEL["C08"] = P("Decoder constructors, round loop and worklist traversal of the graph builder for symbolic size and T: traversal invariants over abstract label sets, one node per check and round plus the virtual nodes, edges exactly between joined labels and consecutive rounds, coordinates agreeing with the lattice's plaquette centres. The closure and termination lemmas are Lean theorems (lean/C08.lean). Trusted: retworkx.PyGraph (add_node, add_edge).")
LEVEL["C18"] = P("Composed: the contracts of stabilize, logical operators and readout (as in C02-C04), linear-arithmetic lemmas that the checks between two neighbouring rows (columns) partition their qubits with the logical operator's own factors, and the Lean theorem C18.distance (parity is carried from row to row, so every row is hit). A failed sub-contract leaves the composed property open and the bounded stage (exact search for a light logical error in the real circuits, also at the sizes of counter-models) decides.")
LEVEL["C19"] = P("Composed: the contracts of reset, stabilize, logical operators, readouts, parse_readout, extraction, decoding graph and correct_readout (as in C02-C09, all discharged again in this check), factor lemmas, and the Lean theorems C19.changes/logical/fewer and C09.corrected. A failed sub-contract leaves the composed property open and the bounded stage (faults injected in the real circuit, its readout strings decoded by the real decoder) decides. Trusted: qiskit's order of counts, retworkx.")
LEVEL["C20"] = P("id and id_data over symbolic size, round and readout counters: every event of the trace is an identity gate or barrier, one per generic qubit of each register. The delegation by TopologicalCircuit is an obligation of C14 and in the bounded stage here.")
LEVEL["C21"] = P("load_data over any file content (arrays of any length) and the batch constructor over any number of files (one generic file; the ordering by a quantified permutation). append_data itself is under contract in C16. Trusted: numpy load/savez round trip, glob. The round trip through real files is also in the bounded stage.")
