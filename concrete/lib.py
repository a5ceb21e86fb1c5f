"""Helpers shared by the bounded CPython oracles: building lattices of /repo, Choi-state simulation."""
import os, re, sys, warnings
warnings.filterwarnings("ignore")
sys.path.insert(0, os.environ.get("QT_REPO", "/repo"))
os.environ.setdefault("MPLBACKEND", "Agg")
from qiskit import QuantumCircuit, QuantumRegister, ClassicalRegister
import geo
from stab import Tableau, run_circuit, UnsupportedOp


def qt():
    import qtcodes
    return qtcodes


class Fail(Exception):
    pass


def need(cond, *msg):
    if not cond:
        raise Fail(" ".join(str(m) for m in msg))


def klass(code):
    from qtcodes.circuits.xxzz import XXZZQubit
    from qtcodes.circuits.xzzx import XZZXQubit
    from qtcodes.circuits.repetition import RepetitionQubit
    return {"XXZZ": XXZZQubit, "XZZX": XZZXQubit, "REP": RepetitionQubit}[code]


def params_for(code, h, w):
    if code == "REP":
        return {"d": (h, w), "phase-flip-protected": h == 1}
    return {"d": (h, w)}


def spec_code(code):
    return "XZZX" if code == "XZZX" else "XXZZ"


def make(code, h, w, name="tq", circ=None):
    circ = QuantumCircuit() if circ is None else circ
    return klass(code)(params_for(code, h, w), name=name, circ=circ)


def codes_for(h, w):
    out = ["XXZZ", "XZZX"]
    if h == 1 or w == 1:
        out.append("REP")
    return out


def ops_on(tq, ops, other=None):
    """drive one logical qubit through a list of operation names"""
    for op in ops:
        if op == "readout_creg_x" or op == "readout_creg_z":
            n = sum(1 for r in tq.circ.cregs if r.name.startswith("usr"))
            reg = ClassicalRegister(1, name="usr%d" % n)
            tq.circ.add_register(reg)
            getattr(tq, op.replace("readout_creg", "readout"))(readout_creg=reg)
        elif op in ("x_c_if", "z_c_if"):
            n = sum(1 for r in tq.circ.cregs if r.name.startswith("usr"))
            reg = ClassicalRegister(1, name="usr%d" % n)
            tq.circ.add_register(reg)
            getattr(tq, op)(reg, 1)
        else:
            getattr(tq, op)()


HIST = ["stabilize", "x", "z", "reset_x", "reset_z", "readout_x", "readout_z", "readout_creg_x", "readout_creg_z",
        "lattice_readout_x", "lattice_readout_z", "id", "id_data", "x_c_if", "z_c_if"]


def rand_hist(rng, n):
    return [rng.choice(HIST) for _ in range(n)]


class Choi:
    """tableau in which chosen qubits are halves of Bell pairs with reference qubits, the others |0>"""

    def __init__(self, qubits, bell):
        self.tab = Tableau()
        self.q = {}
        self.ref = {}
        for qb in qubits:
            self.q[qb] = self.tab.add_qubit()
        for qb in bell:
            r = self.tab.add_qubit()
            self.ref[qb] = r
            self.tab.h(self.q[qb])
            self.tab.cx(self.q[qb], r)
        self.cb = {}

    def run(self, circ, start):
        run_circuit(self.tab, circ, self.q, self.cb, start)

    def mask(self, qubits, px, pz, ref=False):
        """translate a Pauli over an ordered qubit list into tableau masks (data side or reference side)"""
        m = self.ref if ref else self.q
        X = Z = 0
        for i, qb in enumerate(qubits):
            if px >> i & 1: X |= 1 << m[qb]
            if pz >> i & 1: Z |= 1 << m[qb]
        return X, Z

    def data_sign(self, qubits, px, pz):
        return self.tab.expect(*self.mask(qubits, px, pz))

    def kept(self, qubits, pin, pout=None):
        """sign of pout(now) (x) pin^T(reference); 0 means the Heisenberg map pin -> +pout holds; None: it does not"""
        pout = pin if pout is None else pout
        a = self.mask(qubits, *pout)
        b = self.mask(qubits, *pin, ref=True)
        s = self.tab.expect(a[0] | b[0], a[1] | b[1])
        if s is None:
            return None
        y = bin(pin[0] & pin[1]).count("1")
        return s ^ (y & 1)


def touched(circ, start):
    out = set()
    for inst in circ.data[start:]:
        if inst.operation.name in ("barrier", "id"):
            continue
        out.update(inst.qubits)
    return out


def centralizer_gens(n, paulis_given):
    """generators of all n-qubit Paulis commuting with ONE given Pauli"""
    P = paulis_given
    singles = [(1 << i, 0) for i in range(n)] + [(0, 1 << i) for i in range(n)]
    good = [s for s in singles if geo.commute(s, P)]
    bad = [s for s in singles if not geo.commute(s, P)]
    for b in bad[1:]:
        good.append((bad[0][0] ^ b[0], bad[0][1] ^ b[1]))
    return good


def trailing_number(name):
    m = re.search(r"(\d+)$", name)
    return int(m.group(1)) if m else None


def qubits_of(tq, reg):
    r = tq.lattice.qregisters.get(reg)
    return list(r) if r is not None else []
