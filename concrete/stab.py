"""Stabilizer simulation with symbolic measurement outcomes.

A state on n qubits is a CHP tableau (n destabilizers, n stabilizers); Pauli rows are pairs of Python ints (x mask, z mask)
plus a sign that is an affine form over measurement symbols (int bit mask, bit 0 = the constant 1)."""


class Tableau:
    def __init__(self, n=0):
        self.n = 0
        self.x = []   # rows 0..n-1 destabilizers, n..2n-1 stabilizers
        self.z = []
        self.s = []
        self.dx, self.dz, self.ds = [], [], []
        self.nsym = 1
        for _ in range(n):
            self.add_qubit()

    def add_qubit(self):
        q = self.n
        self.n += 1
        self.dx.append(1 << q); self.dz.append(0); self.ds.append(0)
        self.x.append(0); self.z.append(1 << q); self.s.append(0)
        return q

    def fresh(self):
        self.nsym += 1
        return 1 << (self.nsym - 1)

    # --- gates -----------------------------------------------------------
    def _rows(self):
        yield self.dx, self.dz, self.ds
        yield self.x, self.z, self.s

    def h(self, q):
        b = 1 << q
        for X, Z, S in self._rows():
            for i in range(self.n):
                xi, zi = X[i] & b, Z[i] & b
                if xi and zi:
                    S[i] ^= 1
                elif xi or zi:
                    X[i] ^= b; Z[i] ^= b

    def cx(self, a, t):
        A, B = 1 << a, 1 << t
        for X, Z, S in self._rows():
            for i in range(self.n):
                xa, za, xt, zt = X[i] & A, Z[i] & A, X[i] & B, Z[i] & B
                if xa and zt and (bool(xt) == bool(za)):
                    S[i] ^= 1
                if xa:
                    X[i] ^= B
                if zt:
                    Z[i] ^= A

    def cz(self, a, t):
        self.h(t); self.cx(a, t); self.h(t)

    def s_gate(self, q):
        b = 1 << q
        for X, Z, S in self._rows():
            for i in range(self.n):
                if X[i] & b:
                    if Z[i] & b:
                        S[i] ^= 1
                    Z[i] ^= b

    def pauli(self, px, pz, cond=1):
        """apply the Pauli (up to phase) when the affine form cond is 1"""
        for X, Z, S in self._rows():
            for i in range(self.n):
                if (bin(X[i] & pz).count("1") + bin(Z[i] & px).count("1")) & 1:
                    S[i] ^= cond

    # --- row algebra ------------------------------------------------------
    @staticmethod
    def _mul(x1, z1, s1, x2, z2, s2):
        """product of two commuting-or-not Pauli rows as i^k; returns row with sign (phase must come out real)"""
        # represent row as (-1)^s * prod_j  W(xj,zj), W(1,1)=Y ; phase of W(a)W(b) per qubit
        # exponent of i:
        X, Z = x1 ^ x2, z1 ^ z2
        # per-qubit: Y=iXZ. count using XZ-form: W(x,z) = i^{xz} X^x Z^z
        e = bin(x1 & z1).count("1") + bin(x2 & z2).count("1") - bin(X & Z).count("1") + 2 * bin(z1 & x2).count("1")
        e %= 4
        return X, Z, s1 ^ s2 ^ (1 if e == 2 else 0), e

    def measure_pauli(self, px, pz, ps=0):
        """measure the Pauli (-1)^ps P; returns the affine form of the outcome bit (0 for +1)"""
        n = self.n
        p = None
        for i in range(n):
            if (bin(self.x[i] & pz).count("1") + bin(self.z[i] & px).count("1")) & 1:
                p = i
                break
        if p is None:
            return self.expect(px, pz) ^ ps
        xp, zp, sp = self.x[p], self.z[p], self.s[p]
        for X, Z, S in self._rows():
            for i in range(n):
                if X is self.x and i == p:
                    continue
                if (bin(X[i] & pz).count("1") + bin(Z[i] & px).count("1")) & 1:
                    X[i], Z[i], S[i], _ = self._mul(X[i], Z[i], S[i], xp, zp, sp)
        self.dx[p], self.dz[p], self.ds[p] = xp, zp, sp
        m = self.fresh()
        self.x[p], self.z[p], self.s[p] = px, pz, m ^ ps
        return m

    def expect(self, px, pz):
        """sign (affine form) with which P is in the stabilizer group; None if it is not"""
        n = self.n
        X = Z = S = 0
        for i in range(n):
            if (bin(self.x[i] & pz).count("1") + bin(self.z[i] & px).count("1")) & 1:
                return None
        for i in range(n):
            if (bin(self.dx[i] & pz).count("1") + bin(self.dz[i] & px).count("1")) & 1:
                X, Z, S, _ = self._mul(X, Z, S, self.x[i], self.z[i], self.s[i])
        if (X, Z) != (px, pz):
            return None
        return S

    def measure(self, q):
        return self.measure_pauli(0, 1 << q)

    def reset(self, q):
        m = self.measure(q)
        self.pauli(1 << q, 0, m)
        return m


class UnsupportedOp(Exception):
    pass


def run_circuit(tab, circ, qmap, cbits, start=0, skip_cond_multibit=False):
    """apply circ.data[start:] to the tableau. qmap: Qubit -> tableau index (extended with |0> for new qubits);
    cbits: Clbit -> affine form (0 when never written)."""
    for inst in circ.data[start:]:
        op = inst.operation
        name = op.name
        for q in inst.qubits:
            if q not in qmap:
                qmap[q] = tab.add_qubit()
        qs = [qmap[q] for q in inst.qubits]
        cond = 1
        c = getattr(op, "condition", None)
        if c is not None:
            reg, val = c
            try:
                bits = list(reg)
            except TypeError:
                bits = [reg]
            if len(bits) != 1:
                raise UnsupportedOp("condition on %d bits" % len(bits))
            form = cbits.get(bits[0], 0)
            cond = form if int(val) == 1 else (form ^ 1 if int(val) == 0 else 0)
        if name in ("barrier", "id"):
            continue
        if name == "x": tab.pauli(1 << qs[0], 0, cond)
        elif name == "z": tab.pauli(0, 1 << qs[0], cond)
        elif name == "y": tab.pauli(1 << qs[0], 1 << qs[0], cond)
        elif cond == 0:
            continue
        elif cond != 1:
            raise UnsupportedOp("conditioned " + name)
        elif name == "h": tab.h(qs[0])
        elif name == "s": tab.s_gate(qs[0])
        elif name == "sdg":
            tab.s_gate(qs[0]); tab.pauli(0, 1 << qs[0])
        elif name == "cx": tab.cx(qs[0], qs[1])
        elif name == "cz": tab.cz(qs[0], qs[1])
        elif name == "swap":
            tab.cx(qs[0], qs[1]); tab.cx(qs[1], qs[0]); tab.cx(qs[0], qs[1])
        elif name == "reset": tab.reset(qs[0])
        elif name == "measure":
            cbits[inst.clbits[0]] = tab.measure(qs[0])
        else:
            raise UnsupportedOp(name)
