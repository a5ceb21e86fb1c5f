"""Independent statement of the rotated-lattice geometry (the specification side; nothing is read from /repo)."""


def counts(h, w):
    return ((h + 1) // 2) * (w - 1), ((w + 1) // 2) * (h - 1)


def x_cell(h, w, k):
    """(R, L): plaquette between rows R-1,R and columns L,L+1"""
    per = (w - 1) // 2
    R, o = divmod(k, per)
    return R, 2 * o + R % 2


def z_cell(h, w, k):
    """(R, L): plaquette between rows R-1,R and columns L,L+1"""
    per = (w + 1) // 2
    R, o = divmod(k, per)
    return R + 1, 2 * o - R % 2


def cell(h, w, t, k):
    return x_cell(h, w, k) if t == "X" else z_cell(h, w, k)


def corners(h, w, t, k):
    """[top_l, top_r, bot_l, bot_r] as data indices, None outside the lattice"""
    R, L = cell(h, w, t, k)
    out = []
    for r, c in ((R - 1, L), (R - 1, L + 1), (R, L), (R, L + 1)):
        out.append(r * w + c if 0 <= r < h and 0 <= c < w else None)
    return out


def centre(h, w, t, k):
    R, L = cell(h, w, t, k)
    return (R - 0.5, L + 0.5)


def check_pauli(code, h, w, t, k):
    """(xmask, zmask) over data indices"""
    cs = corners(h, w, t, k)
    x = z = 0
    for pos, q in enumerate(cs):
        if q is None:
            continue
        if code == "XXZZ":
            kind = t
        else:
            kind = "X" if pos in (0, 3) else "Z"
        if kind == "X":
            x |= 1 << q
        else:
            z |= 1 << q
    return x, z


def checks(code, h, w):
    nx, nz = counts(h, w)
    return [("Z", k) + check_pauli(code, h, w, "Z", k) for k in range(nz)] + \
           [("X", k) + check_pauli(code, h, w, "X", k) for k in range(nx)]


def logical(code, h, w, t):
    qs = range(0, h * w, w) if t == "X" else range(w)
    x = z = 0
    for q in qs:
        if code == "XXZZ":
            kind = t
        elif t == "X":
            kind = "X" if q % 2 == 1 else "Z"
        else:
            kind = "X" if q % 2 == 0 else "Z"
        if kind == "X":
            x |= 1 << q
        else:
            z |= 1 << q
    return x, z


def commute(a, b):
    return (bin(a[0] & b[1]).count("1") + bin(a[1] & b[0]).count("1")) % 2 == 0


def sizes(maxd, one=True):
    return [(h, w) for h in range(1, maxd + 1, 2) for w in range(1, maxd + 1, 2) if (h, w) != (1, 1)]
