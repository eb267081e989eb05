"""Reference mathematics, written independently of stoqcompiler (numpy only)."""
import itertools
import numpy as np

X = np.array([[0, 1], [1, 0]], dtype=complex)
Y = np.array([[0, -1j], [1j, 0]], dtype=complex)
Z = np.array([[1, 0], [0, -1]], dtype=complex)
I2 = np.eye(2, dtype=complex)


def herm_exp(h, t):
    """exp(i h t) for Hermitian h by eigen-decomposition."""
    w, v = np.linalg.eigh((h + h.conj().T) / 2)
    return (v * np.exp(1j * w * t)) @ v.conj().T


def phase_diff(a, b):
    """max |a - c b| for the best phase c (|c| = 1); inf on shape mismatch."""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape or not (np.all(np.isfinite(a)) and np.all(np.isfinite(b))):
        return float("inf")
    z = np.vdot(b, a)
    if abs(z) < 1e-9:
        return float(np.max(np.abs(a - b)))
    return float(np.max(np.abs(a - (z / abs(z)) * b)))


def same(a, b, tol=1e-7):
    return phase_diff(a, b) <= tol


def embed(u, qubits, n):
    """Full operator of u on the listed qubits of n (qubit 0 most significant), by index arithmetic."""
    k = len(qubits)
    d = 2 ** n
    full = np.zeros((d, d), dtype=complex)
    rest = [q for q in range(n) if q not in qubits]

    def bit(i, q):
        return (i >> (n - 1 - q)) & 1
    for i in range(d):
        si = 0
        for q in qubits:
            si = 2 * si + bit(i, q)
        base = i
        for q in qubits:
            base &= ~(1 << (n - 1 - q))
        for sj in range(2 ** k):
            if u[si, sj] == 0:
                continue
            j = base
            for m, q in enumerate(qubits):
                if (sj >> (k - 1 - m)) & 1:
                    j |= 1 << (n - 1 - q)
            full[i, j] += u[si, sj]
    assert len(rest) == n - k
    return full


def distance(a, b):
    return 1.0 - abs(np.vdot(a, b)) / a.shape[0]


def haar(rs, d):
    z = (rs.standard_normal((d, d)) + 1j * rs.standard_normal((d, d))) / np.sqrt(2)
    q, r = np.linalg.qr(z)
    dd = np.diagonal(r)
    return q * (dd / np.abs(dd))


def rand_unitary(rs, d, kind):
    if kind == "haar":
        return haar(rs, d)
    if kind == "perm":
        return np.eye(d)[rs.permutation(d)]
    if kind == "permint":
        return np.eye(d, dtype=int)[rs.permutation(d)]
    if kind == "diag":
        return np.diag(np.exp(1j * rs.uniform(0, 2 * np.pi, d)))
    if kind == "real":
        q, r = np.linalg.qr(rs.standard_normal((d, d)))
        return q * np.sign(np.diagonal(r))
    if kind == "neg":
        return -np.eye(d)
    if kind == "phase":
        return np.exp(1j * rs.uniform(0, 2 * np.pi)) * np.eye(d)
    if kind == "near":
        h = rs.standard_normal((d, d)) + 1j * rs.standard_normal((d, d))
        return herm_exp((h + h.conj().T) / 2, 10.0 ** -rs.uniform(2, 10))
    if kind == "dft":
        j = np.arange(d)
        return np.exp(2j * np.pi * np.outer(j, j) / d) / np.sqrt(d)
    if kind == "monomial":
        return np.exp(1j * rs.uniform(0, 2 * np.pi, d))[:, None] * np.eye(d)[rs.permutation(d)]
    if kind == "tiny":
        # a rotation between two axes by an angle just above the clean-up cut-off
        m = np.eye(d, dtype=complex)
        if d > 1:
            i, j = rs.permutation(d)[:2]
            e = 10.0 ** -rs.uniform(5, 11)
            m[i, i] = m[j, j] = np.cos(e)
            m[i, j], m[j, i] = -np.sin(e), np.sin(e)
        return m
    raise ValueError(kind)


KINDS = ["haar", "haar", "perm", "permint", "diag", "real", "neg", "phase", "near", "dft", "monomial", "tiny"]


def rand_herm(rs, d, kind="full", scale=1.0):
    if kind == "full":
        h = rs.standard_normal((d, d)) + 1j * rs.standard_normal((d, d))
    elif kind == "real":
        h = rs.standard_normal((d, d))
    elif kind == "diag":
        h = np.diag(rs.standard_normal(d))
    elif kind == "rank1":
        v = rs.standard_normal(d) + 1j * rs.standard_normal(d)
        h = np.outer(v, v.conj()) * rs.choice([-1, 1])
    elif kind == "pauli":
        n = int(np.log2(d))
        h = np.eye(1)
        for _ in range(n):
            h = np.kron(h, [I2, X, Y, Z][rs.randint(4)])
    elif kind == "int":
        h = np.triu(rs.randint(-5, 6, (d, d)))
        return h + h.T + (0 if np.any(h) else np.eye(d, dtype=int))
    elif kind == "identity":
        h = np.eye(d) * rs.choice([-1, 1])
    else:
        raise ValueError(kind)
    return scale * (h + h.conj().T) / 2


HKINDS = ["full", "real", "diag", "rank1", "pauli", "int", "identity"]


def ordered_subsets(n, kmax):
    for k in range(1, kmax + 1):
        yield from itertools.permutations(range(n), k)
