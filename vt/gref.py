"""Reference semantics of circuits: explicit matrices per gate (written from the OpenQASM
definitions / gate docstrings, not from the implementation) applied to a state tensor."""
import cmath, math
import numpy as np

PI = math.pi


def _f(p):
    return float(p) * PI


def rot(axis, t):
    c, s = math.cos(t / 2), math.sin(t / 2)
    if axis == 'x':
        return np.array([[c, -1j * s], [-1j * s, c]])
    if axis == 'y':
        return np.array([[c, -s], [s, c]], dtype=complex)
    return np.array([[cmath.exp(-1j * t / 2), 0], [0, cmath.exp(1j * t / 2)]])


def P(t):
    return np.array([[1, 0], [0, cmath.exp(1j * t)]])


HM = np.array([[1, 1], [1, -1]], dtype=complex) / math.sqrt(2)
XM = np.array([[0, 1], [1, 0]], dtype=complex)
YM = np.array([[0, -1j], [1j, 0]], dtype=complex)
ZM = np.diag([1, -1]).astype(complex)


def u3(t, p, l):
    return np.array([[math.cos(t / 2), -cmath.exp(1j * l) * math.sin(t / 2)],
                     [cmath.exp(1j * p) * math.sin(t / 2), cmath.exp(1j * (p + l)) * math.cos(t / 2)]])


def ctrl(u):
    n = u.shape[0]
    m = np.eye(2 * n, dtype=complex)
    m[n:, n:] = u
    return m


SWAPM = np.array([[1, 0, 0, 0], [0, 0, 1, 0], [0, 1, 0, 0], [0, 0, 0, 1]], dtype=complex)
SXM = 0.5 * np.array([[1 + 1j, 1 - 1j], [1 - 1j, 1 + 1j]])


def parity(n, t):
    d = np.ones(2 ** n, dtype=complex)
    for i in range(2 ** n):
        if bin(i).count('1') % 2:
            d[i] = cmath.exp(1j * t)
    return np.diag(d)


# spec: class name -> function(gate) -> (matrix, qubits)   (qubits in matrix order, first = most significant)
def gate_matrix(g):
    n = type(g).__name__
    adj = bool(getattr(g, 'adjoint', False))
    T = getattr(g, 'target', None)
    C = getattr(g, 'control', None)
    if n in ('ZPhase',):
        return P(_f(g.phase)), (T,)
    if n == 'Z':
        return ZM, (T,)
    if n == 'S':
        return P(-PI / 2 if adj else PI / 2), (T,)
    if n == 'T':
        return P(-PI / 4 if adj else PI / 4), (T,)
    if n == 'XPhase':
        return HM @ P(_f(g.phase)) @ HM, (T,)
    if n == 'NOT':
        return XM, (T,)
    if n == 'SX':
        return (SXM.conj().T if adj else SXM), (T,)
    if n == 'YPhase':
        return rot('y', _f(g.phase)), (T,)
    if n == 'Y':
        return YM, (T,)
    if n == 'HAD':
        return HM, (T,)
    if n == 'CNOT':
        return ctrl(XM), (C, T)
    if n == 'CY':
        return ctrl(YM), (C, T)
    if n == 'CZ':
        return ctrl(ZM), (C, T)
    if n == 'CHAD':
        return ctrl(HM), (C, T)
    if n == 'CSX':
        return ctrl(SXM.conj().T if adj else SXM), (C, T)
    if n == 'XCX':
        hh = np.kron(HM, np.eye(2))
        return hh @ ctrl(XM) @ hh, (C, T)
    if n == 'SWAP':
        return SWAPM, (C, T)
    if n == 'CRX':
        return ctrl(rot('x', _f(g.phase))), (C, T)
    if n == 'CRY':
        return ctrl(rot('y', _f(g.phase))), (C, T)
    if n == 'CRZ':
        return ctrl(rot('z', _f(g.phase))), (C, T)
    if n == 'CPhase':
        return ctrl(P(_f(g.phase))), (C, T)
    if n == 'RXX':
        t = _f(g.phase)
        return math.cos(t / 2) * np.eye(4) - 1j * math.sin(t / 2) * np.kron(XM, XM), (C, T)
    if n == 'RZZ':
        return parity(2, _f(g.phase)), tuple(g.targets)
    if n == 'ParityPhase':
        return parity(len(g.targets), _f(g.phase)), tuple(g.targets)
    if n == 'CCZ':
        return ctrl(ctrl(ZM)), (g.ctrl1, g.ctrl2, T)
    if n == 'Tofolli':
        return ctrl(ctrl(XM)), (g.ctrl1, g.ctrl2, T)
    if n == 'CSWAP':
        return ctrl(SWAPM), (g.ctrl1, g.ctrl2, T)
    if n == 'U2':
        return u3(PI / 2, _f(g.theta), _f(g.phi)), (T,)
    if n == 'U3':
        return u3(_f(g.theta), _f(g.phi), _f(g.rho)), (T,)
    if n == 'CU3':
        return ctrl(u3(_f(g.theta), _f(g.phi), _f(g.rho))), (C, T)
    if n == 'CU':
        return ctrl(cmath.exp(1j * _f(g.gamma)) * u3(_f(g.theta), _f(g.phi), _f(g.rho))), (C, T)
    if n == 'FSim':
        return fsim(_f(g.theta), _f(g.phi)), (C, T)
    raise KeyError(n)


def fsim(theta, phi):
    c, s = math.cos(theta), math.sin(theta)
    return np.array([[1, 0, 0, 0], [0, c, -1j * s, 0], [0, -1j * s, c, 0], [0, 0, 0, cmath.exp(-1j * phi)]])


def apply(t, m, qs):
    """Apply matrix m on axes qs of tensor t (axes = qubits first)."""
    k = len(qs)
    m = m.reshape((2,) * (2 * k))
    t = np.tensordot(m, t, axes=(list(range(k, 2 * k)), list(qs)))
    return np.moveaxis(t, list(range(k)), list(qs))


def unitary(gates, n):
    """2^n x 2^n unitary of a list of gates, qubit 0 most significant."""
    t = np.eye(2 ** n, dtype=complex).reshape((2,) * n + (2 ** n,))
    for g in gates:
        m, qs = gate_matrix(g)
        t = apply(t, m, qs)
    return t.reshape(2 ** n, 2 ** n)


def circ(c):
    return unitary(c.gates, c.qubits)
