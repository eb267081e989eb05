"""Specification functions, written in Python and evaluated by the same semantics as the code (module "vcspec")."""
SOURCE = '''
import numpy as np


def spec_qasm(name, params, inverse, listed, n):
    text = ""
    if len(params) > 0:
        text = "(" + ",".join([("pi*" + str(round(v[0] / np.pi, 7))) if v[1] else str(round(v[0], 7)) for k, v in params]) + ")"
    qubits = listed if len(listed) > 0 else list(range(n))
    return name + text + "\\t" + ",".join(["q[" + str(q) + "]" for q in qubits]) + ";"


def spec_jaqal(name, params, inverse, listed, n):
    qubits = listed if len(listed) > 0 else list(range(n))
    text = ""
    if len(params) > 0:
        text = " ".join([str(round(v[0], 7)) for k, v in params])
    return name + " " + " ".join(["q[" + str(q) + "]" for q in qubits]) + " " + text


def spec_max_beta(dimension):
    return (2**dimension) ** 2


def spec_display(name, params, inverse, listed, n):
    text = name
    if len(listed) > 0:
        text += str(listed)
    if len(params) > 0:
        text += "(" + ", ".join([k + "=" + ((str(round(v[0] / np.pi, 3)) + "\\u03c0") if v[1] else str(round(v[0], 4))) for k, v in params]) + ")"
    if inverse:
        text += "\\u2020"
    return text


def euler(angle, pauli):
    # exp(-i angle pauli) for a matrix whose square is the identity
    return np.cos(angle) * np.identity(pauli.shape[0]) - 1j * np.sin(angle) * pauli


def pauli_x():
    return np.array([[0, 1], [1, 0]])


def pauli_y():
    return np.array([[0, -1j], [1j, 0]])


def pauli_z():
    return np.array([[1, 0], [0, -1]])


def gate_rx(theta):
    return euler(theta / 2, pauli_x())


def gate_ry(theta):
    return euler(theta / 2, pauli_y())


def gate_rz(theta):
    return euler(theta / 2, pauli_z())


def gate_rphi(theta, phi):
    return euler(theta / 2, np.cos(phi) * pauli_x() + np.sin(phi) * pauli_y())


def gate_xx(theta):
    return euler(theta, np.kron(pauli_x(), pauli_x()))


def gate_xyz(alpha, beta, gamma):
    return gate_rz(alpha) @ gate_ry(beta) @ gate_rz(gamma)


def gate_h():
    return np.array([[1, 1], [1, -1]]) / np.sqrt(2)


def gate_t():
    return np.array([[1, 0], [0, np.exp(1j * np.pi / 4)]])


def gate_cnot():
    return np.array([[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 0, 1], [0, 0, 1, 0]])


def gate_ccnot():
    return np.array([[1, 0, 0, 0, 0, 0, 0, 0], [0, 1, 0, 0, 0, 0, 0, 0], [0, 0, 1, 0, 0, 0, 0, 0], [0, 0, 0, 1, 0, 0, 0, 0],
                     [0, 0, 0, 0, 1, 0, 0, 0], [0, 0, 0, 0, 0, 1, 0, 0], [0, 0, 0, 0, 0, 0, 0, 1], [0, 0, 0, 0, 0, 0, 1, 0]])


def gate_qecc():
    return np.array([[1, 1, 1, 1, 1, 1, 1, 1], [1, -1, -1, 1, -1, 1, 1, -1], [1, 1, -1, -1, 1, 1, -1, -1], [1, -1, 1, -1, -1, 1, -1, 1],
                     [1, 1, 1, 1, -1, -1, -1, -1], [1, -1, -1, 1, 1, -1, -1, 1], [1, -1, 1, -1, 1, -1, 1, -1], [1, 1, -1, -1, -1, -1, 1, 1]]) / np.sqrt(8)


def spec_good_lists(lists, dim):
    distinct = np.all([len(q) == len(set(q)) for q in lists])
    fitting = np.all([2**len(q) == dim for q in lists])
    if not (distinct and fitting):
        return False
    return all([min(q) >= 0 for q in lists])
'''


def install(world):
    import ast
    g = {"__name__": "vcspec"}
    world.modules["vcspec"] = g
    for st in ast.parse(SOURCE).body:
        world.module_stmt(st, "vcspec", False, g)
