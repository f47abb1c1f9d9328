"""Reference Krylov bases."""
import numpy as np

from vlib.harness import Skip


def stable(M, v0, basis, exhausted):
    """Whether rounding errors of the three-term recurrence stay harmless."""
    scale = max(np.linalg.norm(M, 2), 1.0)
    old, b = np.zeros(len(v0)), 0.0
    new = v0 / np.linalg.norm(v0)
    for k, q in enumerate(basis):
        # overlaps of the vectors are multiplied by the norm of the matrix
        if np.linalg.norm(new - q) > min(1e-12 * scale + 1e-10, 1e-6 / scale):
            return False
        w = M @ new
        w = w - np.vdot(new, w) * new - b * old
        b = np.linalg.norm(w)
        if k < len(basis) - 1:
            old, new = new, w / b
    return not exhausted or b < 1e-6


def reference(M, v0, limit, given=None):
    """Orthonormal Krylov basis by Gram-Schmidt, and whether it was exhausted.
    `given` is the matrix used by others, which might have another origin."""
    given = M if given is None else given
    Q = [v0 / np.linalg.norm(v0)]
    scale = max(np.linalg.norm(M, 2), 1e-300)
    rest = []
    while True:
        w = M @ Q[-1]
        for _ in range(3):
            for q in Q:
                w = w - np.vdot(q, w) * q
        norm = np.linalg.norm(w)
        rest.append(norm)
        if norm <= 1e-9 * max(1, scale):
            if not stable(given, v0, Q, True):
                raise Skip("badly conditioned Krylov space")
            return np.array(Q).T, True, rest
        if norm < max(0.02 * scale, 1e-2):
            raise Skip("badly conditioned Krylov space")
        if len(Q) == limit:
            if not stable(given, v0, Q, False):
                raise Skip("badly conditioned Krylov space")
            return np.array(Q).T, False, rest
        Q.append(w / norm)
