"""P24: rotation matrices."""
import numpy as np

from HamiltonianPy import rotation3d as rot

from vlib import gen
from vlib.harness import Section

PID = "P24"
RULE = ("random and special axes (Cartesian in all containers and number types, spherical), angles over many turns in "
        "degrees and radians, with and without inversion, against Rodrigues' formula evaluated independently; all "
        "published constants; non-trivial when the angle is not a multiple of a full turn")
MUST = {"matrices": 3000, "short axes": 60, "constants": 28, "refusals observed": 60, "directions turned": 2000}


def rodrigues(axis, theta):
    n = np.asarray(axis, dtype=float)
    n = n / np.sqrt(np.sum(n * n))
    k = np.array([[0, -n[2], n[1]], [n[2], 0, -n[0]], [-n[1], n[0], 0]])
    return np.cos(theta) * np.eye(3) + np.sin(theta) * k + (1 - np.cos(theta)) * np.outer(n, n)


def angle(py):
    kind = py.randrange(5)
    if kind == 0:
        return py.choice([0, 30, 45, 60, 90, 120, 180, 240, 270, 300, 360, -90, -30, 720])
    if kind == 1:
        return py.uniform(-1000, 1000)
    if kind == 2:
        return py.uniform(-1e-3, 1e-3)
    if kind == 3:
        return np.float64(py.uniform(-360, 360))
    return py.randrange(-400, 400)


def judge(case, r, axis, degrees, inversion, mechanism):
    theta = float(degrees) * np.pi / 180
    r = np.asarray(r)
    sign = -1 if inversion else 1
    case.close(r, sign * rodrigues(axis, theta), mechanism, (axis, degrees, inversion), atol=1e-11)
    case.close(r @ r.T, np.eye(3), mechanism + "-orthogonal", atol=1e-12)
    case.close(np.linalg.det(r), sign, mechanism + "-determinant", atol=1e-12)
    n = np.asarray(axis, dtype=float)
    n = n / np.linalg.norm(n)
    case.close(r @ n, sign * n, mechanism + "-axis", atol=1e-11)
    # counter-clockwise for a vector perpendicular to the axis
    v = np.cross(n, case.rng.normal(size=3))
    if np.linalg.norm(v) > 0.1:
        w = sign * (r @ v)
        got = np.arctan2(np.dot(np.cross(v, w), n), np.dot(v, w))
        case.close(np.exp(1j * got), np.exp(1j * theta), mechanism + "-direction", atol=1e-9)
        case.obs("directions turned")
    case.obs("matrices")


def fixed_axes(case):
    py = case.py
    for name, axis in (("RotationX", (1, 0, 0)), ("RotationY", (0, 1, 0)), ("RotationZ", (0, 0, 1))):
        func = getattr(rot, name)
        for _ in range(3):
            a, b = angle(py), angle(py)
            inv = py.random() < 0.5
            case.note(name=name, a=a, b=b, inv=inv)
            r = func(a, deg=True, inversion=inv)
            judge(case, r, axis, a, inv, name)
            rad = func(a * np.pi / 180, inversion=inv) if py.random() < 0.5 else func(a * np.pi / 180, deg=False, inversion=inv)
            case.close(rad, r, name + "-units", a, atol=1e-12)
            case.close(func(a, deg=True) @ func(b, deg=True), func(a + b, deg=True), name + "-sum", (a, b), atol=1e-11)
            case.close(func(a, deg=True) @ func(-a, deg=True), np.eye(3), name + "-inverse", a, atol=1e-12)
            case.close(func(a), func(a, deg=False), name + "-default", atol=0, rtol=0)
            r[...] = 5
            judge(case, func(a, deg=True, inversion=inv), axis, a, inv, name + "-again")
            if a % 360:
                case.nontrivial(name, float(a))


def cartesian(py, rng):
    kind = py.randrange(6)
    if kind == 0:
        axis = py.choice([(1, 0, 0), (0, 1, 0), (0, 0, 1), (-1, 0, 0), (0, -1, 0), (0, 0, -1), (1, 1, 1), (1, -1, 0), (0, 2, -3)])
    elif kind == 1:
        top = py.choice([4, 4, 20, 128, 30000])
        axis = tuple(py.randrange(py.choice([0, 1 - top]), top) for _ in range(3))
    elif kind == 2:
        axis = tuple(rng.normal(size=3) * 10.0 ** py.randrange(-2, 4))
    elif kind == 3:
        # close to, but clearly off the z-axis
        e = 10.0 ** -py.randrange(1, 4)
        axis = (e * py.uniform(0.5, 1), -e * py.uniform(0.5, 1), py.choice([1.0, -1.0]))
    elif kind == 4:
        axis = tuple(float(x) for x in rng.uniform(-1, 1, size=3))
    else:
        axis = (0.0, 0.0, py.choice([-1, 1]) * py.uniform(0.01, 50))
    if not any(axis) or np.linalg.norm(axis) < 1e-3:
        axis = (1, 2, -2)
    if np.hypot(axis[0], axis[1]) < 1e-5:
        axis = (0, 0, axis[2])
    return axis


def general(case):
    py, rng = case.py, case.rng
    axis = cartesian(py, rng)
    a, b = angle(py), angle(py)
    inv = py.random() < 0.5
    case.note(axis=axis, a=a, b=b, inv=inv)
    given = py.choice([tuple, list, np.array, lambda a: gen.storage(py, a)])(axis)
    kept = np.array(axis)
    r = rot.RotationGeneral(given, a, deg=True, inversion=inv)
    judge(case, r, axis, a, inv, "general")
    case.check(np.array_equal(np.array(given), kept), "axis-modified", axis)
    case.close(rot.RotationGeneral(given, a * np.pi / 180, inversion=inv), r, "general-units", atol=1e-12)
    scale = py.choice([2, 0.5, 10, 7.25, 1e3])
    case.close(rot.RotationGeneral([x * scale for x in axis], a, deg=True, inversion=inv), r, "general-normalised", atol=1e-11)
    case.close(rot.RotationGeneral([-x for x in axis], -a, deg=True, inversion=inv), r, "general-opposite", atol=1e-11)
    # spherical notation
    x, y, z = (float(v) for v in axis)
    alpha = np.arctan2(y, x) * 180 / np.pi + py.choice([0, 360, -360])
    beta = np.arctan2(np.hypot(x, y), z) * 180 / np.pi
    spherical = py.choice([tuple, list, np.array])([alpha, beta])
    case.close(rot.RotationGeneral(spherical, a, deg=True, inversion=inv), r, "spherical", (alpha, beta), atol=1e-10)
    case.close(rot.RotationGeneral([alpha * np.pi / 180, beta * np.pi / 180], a * np.pi / 180, inversion=inv), r,
               "spherical-radians", (alpha, beta), atol=1e-10)
    # whole numbers of degrees, and of radians
    for whole_alpha, whole_beta, whole in ((py.randrange(-400, 400), py.randrange(0, 181), py.randrange(-400, 400)),
                                           (90 * py.randrange(-4, 5), 90 * py.randrange(0, 3), 30 * py.randrange(-12, 13))):
        for deg in (True, False):
            unit = np.pi / 180 if deg else 1.0
            line = (np.sin(whole_beta * unit) * np.cos(whole_alpha * unit), np.sin(whole_beta * unit) * np.sin(whole_alpha * unit),
                    np.cos(whole_beta * unit))
            form = py.choice([tuple, list, np.array, lambda v: np.array(v, dtype=np.int32), lambda v: tuple(np.int64(c) for c in v)])
            turn = py.choice([int, float, np.int64, np.float64])(whole)
            got = rot.RotationGeneral(form([whole_alpha, whole_beta]), turn, deg=deg, inversion=inv)
            case.close(got, rot.RotationGeneral(line, float(whole), deg=deg, inversion=inv), "spherical-whole", (whole_alpha, whole_beta, whole, deg), atol=1e-9)
            case.obs("whole spherical axes")
    case.close(rot.RotationGeneral(axis, a, deg=True) @ rot.RotationGeneral(axis, b, deg=True),
               rot.RotationGeneral(axis, a + b, deg=True), "general-sum", (a, b), atol=1e-10)
    case.close(rot.RotationGeneral((1, 0, 0), a, deg=True), rot.RotationX(a, deg=True), "general-x", atol=1e-12)
    case.close(rot.RotationGeneral((0, 1, 0), a, deg=True), rot.RotationY(a, deg=True), "general-y", atol=1e-12)
    case.close(rot.RotationGeneral((0, 0, 1), a, deg=True), rot.RotationZ(a, deg=True), "general-z", atol=1e-12)
    case.nontrivial(tuple(float(v) for v in axis), float(a))


def euler(case):
    py = case.py
    angles = [angle(py) for _ in range(3)]
    inv = py.random() < 0.5
    case.note(angles=angles, inv=inv)
    t = [float(a) * np.pi / 180 for a in angles]
    want = rodrigues((0, 0, 1), t[0]) @ rodrigues((0, 1, 0), t[1]) @ rodrigues((0, 0, 1), t[2])
    want = -want if inv else want
    r = rot.RotationEuler(*angles, deg=True, inversion=inv)
    case.close(r, want, "euler", angles, atol=1e-11)
    case.close(rot.RotationEuler(*t, inversion=inv), want, "euler-radians", angles, atol=1e-11)
    product = rot.RotationZ(angles[0], deg=True) @ rot.RotationY(angles[1], deg=True) @ rot.RotationZ(angles[2], deg=True)
    case.close(rot.RotationEuler(*angles, deg=True), product, "euler-product", angles, atol=1e-12)
    case.close(np.linalg.det(r), -1 if inv else 1, "euler-determinant", atol=1e-12)
    case.close(r @ r.T, np.eye(3), "euler-orthogonal", atol=1e-12)
    case.obs("matrices")
    case.nontrivial("euler", case.index)


def constants(case):
    """All published matrices, also after heavy use of the generators."""
    funcs = {"X": ((1, 0, 0), rot.RotationX), "Y": ((0, 1, 0), rot.RotationY), "Z": ((0, 0, 1), rot.RotationZ)}
    for letter, (axis, func) in funcs.items():
        for degrees in (30, 45, 60, 90, 180, 270):
            r = getattr(rot, "R{0}{1}".format(letter, degrees))
            judge(case, r, axis, degrees, False, "constant-R{0}{1}".format(letter, degrees))
            case.close(func(degrees, deg=True), r, "generated", (letter, degrees), atol=1e-12)
            case.obs("constants")
    for degrees in (60, 120, 180, 240, 300):
        r = getattr(rot, "R111_{0}".format(degrees))
        judge(case, r, (1, 1, 1), degrees, False, "constant-R111_{0}".format(degrees))
        case.close(rot.RotationGeneral((1, 1, 1), degrees, deg=True), r, "generated", ("111", degrees), atol=1e-12)
        case.obs("constants")
    case.close(rot.E, np.eye(3), "constant-E", atol=0)
    case.close(rot.INVERSION, -np.eye(3), "constant-INVERSION", atol=0)
    v = np.array([1.0, 2.0, 4.0])
    # anti-cyclic permutations: exchange of two coordinates
    case.close(rot.AP0 @ v, v[[0, 2, 1]], "constant-AP0", atol=0)
    case.close(rot.AP1 @ v, v[[2, 1, 0]], "constant-AP1", atol=0)
    case.close(rot.AP2 @ v, v[[1, 0, 2]], "constant-AP2", atol=0)
    case.obs("constants", 5)
    for name in ("AP0", "AP1", "AP2"):
        case.close(np.linalg.det(getattr(rot, name)), -1, "constant-determinant", name, atol=1e-12)
    for a in (17, 90, 200):
        for inv in (True, False):
            for m in (rot.RotationX(a, inversion=inv), rot.RotationEuler(a, 1, 2, inversion=inv),
                      rot.RotationGeneral((1, 2, 3), a, inversion=inv)):
                m *= 0
    case.close(rot.INVERSION, -np.eye(3), "constant-changed", atol=0)
    case.close(rot.E, np.eye(3), "constant-changed", atol=0)
    case.nontrivial("constants", case.index)


def refused(case):
    py = case.py
    a = angle(py)
    tiny = [py.uniform(-1, 1) * 5e-11 for _ in range(3)]
    for axis in ((0, 0, 0), [0.0, 0.0, 0.0], np.zeros(3), tuple(tiny), np.array(tiny)):
        case.raises(ValueError, lambda: rot.RotationGeneral(axis, a, deg=py.random() < 0.5), "zero-axis", axis)
    for axis in ((1.0,), (1, 2, 3, 4), [], np.ones(5)):
        case.raises((ValueError, AssertionError), lambda: rot.RotationGeneral(axis, a), "axis-length", axis)
    case.nontrivial("refused", case.index)


def threshold(case):
    """What counts as a zero vector is configurable, by position and by keyword; the default is 1e-10."""
    py = case.py
    limit = py.choice([1e-14, 1e-12, 1e-6, 1e-4, 1e-2, 0.5])
    unit = case.rng.normal(size=3)
    unit /= np.linalg.norm(unit)
    if np.hypot(unit[0], unit[1]) < 0.2:
        unit = unit[[2, 0, 1]]
    case.note(limit=limit, unit=unit)

    def probe(limit, tag):
        a = py.uniform(-360, 360)
        case.raises(ValueError, lambda: rot.RotationGeneral(list(unit * limit * 0.7), a), tag + "-zero", limit)
        # the part beside the z-axis is long enough, too
        r = rot.RotationGeneral(list(unit * limit * 20), a, deg=True)
        case.close(r, rodrigues(unit, a * np.pi / 180), tag + "-short", limit, atol=1e-9)
        case.obs("short axes")
    try:
        if py.random() < 0.5:
            rot.set_threshold(limit)
        else:
            rot.set_threshold(threshold=limit)
        probe(limit, "threshold")
    finally:
        rot.set_threshold(*py.choice([(), (1e-10,)]))
    probe(1e-10, "default-threshold")
    for bad in (-1e-3, "1", None):
        case.raises((AssertionError, TypeError, ValueError), lambda: rot.set_threshold(bad), "threshold", bad)
    probe(1e-10, "refused-threshold")
    case.nontrivial("threshold", limit, case.index)


SECTIONS = [
    Section("fixed_axes", fixed_axes, 150, 5000),
    Section("general", general, 500, 20000),
    Section("euler", euler, 300, 10000),
    Section("constants", constants, 1, 1, fixed=True),
    Section("refused", refused, 20, 200),
    Section("threshold", threshold, 40, 600),
]
