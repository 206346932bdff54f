"""Independent reference formulas (plain numpy, no hexrd)."""
import numpy as np


def qmul(p, q):
    """Hamilton product p*q of (4,) or (4,n): R(p*q) = R(p) R(q)."""
    p = np.asarray(p, float); q = np.asarray(q, float)
    a, v = p[0], p[1:]
    b, w = q[0], q[1:]
    s = a * b - (v * w).sum(0)
    u = a * w + b * v + np.cross(v, w, axis=0)
    return np.concatenate([s[None], u]) if np.ndim(s) else np.r_[s, u]


def qconj(q):
    q = np.array(q, float)
    q[1:] *= -1
    return q


def q2r(q):
    """(4,) -> (3,3) via v' = v + 2 q0 (u x v) + 2 u x (u x v)."""
    q = np.asarray(q, float)
    q = q / np.linalg.norm(q)
    K = skew(q[1:])
    return np.eye(3) + 2 * q[0] * K + 2 * K @ K


def skew(v):
    return np.array([[0, -v[2], v[1]], [v[2], 0, -v[0]], [-v[1], v[0], 0.0]])


def e2r(e):
    """Exponential map (3,) -> rotation matrix, Rodrigues."""
    e = np.asarray(e, float)
    t = np.linalg.norm(e)
    if t < 1e-300:
        return np.eye(3)
    return aa2r(t, e)


def aa2r(angle, ax):
    ax = np.asarray(ax, float)
    ax = ax / np.linalg.norm(ax)
    K = skew(ax)
    return np.eye(3) + np.sin(angle) * K + (1 - np.cos(angle)) * (K @ K)


def rangle(R):
    """Rotation angle of a matrix, accurate near 0 and pi."""
    s = np.linalg.norm([R[2, 1] - R[1, 2], R[0, 2] - R[2, 0], R[1, 0] - R[0, 1]]) / 2
    return np.arctan2(s, (np.trace(R) - 1) / 2)


def axis_rot(i, a):
    return aa2r(a, np.eye(3)[i])


def euler(angles, order, extrinsic):
    Rs = [axis_rot('xyz'.index(c), a) for c, a in zip(order, angles)]
    if extrinsic:
        return Rs[2] @ Rs[1] @ Rs[0]
    return Rs[0] @ Rs[1] @ Rs[2]


def unit(v, axis=-1):
    v = np.asarray(v, float)
    return v / np.linalg.norm(v, axis=axis, keepdims=True)


def rmat_group(gens, maxn=100):
    """Close a set of rotation matrices under products."""
    G = [np.eye(3)]
    frontier = list(G)
    while frontier:
        new = []
        for a in frontier:
            for g in gens:
                c = a @ g
                if not any(np.allclose(c, h, atol=1e-6) for h in G):
                    G.append(c); new.append(c)
                    assert len(G) <= maxn
        frontier = new
    return G


_z = np.array([0, 0, 1.0])
LAUE_GENS = {  # Schoenflies of the proper subgroup, generated independently (Nye, appendix B)
    'ci': [], 's2': [],
    'c2h': [aa2r(np.pi, [0, 1, 0])],
    'd2h': [aa2r(np.pi, [1, 0, 0]), aa2r(np.pi, [0, 1, 0])],
    'vh': [aa2r(np.pi, [1, 0, 0]), aa2r(np.pi, [0, 1, 0])],
    'c4h': [aa2r(np.pi / 2, _z)],
    'd4h': [aa2r(np.pi / 2, _z), aa2r(np.pi, [1, 0, 0])],
    'c3i': [aa2r(2 * np.pi / 3, _z)], 's6': [aa2r(2 * np.pi / 3, _z)],
    'd3d': [aa2r(2 * np.pi / 3, _z), aa2r(np.pi, [1, 0, 0])],
    'c6h': [aa2r(np.pi / 3, _z)],
    'd6h': [aa2r(np.pi / 3, _z), aa2r(np.pi, [1, 0, 0])],
    'th': [aa2r(np.pi, [1, 0, 0]), aa2r(np.pi, [0, 1, 0]), aa2r(2 * np.pi / 3, [1, 1, 1])],
    'oh': [aa2r(np.pi / 2, [1, 0, 0]), aa2r(np.pi / 2, [0, 1, 0])],
}
LAUE_ORDER = dict(ci=1, s2=1, c2h=2, d2h=4, vh=4, c4h=4, d4h=8, c3i=3, s6=3, d3d=6, c6h=6, d6h=12, th=12, oh=24)
LAUE_TAGS = sorted(LAUE_GENS)
_groups = {}


def laue_group(tag):
    if tag not in _groups:
        _groups[tag] = rmat_group(LAUE_GENS[tag])
        assert len(_groups[tag]) == LAUE_ORDER[tag]
    return _groups[tag]
