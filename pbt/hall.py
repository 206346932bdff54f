"""Symmetry operations from Hall symbols (S. R. Hall 1981; ITC B 1.4), written independently of hexrd's generator strings."""
import itertools
from fractions import Fraction as Fr

CENT = {'P': [], 'A': [(0, 6, 6)], 'B': [(6, 0, 6)], 'C': [(6, 6, 0)], 'I': [(6, 6, 6)], 'R': [(8, 4, 4), (4, 8, 8)],
        'F': [(0, 6, 6), (6, 0, 6), (6, 6, 0)]}
TR = {'a': (6, 0, 0), 'b': (0, 6, 0), 'c': (0, 0, 6), 'n': (6, 6, 6), 'u': (3, 0, 0), 'v': (0, 3, 0), 'w': (0, 0, 3), 'd': (3, 3, 3)}
ID = ((1, 0, 0), (0, 1, 0), (0, 0, 1))
RZ = {1: ID, 2: ((-1, 0, 0), (0, -1, 0), (0, 0, 1)), 3: ((0, -1, 0), (1, -1, 0), (0, 0, 1)), 4: ((0, -1, 0), (1, 0, 0), (0, 0, 1)),
      6: ((1, -1, 0), (1, 0, 0), (0, 0, 1))}
PR, DP = ((0, -1, 0), (-1, 0, 0), (0, 0, -1)), ((0, 1, 0), (1, 0, 0), (0, 0, -1))     # 2-folds a-b (') and a+b (")
ST = ((0, 0, 1), (1, 0, 0), (0, 1, 0))                                                # 3-fold a+b+c


def mul(A, B):
    return tuple(tuple(sum(A[i][k] * B[k][j] for k in range(3)) for j in range(3)) for i in range(3))


def cyc(R, n):           # permute axes cyclically: z -> x (n=1), z -> y (n=2)
    p = [(i + n) % 3 for i in range(3)]
    out = [[0] * 3 for _ in range(3)]
    for i in range(3):
        for j in range(3):
            out[p[i]][p[j]] = R[i][j]
    return tuple(map(tuple, out))


def ops(hall):
    s = hall.strip()
    shift = (0, 0, 0)
    if '(' in s:
        s, v = s.split('(')
        shift = tuple(int(x) for x in v.rstrip(')').split())
    parts = s.split()
    inv = parts[0].startswith('-')
    lat = parts[0].lstrip('-')
    gens = [(ID, t) for t in CENT[lat]]
    if inv:
        gens.append((tuple(tuple(-x for x in r) for r in ID), (0, 0, 0)))
    prev = None
    for k, p in enumerate(parts[1:]):
        neg = p.startswith('-')
        p = p.lstrip('-')
        n = int(p[0])
        rest = p[1:]
        ax = None
        if rest and rest[0] in 'xyz\'"*=':
            ax, rest = rest[0], rest[1:]
        if ax is None:
            if k == 0:
                ax = 'z'
            elif k == 1 and n == 2:
                ax = 'x' if prev in (2, 4) else "'"
            elif k == 2 and n == 3:
                ax = '*'
            else:
                ax = 'z'
        if n == 1:
            R = ID
        elif ax == 'z':
            R = RZ[n]
        elif ax == 'x':
            R = cyc(RZ[n], 1)
        elif ax == 'y':
            R = cyc(RZ[n], 2)
        elif ax == "'":
            R = PR
        elif ax in '"=':
            R = DP
        else:
            R = ST
        t = [0, 0, 0]
        for c in rest:
            if c.isdigit():
                t['xyz'.index(ax if ax in 'xyz' else 'z')] += 12 * int(c) // n
            else:
                t = [a + b for a, b in zip(t, TR[c])]
        if neg:
            R = tuple(tuple(-x for x in r) for r in R)
        gens.append((R, tuple(x % 12 for x in t)))
        prev = n
    G = {(ID, (0, 0, 0))}
    todo = list(G)
    while todo:
        R, t = todo.pop()
        for Rg, tg in gens:
            new = (mul(Rg, R), tuple((sum(Rg[i][k] * t[k] for k in range(3)) + tg[i]) % 12 for i in range(3)))
            if new not in G:
                G.add(new); todo.append(new)
        assert len(G) <= 192
    G = {(R, tuple((t[i] + shift[i] - sum(R[i][j] * shift[j] for j in range(3))) % 12 for i in range(3))) for R, t in G}
    return sorted(G)


def absent(G, h):
    """systematically absent: an operation maps h to itself with a non-integer phase (translations in twelfths)."""
    for R, t in G:
        if tuple(sum(h[i] * R[i][j] for i in range(3)) for j in range(3)) == tuple(h) and sum(a * b for a, b in zip(h, t)) % 12:
            return True
    return False
