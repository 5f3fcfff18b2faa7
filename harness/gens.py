# -*- coding: utf-8 -*-
""" inputs for the sessions: exact lattice geometry, used to stay within the domain - not to decide anything """
import math


def cross(o, a, b):
    return (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0])


def sgn(x):
    return (x > 0) - (x < 0)


def onseg(a, b, p):
    return cross(a, b, p) == 0 and min(a[0], b[0]) <= p[0] <= max(a[0], b[0]) and min(a[1], b[1]) <= p[1] <= max(a[1], b[1])


def meet(a, b, c, d):
    if onseg(a, b, c) or onseg(a, b, d) or onseg(c, d, a) or onseg(c, d, b):
        return True
    return sgn(cross(a, b, c)) * sgn(cross(a, b, d)) < 0 and sgn(cross(c, d, a)) * sgn(cross(c, d, b)) < 0


def simple(v):
    n = len(v)
    if n < 3 or len(set(map(tuple, v))) != n:
        return False
    for i in range(n):
        a, b = v[i], v[(i + 1) % n]
        for j in range(i + 1, n):
            c, d = v[j], v[(j + 1) % n]
            if j == i + 1 or (i == 0 and j == n - 1):
                if n == 3:
                    if cross(v[0], v[1], v[2]) == 0:
                        return False
                    continue
                if j == i + 1:
                    if onseg(a, b, d) or onseg(c, d, a):
                        return False
                elif onseg(a, b, c) or onseg(c, d, b):
                    return False
            elif meet(a, b, c, d):
                return False
    return True


def side(v, p):
    n = len(v)
    odd = False
    for i in range(n):
        a, b = v[i], v[(i + 1) % n]
        if onseg(a, b, p):
            return 0
        if (a[1] > p[1]) != (b[1] > p[1]) and (cross(a, b, p) > 0) == (b[1] > a[1]):
            odd = not odd
    return 1 if odd else -1


def grow(R, n, span):
    """ simple polygon: a triangle, then points put in the edges """
    while True:
        v = [[R.randint(0, span), R.randint(0, span)] for _ in range(3)]
        if simple(v):
            break
    for _ in range(40 * n):
        if len(v) >= n:
            break
        i = R.randint(0, len(v) - 1)
        p = [R.randint(0, span), R.randint(0, span)]
        w = v[:i + 1] + [p] + v[i + 1:]
        if simple(w):
            v = w
    return v


def rectilinear(R, cells, span, keep):
    """ outline of a union of unit squares without holes; keep: share of the points kept where it goes straight on """
    while True:
        s = {(R.randint(0, span), R.randint(0, span))}
        for _ in range(cells - 1):
            x, y = R.choice(sorted(s))
            dx, dy = R.choice([(1, 0), (-1, 0), (0, 1), (0, -1)])
            if 0 <= x + dx <= span and 0 <= y + dy <= span:
                s.add((x + dx, y + dy))
        nx = {}
        ok = True
        for x, y in s:
            for a, b, o in (((x, y), (x + 1, y), (x, y - 1)), ((x + 1, y), (x + 1, y + 1), (x + 1, y)),
                            ((x + 1, y + 1), (x, y + 1), (x, y + 1)), ((x, y + 1), (x, y), (x - 1, y))):
                if o not in s:
                    if a in nx:
                        ok = False
                    nx[a] = b
        if not ok:
            continue
        start = min(nx)
        v = [start]
        while nx[v[-1]] != start:
            v.append(nx[v[-1]])
        if len(v) != len(nx):
            continue
        n = len(v)
        w = [list(v[i]) for i in range(n) if cross(v[i - 1], v[i], v[(i + 1) % n]) != 0 or R.random() < keep]
        return w


def polygon(R, n, span):
    k = R.random()
    if k < .65:
        v = grow(R, n, span)
    else:
        v = rectilinear(R, R.randint(2, max(3, n)), max(2, min(span, 6)), R.choice([0, .5, 1]))
    if R.random() < .5:
        v = v[::-1]
    i = R.randint(0, len(v) - 1)
    return v[i:] + v[:i]


def chain(R, n, span, closed=False, free=False):
    """ open chain; free: may cross itself """
    for _ in range(1000):
        v = []
        while len(v) < n:
            p = [R.randint(0, span), R.randint(0, span)]
            if not v or p != v[-1]:
                v.append(p)
        if free:
            return v
        ok = len(set(map(tuple, v))) == n
        for i in range(n - 1):
            for j in range(i + 1, n - 1):
                if j == i + 1:
                    ok = ok and not onseg(v[i], v[i + 1], v[j + 1]) and not onseg(v[j], v[j + 1], v[i])
                elif meet(v[i], v[i + 1], v[j], v[j + 1]):
                    ok = False
            if not ok:
                break
        if ok:
            return v
    return [[0, 0], [1, 0], [1, 1]][:max(2, n)]
