# -*- coding: utf-8 -*-
"""Shared by all harness modules.  Runs the real code of /repo (PyPy venv) and records what it did.

Coordinates: the specification works on lattice integers; a session has a `unit`, the code gets lattice * unit.
Observed floats are converted back here; whatever is not (nearly) a lattice value is reported as it is, and the
specification rejects it.
"""
import sys, os, io, json, random, math, contextlib, itertools, copy, signal
from fractions import Fraction
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.dont_write_bytecode = True
sys.path.insert(0, REPO)
with contextlib.redirect_stdout(io.StringIO()):
    import geometry
    from geometry import SR_point, SR_line, SR_polygon, SR_polygon_group
    from SR_Vessel import SR_hauptteile

Point = SR_point.Point
LineSegment = SR_line.LineSegment
PolygonLine = SR_polygon.PolygonLine


def build(text):
    """ what the printed form of an object makes """
    return eval(text, dict(Point=Point, LineSegment=LineSegment, PolygonLine=PolygonLine))


class NotLattice(Exception):
    pass


class Hang(BaseException):
    pass


def _alarm(*_):
    raise Hang('no answer within the time limit')


signal.signal(signal.SIGALRM, _alarm)


@contextlib.contextmanager
def limit(seconds):
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


HANGS = [0]
ERR = (Exception, Hang)


def note(e):
    """ text of what was raised; counts the calls that did not return in time """
    if isinstance(e, Hang):
        HANGS[0] += 1
    return '%s: %s' % (type(e).__name__, str(e)[:200])


class Scale(object):
    def __init__(self, unit):
        self.unit = unit

    def tol(self, v):
        return 3e-7 + 1e-11 * abs(v)

    def real(self, n):
        """ lattice to real, the way a user would write it: a short decimal """
        return float(repr(round(n * self.unit, 10)))

    def xy(self, p):
        return self.real(p[0]), self.real(p[1])

    def pt(self, p):
        return Point(self.xy(p))

    def lat(self, v, power=1):
        u = self.unit ** power
        if not isinstance(v, (int, float)) or v != v or v in (float('inf'), float('-inf')):
            raise NotLattice(repr(v))
        n = int(round(v / u))
        t = self.tol(v) if power == 1 else 1e-6 * u + 1e-9 * abs(v)
        if abs(v - n * u) > t or abs(n) > 2 ** 30:
            raise NotLattice('%r is not a multiple of %r' % (v, u))
        return n

    def latp(self, p):
        if not isinstance(p, Point):
            raise NotLattice('not a point: %r' % (p,))
        return [self.lat(p.x), self.lat(p.y)]

    def rat(self, v, maxden=1000):
        """ real to rational lattice value [n, d]; [0, 0] if there is none near enough """
        q = v / self.unit
        f = Fraction(q).limit_denominator(maxden)
        if abs(float(f) - q) * self.unit > self.tol(v):
            return [0, 0]
        return [f.numerator, f.denominator]

    def ratp(self, p, maxden=1000):
        if not isinstance(p, Point):
            raise NotLattice('not a point: %r' % (p,))
        return [self.rat(p.x, maxden), self.rat(p.y, maxden)]


def strict_bool(x):
    if x is True or x is False:
        return x
    raise NotLattice('not a bool: %r' % (x,))


def ask(k, fn, **kw):
    """ one query: the answer, or that there was none """
    q = dict(k=k)
    q.update(kw)
    try:
        with limit(60):
            q['r'] = fn()
        q['ok'] = True
    except ERR as e:
        q['ok'] = False
        q['r'] = note(e)
    return q


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield
