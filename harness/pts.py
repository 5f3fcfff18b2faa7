# -*- coding: utf-8 -*-
""" points: drives the machine of spec/Pts.tla on the real Point, with segments and a polyline between the points """
from common import *


class Pool(object):
    def __init__(self, op, sc):
        self.sc = sc
        self.h = [sc.pt(p) for p in op['h']]
        self.s = [LineSegment(self.h[i - 1], self.h[j - 1]) for i, j in op['s']]

    def do(self, op):
        p = self.h[op['a'] - 1]
        if op['k'] == 'set':
            p._set_coords(coords=self.sc.xy((op['x'], op['y'])))
        elif op['k'] == 'empty':
            p._empty()
        elif op['k'] == 'half':
            p._set_coords(coords=(1., None) if op['b'] == 1 else (None, 1.))

    def view(self):
        return [self.sc.latp(p) if p.isvalid else [] for p in self.h]


def run(ops, unit, base, R, qrate=1.):
    sc = Scale(unit)
    P = None
    steps = []
    # lattice coordinates with an offset: close points far from the origin
    shift = lambda p: [p[0] + base, p[1] + base]
    for n, op in enumerate(ops):
        op = dict(op)
        if op['k'] == 'new':
            op['h'] = [shift(p) for p in op['h']]
            op['thr'] = max(1, int(round(1e-5 / unit)))
        elif op['k'] == 'set':
            op['x'], op['y'] = op['x'] + base, op['y'] + base
        ev = dict(op=op, ok=True, obs=[], q=[])
        try:
            with limit(60):
                if op['k'] == 'new':
                    P = Pool(op, sc)
                else:
                    P.do(op)
                ev['obs'] = P.view()
        except ERR as e:
            ev['ok'] = False
            ev['raw'] = note(e)
        if ev['ok']:
            q = ev['q']
            valid = [bool(x) for x in ev['obs']]
            for a in range(1, len(P.h) + 1):
                p = P.h[a - 1]
                q.append(ask('valid', lambda: strict_bool(p.isvalid), a=a))
                q.append(ask('isempty', lambda: strict_bool(p._isempty()), a=a))
                if valid[a - 1]:
                    def text():
                        if R.random() < .5:
                            return [strict_bool(str(p) == repr(p)), sc.latp(build(repr(p)))]
                        return [strict_bool(str(p) == repr(p)), sc.latp(build(str(p)))]
                    q.append(ask('text', text, a=a))
                    q.append(ask('bbox', lambda: [[sc.lat(v) for v in c] for c in p.bounding_box()], a=a))
                for b in range(1, len(P.h) + 1):
                    o = P.h[b - 1]
                    q.append(ask('eq', lambda: strict_bool(p == o), a=a, b=b))
                    q.append(ask('ne', lambda: strict_bool(p != o), a=a, b=b))
                    if valid[a - 1] and valid[b - 1]:
                        def dist2(d):
                            n = int(round((d / unit) ** 2))
                            return n if abs((d / unit) ** 2 - n) < 1e-4 + 1e-9 * n else sc.lat(d * d, 2)
                        q.append(ask('hash', lambda: hash(p) == hash(o), a=a, b=b))
                        q.append(ask('dist2', lambda: dist2(R.choice([p.distance, lambda x: SR_point.distance(p, x)])(o)), a=a, b=b))
                        q.append(ask('plus', lambda: sc.latp(p + o), a=a, b=b))
                        q.append(ask('minus', lambda: sc.latp(p - o), a=a, b=b))
            for k, s in enumerate(P.s):
                q.append(ask('segvalid', lambda: strict_bool(s.isvalid), a=k + 1))
                i, j = ops[0]['s'][k]
                if valid[i - 1] and valid[j - 1]:
                    q.append(ask('segtext', lambda: [sc.latp(x) for x in build(R.choice([str, repr])(s)).ij], a=k + 1))
                    q.append(ask('null', lambda: strict_bool(s.isnull()), a=k + 1))
                for l, t in enumerate(P.s):
                    q.append(ask('segeq', lambda: strict_bool(s == t), a=k + 1, b=l + 1))
                    q.append(ask('segne', lambda: strict_bool(s != t), a=k + 1, b=l + 1))
        steps.append(ev)
    return dict(unit=unit, steps=steps)


def sessions(args, R):
    for b in args.get('behaviours', []):
        # the behaviours are written for a tolerance of ten steps
        yield run(b, 1e-6, R.choice([0, 0, -7, 1000000, -12345678, 499999990]), R)
    for _ in range(args.get('random', 0)):
        unit = R.choice([1e-6, 1e-6, 1e-4, .01, .1, 1, 10])
        n = R.randint(2, 4)
        span = 25 if unit == 1e-6 else R.choice([2, 100, 5000])
        avoid = 10 if unit == 1e-6 else 0
        co = lambda: [R.randint(0, span) * (1 if not avoid else 1), R.randint(0, span)]
        ops = [dict(k='new', h=[co() for _ in range(n)], s=[[i, i + 1] for i in range(1, n)] + [R.sample(range(1, n + 1), 2) for _ in range(R.choice([0, 1, 2]))])]
        for _ in range(R.randint(0, args.get('nops', 4))):
            if R.random() < .3:
                ops.append(R.choice([dict(k='empty', a=R.randint(1, n)), dict(k='half', a=R.randint(1, n), b=R.randint(1, 2))]))
            else:
                p = co()
                ops.append(dict(k='set', a=R.randint(1, n), x=p[0], y=p[1]))
        yield run(ops, unit, 0 if unit != 1e-6 else R.choice([0, -12, 3000000, -20000000]), R)
