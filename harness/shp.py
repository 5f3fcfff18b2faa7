# -*- coding: utf-8 -*-
""" triangles and builders of outlines: drives the machine of spec/Shp.tla on the real code """
import contextlib, io
from common import *
import gens
from seg import polar
from geometry.additional_stuff import sphere_line_intersection
from geometry.SR_polygon import (Triangle, convex_hull, polygon_from_nodes, square, arc, rotationsmatrix, segments_from_pointset)

UNITS = [1, 1, .5, .25, .1, .1, .3, .05, .7, .01, 10, 100]


def true(x):
    """ these answer with True or nothing """
    if x in (True, False, None):
        return x is True
    raise NotLattice(repr(x))


class Pool(object):
    def __init__(self, op, sc, R):
        self.sc = sc
        self.t = []
        for t in op['t']:
            p = [sc.pt(x) for x in t]
            s = [LineSegment(p[0], p[1]), LineSegment(p[1], p[2]), LineSegment(p[2], p[0])]
            if R.random() < .5:               # any sequence and direction makes a triangle
                R.shuffle(s)
                s = [LineSegment(x.j, x.i) if R.random() < .5 else x for x in s]
            self.t.append(Triangle(s))

    def do(self, op):
        sc, t = self.sc, self.t[op['a'] - 1]
        if op['k'] == 'move':
            t.move(x0=sc.real(op['x']), y0=sc.real(op['y']))
        elif op['k'] == 'mirror':
            t.mirror_vertical(x0=sc.real(op['x']))
        elif op['k'] == 'rotxy':
            t.rotate_about_xy(x0=sc.real(op['x']), y0=sc.real(op['y']), phi=math.degrees(math.atan2(op['s'], op['c'])))
        elif op['k'] == 'setpt':
            p = [x for x in t.point_set if sc.latp(x) == list(op['p'])]
            assert len(p) == 1
            ids = {id(y) for s in t.segments for y in s.ij if sc.latp(y) == list(op['p'])}
            if ids != {id(p[0])}:
                raise NotLattice('corner is not one point')
            p[0]._set_coords(coords=sc.xy(op['w']))

    def view(self):
        return [sorted(self.sc.latp(p) for p in t.point_set) for t in self.t]


def queries(P, R, groups):
    sc, out = P.sc, []
    if R.random() < .3:
        o, d = [R.randint(-40, 40), R.randint(-40, 40)], (R.randint(-9, 9), R.randint(0, 9))
        f = [[o[0] + k * d[0], o[1] + k * d[1]] for k in R.sample(range(-5, 6), 3)]          # on a line, or nearly
        f[R.randint(0, 2)][1] += R.choice([0, 0, 0, 1])

        def accepted():
            x = [sc.pt(p) for p in f]
            try:
                t = Triangle([LineSegment(x[0], x[1]), LineSegment(x[1], x[2]), LineSegment(x[2], x[0])])
            except Exception:
                return False
            return t.area > 0
        out.append(ask('accepted', lambda: bool(accepted()), t=f))
    n = len(P.t)
    for a in range(1, n + 1):
        t = P.t[a - 1]
        out.append(ask('tarea2', lambda: sc.lat(2 * R.choice([t.area] + list(t.detailled_area.values())), 2), a=a))
        out.append(ask('istri', lambda: strict_bool(t.is_triangle), a=a))
        c = sorted(sc.latp(p) for p in t.point_set)

        def angles():
            with quiet():
                ang = t.angles
            r = []
            for x in ang:
                row = []
                for i in range(3):
                    p, q, s = c[i], c[(i + 1) % 3], c[(i + 2) % 3]
                    w = math.hypot(p[0] - q[0], p[1] - q[1]) * math.hypot(p[0] - s[0], p[1] - s[1]) * sc.unit ** 2
                    try:
                        row.append(polar(x, w, sc, 2))
                    except NotLattice:
                        row.append([])
                r.append(row)
            return r

        def quality():
            with quiet():
                return [[int(round(x * 1e6)) for x in t.angles], int(round(t.quality * 1e6))]
        out.append(ask('angles', angles, a=a))
        out.append(ask('quality', quality, a=a))
        for b in range(1, n + 1):
            if a != b:
                o = P.t[b - 1]
                A = dict(a=a, b=b)
                out += [ask('overlap', lambda: true(t.overlap(o)), **A),
                        ask('congruent', lambda: true(t.congruent(o)), **A),
                        ask('enclosed', lambda: true(t.enclosed(o)), **A),
                        ask('ttouch', lambda: true(t.touch(o)), **A),
                        ask('tdisj', lambda: true(t.disjunct(o)), **A)]

                def relpos():
                    with contextlib.redirect_stdout(io.StringIO()) as f:
                        t.tell_relpos(o)
                    l = [x.split(': ') for x in f.getvalue().splitlines()]
                    if any(x[1:] != ['True'] for x in l):
                        raise NotLattice(l)
                    return [x[0] for x in l]
                if R.random() < .5:
                    out.append(ask('relpos', relpos, **A))
    return out


def run(ops, unit, off, R, groups):
    sc = Scale(unit)
    P, steps = None, []
    for op in ops:
        op = json.loads(json.dumps(op))
        f = lambda p: [p[0] + off[0], p[1] + off[1]]
        if op['k'] == 'new':
            op['t'] = [[f(p) for p in t] for t in op['t']]
        elif op['k'] == 'mirror':
            op['x'] += off[0]
        elif op['k'] == 'rotxy':
            op['x'], op['y'] = f((op['x'], op['y']))
        elif op['k'] == 'setpt':
            op['p'], op['w'] = f(op['p']), f(op['w'])
        ev = dict(op=op, ok=True, obs=[], q=[])
        try:
            with limit(60):
                if op['k'] == 'new':
                    P = Pool(op, sc, R)
                else:
                    P.do(op)
                ev['obs'] = P.view()
        except ERR as e:
            ev['ok'], ev['raw'] = False, note(e)
        if ev['ok']:
            ev['q'] = queries(P, R, groups)
            try:
                if P.view() != ev['obs']:
                    ev['q'].append(dict(k='pure', ok=False, r='changed by a query'))
            except ERR as e:
                ev['q'].append(dict(k='pure', ok=False, r=note(e)))
        steps.append(ev)
        if not ev['ok'] or any(gens.cross(*t) == 0 for t in ev['obs'] if len(t) == 3) or any(len(t) != 3 for t in ev['obs']):
            break
    return dict(unit=unit, steps=steps)


def rand_tri(R, span):
    while True:
        t = [[R.randint(0, span), R.randint(0, span)] for _ in range(3)]
        if gens.cross(*t):
            return t


def tri_session(R, args):
    span = R.choice([2, 3, 4, 6, 10])
    ts = [rand_tri(R, span)]
    while len(ts) < R.choice([2, 2, 3]):
        t = rand_tri(R, span)
        k = R.random()
        o = R.choice(ts)
        if k < .25:                          # a common side
            i, j = R.sample(range(3), 2)
            t[0], t[1] = list(o[i]), list(o[j])
        elif k < .4:
            t[0] = list(R.choice(o))
        elif k < .5:
            t = [list(p) for p in o[::R.choice([1, -1])]]
        elif k < .6:                         # about the same place, smaller or bigger
            m = R.choice([2, 3])
            t = [[m * p[0] - R.randint(0, m), m * p[1] - R.randint(0, m)] for p in o]
        elif k < .7:                         # as big: turned about a corner, the middle of a side or its own centre
            c = R.choice(o)
            c = R.choice([[2 * c[0], 2 * c[1]], [o[0][0] + o[1][0], o[0][1] + o[1][1]]])
            if R.random() < .4:
                m = [sum(p[i] for p in o) for i in (0, 1)]
                o = [[3 * p[0], 3 * p[1]] for p in o]
                ts[:] = [[[3 * p[0], 3 * p[1]] for p in x] for x in ts]
                c = [2 * m[0], 2 * m[1]]
            t = [[c[0] - p[0], c[1] - p[1]] for p in o]
        if gens.cross(*t):
            ts.append(t)
    ops = [dict(k='new', t=ts)]
    for _ in range(R.randint(0, args.get('nops', 3))):
        a = R.randint(1, len(ts))
        k = R.choice(['move', 'mirror', 'rotxy'])
        if k == 'move':
            ops.append(dict(k=k, a=a, x=R.randint(-span, span), y=R.randint(-span, span)))
        elif k == 'mirror':
            ops.append(dict(k=k, a=a, x=R.randint(0, span)))
        else:
            c, s = R.choice([(0, 1), (-1, 0), (0, -1)])
            ops.append(dict(k=k, a=a, x=R.randint(0, span), y=R.randint(0, span), c=c, s=s, d=1))
    return ops


def offset(R, unit):
    big = min(int(900 / unit), 12000) if unit < 1 else 900
    return R.choice([(0, 0), (0, 0), (-5, -3), (-30, 4), (R.randint(-big, big), R.randint(-big, big))])


def single(R, unit, q):
    return dict(unit=unit, steps=[dict(op=dict(k='look'), ok=True, obs=[], q=q)])


def hull_session(R):
    unit = R.choice(UNITS)
    sc, off = Scale(unit), offset(R, unit)
    q = []
    for _ in range(6):
        span = R.choice([1, 2, 3, 5, 12, 40])
        pts = [[R.randint(0, span), R.randint(0, span)] for _ in range(R.randint(3, R.choice([4, 8, 25])))]
        if R.random() < .3:
            d = [[1, 0], [0, 1], [1, 1], [2, 1], [1, -2]][R.randint(0, 4)]
            p = R.choice(pts)
            pts += [[p[0] + k * d[0], p[1] + k * d[1]] for k in range(R.randint(1, 6))]
        pts += [list(R.choice(pts)) for _ in range(R.randint(0, 3))]
        R.shuffle(pts)
        if all(gens.cross(pts[0], a, b) == 0 for a in pts for b in pts):
            continue
        pts = [[p[0] + off[0], p[1] + off[1]] for p in pts]

        def hull():
            h = convex_hull([sc.xy(p) for p in pts])
            v = [sc.latp(s.i) + sc.latp(s.j) for s in h.segments]
            if any(v[k][2:] != v[(k + 1) % len(v)][:2] for k in range(len(v))) or not h.isvalid or not h.isclosed:
                raise NotLattice('not a closed line')
            return [s[:2] for s in v]
        q.append(ask('hull', hull, p=pts))
    return single(R, unit, q)


def build_session(R):
    unit = R.choice(UNITS)
    sc, off = Scale(unit), offset(R, unit)
    q = []
    for _ in range(3):
        n = R.randint(2, 8)
        p = gens.chain(R, n, R.choice([2, 5, 20]), free=True)
        p = [[x[0] + off[0], x[1] + off[1]] for x in p]
        cw = R.random() < .5
        if cw and p[0] == p[-1]:
            continue
        q.append(ask('nodes', lambda: [sc.latp(s.i) + sc.latp(s.j) for s in polygon_from_nodes([sc.xy(x) for x in p], cw=cw).segments], p=p, cw=cw))
    for _ in range(3):
        a, x, y, cw = R.randint(1, 20), R.randint(-9, 9) + off[0], R.randint(-9, 9) + off[1], R.random() < .5
        q.append(ask('square', lambda: [sc.latp(s.i) + sc.latp(s.j) for s in
                                        square(a=2 * sc.real(a), x0=sc.real(x), y0=sc.real(y), cw=cw).segments], a=a, x=x, y=y, cw=cw))
    for _ in range(3):
        step = R.choice([1, 2, 5, 7, 10, 15, 30, 45, 60, 90])
        a = R.choice([0, 0, 15, 30, 90, 135, 180, 270, R.randint(0, 300)])
        n = R.randint(1, max(1, min(12, (360 - a) // step)))
        if R.random() < .2 and 360 % step == 0:
            a, n = 0, 360 // step
        b = a + n * step
        if not (a < 360 and b <= 360 and n <= 40):
            continue
        r, x, y = R.randint(1, 400), R.randint(-9, 9) + off[0], R.randint(-9, 9) + off[1]
        P = R.choice([lambda: sc.pt((x, y)), lambda: list(sc.xy((x, y))), lambda: sc.xy((x, y))])
        A = dict(a=a, b=b, n=n, rad=r)

        def pts(pl):
            w = [s.i for s in pl.segments] + [pl.segments[-1].j]
            return [[int(round((p.x - sc.real(x)) / unit * 10000)), int(round((p.y - sc.real(y)) / unit * 10000))] for p in w]
        mk = lambda: arc(P=P(), r=sc.real(r), alpha_start=a, alpha_end=b, n=n)
        q.append(ask('arc', lambda: pts(mk()), **A))

        def shape():
            c = mk()
            return [bool(c.iscontinuous and c.isvalid), bool(c.isclosed)]
        if n > 2:
            q.append(ask('arcshape', shape, **A))
    for _ in range(2):                        # distinct points on a line
        d = R.choice([(1, 0), (0, 1), (1, 1), (2, -1), (-3, 5), (R.randint(-9, 9), R.randint(1, 9))])
        o = [R.randint(-9, 9) + off[0], R.randint(-9, 9) + off[1]]
        l = [[o[0] + k * d[0], o[1] + k * d[1]] for k in R.sample(range(R.choice([8, 30])), R.randint(2, 8))]
        q.append(ask('chain', lambda: [sc.latp(s.i) + sc.latp(s.j) for s in segments_from_pointset([sc.pt(x) for x in l])], p=l))
    for _ in range(2):
        d = R.randint(-720, 720)
        q.append(ask('rotm', lambda: [[int(round(v * 10000)) for v in row] for row in rotationsmatrix(d)], d=d))
    return single(R, unit, q)


def sphere_session(R):
    q = []
    for _ in range(8):
        co = lambda n: [R.randint(-n, n) for _ in range(3)]
        l, d, c, rad = co(9), co(3), co(9), R.randint(1, 12)
        if R.random() < .5:                   # tangents: the radius is the distance, pythagorean or along an axis
            d = R.choice([[1, 0, 0], [0, 0, 2], [0, -1, 0], [3, 4, 0], [0, 3, -4], [1, 2, 2]])
            f = {(1, 0, 0): [0, 3, 4], (0, 0, 2): [6, 8, 0], (0, -1, 0): [5, 0, 0], (3, 4, 0): [4, -3, 0], (0, 3, -4): [0, 4, 3], (1, 2, 2): [2, 1, -2]}[tuple(d)]
            k = R.randint(-2, 2)
            c = [l[i] + f[i] + k * d[i] for i in range(3)]
            rad = int(math.sqrt(sum(x * x for x in f))) + R.choice([0, 0, 1, -1])
        if not any(d):
            continue
        m = [l[i] + d[i] for i in range(3)]

        def inter():
            r = sphere_line_intersection(l, m, c, rad)
            assert len(r) == 2
            return [[int(round(100 * x)) for x in p] for p in r if p is not None]
        q.append(ask('sphere', inter, l=l, m=m, c=c, rad=rad))
    return single(R, 1, q)


def pdisj_session(R):
    """ two polygons: apart, touching, crossing, one inside the other """
    unit = R.choice(UNITS)
    sc, off = Scale(unit), offset(R, unit)
    q = []
    for _ in range(3):
        span = R.choice([3, 5, 8])
        v, w = gens.polygon(R, R.randint(3, 7), span), gens.polygon(R, R.randint(3, 7), span)
        k = R.random()
        if k < .4:
            d = (R.randint(-span, span), R.randint(-span, span))
            w = [[p[0] + d[0], p[1] + d[1]] for p in w]
        elif k < .6:
            w = [[3 * p[0] - span, 3 * p[1] - span] for p in w]
        elif k < .8:                         # mirrored on a vertical or horizontal line: they touch
            m = max(p[0] for p in v)
            w = [[2 * m - p[0], p[1]] for p in v][::-1]
        v, w = [[[p[0] + off[0], p[1] + off[1]] for p in x] for x in (v, w)]

        def build(V):
            """ polygon with these corners, perhaps brought there after it was triangulated """
            def line(x):
                pl = polygon_from_nodes([sc.xy(p) for p in x])
                pl.close()
                return pl
            how = R.choice(['plain', 'tri', 'tri', 'area', 'move', 'move', 'mirror', 'corner'])
            if how == 'corner':
                i = R.randint(0, len(V) - 1)
                for _ in range(10):
                    x = [list(p) for p in V]
                    x[i] = [x[i][0] + R.randint(-span, span), x[i][1] + R.randint(-span, span)]
                    if gens.simple(x):
                        break
                else:
                    x = V
            elif how == 'move':
                d = [R.randint(-2 * span, 2 * span), R.randint(-2 * span, 2 * span)]
                x = [[p[0] - d[0], p[1] - d[1]] for p in V]
            elif how == 'mirror':
                m = V[0][0] + R.randint(0, span)
                x = [[2 * m - p[0], p[1]] for p in V]
            else:
                x = V
            pl = line(x)
            if how == 'area' or (how != 'plain' and R.random() < .3):
                pl.area
            elif how != 'plain':
                pl.triangulate(force=R.random() < .5)
            if how == 'move':
                pl.move(x0=sc.real(d[0]), y0=sc.real(d[1]))
            elif how == 'mirror':
                pl.mirror_vertical(x0=sc.real(m))
            elif how == 'corner' and x is not V:
                pl.purge()
                c = {id(p): p for g in pl.segments for p in g.ij if sc.latp(p) == x[i]}
                for p in c.values():
                    p._set_coords(coords=sc.xy(V[i]))
            return pl

        def tiles(pl):
            pl.triangulate()
            return [[sc.latp(p) for p in t.point_set] for t in pl.triangles]
        A = dict(v=v, w=w, t=[], u=[])

        def dis():
            a, b = build(v), build(w)
            r = strict_bool(R.choice([lambda: a.disjunct(b), lambda: b.disjunct(a)])())
            A['t'], A['u'] = tiles(a), tiles(b)
            return r
        x = ask('pdisj', dis)
        x.update(A)
        q.append(x)
    return single(R, unit, q)


def sessions(args, R):
    groups = set(args['groups'])
    if 'tri' in groups:
        for b in args.get('behaviours', []):
            unit = R.choice(UNITS)
            yield run(b, unit, offset(R, unit), R, groups)
        for _ in range(args.get('random', 0)):
            unit = R.choice(UNITS)
            yield run(tri_session(R, args), unit, offset(R, unit), R, groups)
        for _ in range(args.get('random', 0) // 3):
            yield pdisj_session(R)
    if 'hull' in groups:
        for _ in range(args.get('random', 0)):
            yield hull_session(R)
    if 'build' in groups:
        for _ in range(args.get('random', 0)):
            yield build_session(R)
    if 'sphere' in groups:
        for _ in range(args.get('random', 0)):
            yield sphere_session(R)
