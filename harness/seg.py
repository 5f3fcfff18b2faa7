# -*- coding: utf-8 -*-
""" points and line segments: drives the machine of spec/Seg.tla on the real LineSegment """
from common import *

UNITS = [1, 1, .5, .25, .1, .1, .3, .05, .7, 10, 100]


class Pool(object):
    """ real counterpart of the state of Seg.tla """

    def __init__(self, op, sc):
        self.sc = sc
        self.h = [sc.pt(p) for p in op['h']]
        self.s = [LineSegment(self.h[i - 1], self.h[j - 1]) for i, j in op['s']]

    def do(self, op):
        sc, k = self.sc, op['k']
        if k == 'move':
            self.s[op['a'] - 1].move(x0=sc.real(op['x']), y0=sc.real(op['y']))
        elif k == 'mirror':
            self.s[op['a'] - 1].mirror_vertical(x0=sc.real(op['x']))
        elif k == 'reverse':
            self.s[op['a'] - 1].reverse()
        elif k == 'setpt':
            self.h[op['a'] - 1]._set_coords(coords=sc.xy((op['x'], op['y'])))
        elif k == 'setends':
            self.s[op['a'] - 1]._set_endpoints((self.h[op['x'] - 1], self.h[op['y'] - 1]))
        elif k == 'look':
            pass
        else:
            raise ValueError(k)

    def view(self):
        return [self.sc.latp(s.i) + self.sc.latp(s.j) for s in self.s]


def cp(sc, r, maxden):
    if r is None:
        return dict(kind='none')
    if isinstance(r, LineSegment):
        return dict(kind='S', i=sc.ratp(r.i, maxden), j=sc.ratp(r.j, maxden))
    return dict(kind='P', p=sc.ratp(r, maxden))


def polar(deg, length, sc, power):
    # the arcus cosine of the code is good for some 1e-7 only next to 0 and 180 degrees
    def near(v):
        n = int(round(v / sc.unit ** power))
        return n if abs(v / sc.unit ** power - n) < 1e-4 + 1e-6 * length / sc.unit ** power else sc.lat(v, power)
    return [near(length * math.cos(math.radians(deg))), near(abs(length * math.sin(math.radians(deg))))]


def refused(f):
    try:
        return [f()]
    except AssertionError:
        return []


def pair_queries(P, a, b, groups, maxden):
    sc = P.sc
    l, m = P.s[a - 1], P.s[b - 1]
    A = dict(a=a, b=b)
    out = []
    if 'common' in groups:
        out += [
            ask('common', lambda: cp(sc, l.common_part(m), maxden), **A),
            ask('cptype', lambda: str(l.common_part_type(m)), **A),
            ask('overlap', lambda: cp(sc, l.overlap(m)[1], maxden), **A),
            ask('meet', lambda: cp(sc, l.intersection_point(m), maxden), **A)]
    if 'rel' in groups:
        out += [
            ask('onseg', lambda: strict_bool(l.intersection_on_segment(m)), **A),
            ask('onend', lambda: strict_bool(l.intersection_on_endpoint(m)), **A),
            ask('parallel', lambda: strict_bool(l.is_parallel(m)), **A),
            ask('isinter', lambda: strict_bool(l.is_intersecting(m)), **A),
            ask('collin', lambda: strict_bool(l.is_collinear(m)), **A),
            ask('opposite', lambda: strict_bool(l.opposite_direction(m)), **A),
            ask('touch', lambda: strict_bool(l.touch(m)), **A),
            ask('cont', lambda: strict_bool(l.continuous(m)), **A),
            ask('eq', lambda: strict_bool(l == m), **A),
            ask('ne', lambda: strict_bool(l != m), **A),
            ask('hash', lambda: hash(l) == hash(m), **A),
            ask('looseeq', lambda: strict_bool(l.loose_equal(m)), **A)]
    if 'num' in groups:
        out += [
            ask('crossp', lambda: sc.lat(l.crossproduct(m), 2), **A),
            ask('cpstart', lambda: [sc.lat(l.crossproduct_commonstart(m), 2)] if l.i == m.i else refused(lambda: l.crossproduct_commonstart(m)), **A),
            ask('dotp', lambda: sc.lat(l.dotproduct(m), 2), **A),
            ask('angle', lambda: polar(l.angle_between_lines(m), l.norm * m.norm, sc, 2), **A)]
    return out


def one_queries(P, a, groups):
    sc, l = P.sc, P.s[a - 1]
    out = []
    if 'one' in groups:
        def direc():
            d = math.radians(l.direction)
            return [sc.lat(l.norm * math.cos(d)), sc.lat(l.norm * math.sin(d))]
        out += [
            ask('norm2', lambda: sc.lat(l.norm ** 2, 2), a=a),
            ask('vector', lambda: [sc.lat(l.delta_x), sc.lat(l.delta_y)], a=a),
            ask('vector', lambda: [sc.lat(x) for x in l.as_vector], a=a),
            ask('unit', lambda: [sc.lat(x * l.norm) for x in l.unitvector], a=a),
            ask('dir', direc, a=a),
            ask('dirrange', lambda: 0 <= l.direction < 360, a=a),
            ask('isnull', lambda: strict_bool(l.isnull()), a=a),
            ask('segvalid', lambda: strict_bool(l.isvalid), a=a),
            ask('bbox', lambda: [[sc.lat(y) for y in x] for x in l.bounding_box], a=a),
            ask('reversed', lambda: sc.latp(l.line_reversed.i) + sc.latp(l.line_reversed.j), a=a)]
    return out


def pt_queries(P, a, p, groups):
    sc, l = P.sc, P.s[a - 1]
    out = []
    A = dict(a=a, p=list(p))
    if 'pt' in groups:
        q = lambda: sc.pt(p)
        out += [
            ask('online', lambda: strict_bool(l.is_point_on_line(q())), **A),
            ask('inbox', lambda: strict_bool(l.is_internal_point(q())), **A),
            ask('onboth', lambda: l.is_internal_point(p=q()) and l.is_point_on_line(p=q()), **A),
            ask('left', lambda: strict_bool(l.is_point_to_left(q())), **A),
            ask('right', lambda: strict_bool(l.is_point_to_right(q())), **A),
            ask('dist', lambda: sc.lat(l.line_point_distance(q()) * l.norm, 2), **A)]
        if q() != l.i and sc.unit > .002:
            out.append(ask('anglept', lambda: polar(l.angle_from_start_point(q()), l.norm * q().distance(l.i), sc, 2), **A))
    return out


def cut_queries(P, a, R, groups):
    sc, l = P.sc, P.s[a - 1]
    out = []
    if 'cut' in groups:
        n = R.choice([1, 2, 3, 4, 5, 7, 8, 10, 12])
        out.append(ask('divide', lambda: [[sc.ratp(s.i), sc.ratp(s.j)] for s in SR_line.divide_line(l, n)], a=a, n=n))
        d = R.choice([1, 2, 3, 4, 5, 8, 10])
        k = R.randint(0, d)
        out.append(ask('ratio', lambda: sc.ratp(SR_line.point_on_line_at_ratio(l, k / d)), a=a, n=k, d=d))
        # a lattice point on the line
        i, j = sc.latp(l.i), sc.latp(l.j)
        g = math.gcd(j[0] - i[0], j[1] - i[1])
        if g:
            k = R.randint(-2, g + 2)
            p = [i[0] + (j[0] - i[0]) // g * k, i[1] + (j[1] - i[1]) // g * k]

            def addpt():
                r = SR_line.add_point_on_line(l, sc.pt(p))
                return [] if r is False else [sc.latp(s.i) + sc.latp(s.j) for s in r]
            out.append(ask('addpt', addpt, a=a, p=p))
    return out


def run(ops, unit, R, groups, maxden, npts=3, span=4, qrate=1.):
    """ one session: the ops carried out on the real objects, with queries after each """
    sc = Scale(unit)
    P = None
    steps = []
    for op in ops:
        ev = dict(op=op, ok=True, obs=[], q=[])
        try:
            with limit(60):
                if op['k'] == 'new':
                    P = Pool(op, sc)
                else:
                    P.do(op)
                ev['obs'] = P.view()
        except ERR as e:
            ev['ok'] = False
            ev['raw'] = note(e)
        if ev['ok'] and (op is ops[-1] or R.random() < qrate):
            n = len(P.s)
            null = [s.i == s.j for s in P.s]
            for a in range(1, n + 1):
                if null[a - 1]:
                    continue
                ev['q'] += one_queries(P, a, groups)
                for b in range(1, n + 1):
                    if not null[b - 1] and (a != b or R.random() < .1):
                        ev['q'] += pair_queries(P, a, b, groups, maxden)
                if 'pt' in groups:
                    i, j = sc.latp(P.s[a - 1].i), sc.latp(P.s[a - 1].j)
                    g = math.gcd(j[0] - i[0], j[1] - i[1])
                    cand = [i, j] + [[i[0] + R.randint(-span, span), i[1] + R.randint(-span, span)] for _ in range(npts)]
                    m = [(i[0] + j[0]) // 2, (i[1] + j[1]) // 2]
                    cand.append([m[0] + R.randint(-1, 1), m[1] + R.randint(-1, 1)])
                    cand.append([j[0] + R.randint(-1, 1), j[1] + R.randint(-1, 1)])
                    for _ in range(2):
                        k = R.randint(-1, g + 1)
                        cand.append([i[0] + (j[0] - i[0]) // g * k, i[1] + (j[1] - i[1]) // g * k])
                    for p in cand:
                        if 0 < abs((j[0] - i[0]) * (p[1] - i[1]) - (j[1] - i[1]) * (p[0] - i[0])) * unit * unit < 3e-5:
                            continue          # within the tolerance of the code
                        ev['q'] += pt_queries(P, a, p, groups)
                ev['q'] += cut_queries(P, a, R, groups)
            # a query must not change anything
            try:
                if P.view() != ev['obs']:
                    ev['q'].append(dict(k='pure', ok=False, r='state changed by a query'))
            except ERR as e:
                ev['q'].append(dict(k='pure', ok=False, r=note(e)))
        steps.append(ev)
        if not ev['ok']:
            break
    return dict(unit=unit, steps=steps)


def rand_pts(R, n, span, off):
    return [[R.randint(0, span) + off[0], R.randint(0, span) + off[1]] for _ in range(n)]


def rand_session(R, span, nops, nsegs=2, flat=0, fine=False):
    unit = R.choice(UNITS)
    if fine and R.random() < .2:              # small details of long segments
        return flat_session(R, 4 * flat, nops, nsegs, .001) if R.random() < .5 else (rand_session(R, 2 * flat, nops, nsegs)[0], .001)
    if flat and R.random() < .25:
        return flat_session(R, flat, nops, nsegs, unit)
    if R.random() < .2:
        return line_session(R, span, nops, nsegs, unit)
    big = int(800 / unit) if unit < 1 else 1500
    off = R.choice([(0, 0), (0, 0), (-span, -span // 2), (R.randint(-big, big), R.randint(-big, big))])
    while True:
        h = rand_pts(R, 2 * nsegs, span, off)
        s = [[2 * k + 1, 2 * k + 2] for k in range(nsegs)]
        if R.random() < .3 and nsegs > 1:
            s[1][0] = s[0][1]      # shared end point object
        elif R.random() < .2:
            h[2] = list(h[R.choice([0, 1])])   # coincident end points
        if all(h[i - 1] != h[j - 1] for i, j in s):
            break
    ops = [dict(k='new', h=h, s=s)]
    for _ in range(nops):
        k = R.choice(['move', 'move', 'mirror', 'reverse', 'setpt', 'setends'])
        a = R.randint(1, nsegs)
        if k == 'move':
            ops.append(dict(k=k, a=a, x=R.randint(-span, span), y=R.randint(-span, span)))
        elif k == 'mirror':
            ops.append(dict(k=k, a=a, x=off[0] + R.randint(-3, span)))
        elif k == 'reverse':
            ops.append(dict(k=k, a=a))
        elif k == 'setpt':
            p = rand_pts(R, 1, span, off)[0]
            ops.append(dict(k=k, a=R.randint(1, 2 * nsegs), x=p[0], y=p[1]))
        else:
            x, y = R.sample(range(1, 2 * nsegs + 1), 2)
            ops.append(dict(k=k, a=a, x=x, y=y))
    return ops, unit


def line_session(R, span, nops, nsegs, unit):
    """ segments on one line, or on two parallel ones: everything from apart to equal """
    d = R.choice([(1, 0), (0, 1), (1, 1), (1, -1), (2, 1), (-1, 2), (R.randint(1, span), R.randint(-span, span))])
    o = R.choice([(0, 0), (R.randint(-9, 9), R.randint(-9, 9)), (-3 * d[0], -3 * d[1])])
    side = R.choice([0, 0, 0, 1])

    def pt():
        k, w = R.randint(0, R.choice([7, 7, 25])), R.randint(0, side)
        return [o[0] + k * d[0] - w * d[1], o[1] + k * d[1] + w * d[0]]
    while True:
        h = [pt() for _ in range(2 * nsegs)]
        if all(h[2 * k] != h[2 * k + 1] for k in range(nsegs)):
            break
    ops = [dict(k='new', h=h, s=[[2 * k + 1, 2 * k + 2] for k in range(nsegs)])]
    for _ in range(nops):
        k, a, f = R.choice(['move', 'move', 'reverse', 'setpt']), R.randint(1, nsegs), R.randint(-3, 3)
        p = pt()
        ops.append(dict(k=k, a=a, x=f * d[0], y=f * d[1]) if k == 'move' else dict(k=k, a=a) if k == 'reverse' else
                   dict(k=k, a=R.randint(1, 2 * nsegs), x=p[0], y=p[1]))
    return ops, unit


def flat_session(R, length, nops, nsegs, unit):
    """ long segments, hardly inclined or hardly off the vertical """
    tall = R.random() < .4
    length = R.choice([length // 8, length // 2, length])

    def pt():
        p = [R.randint(0, length), R.randint(0, 3)]
        return p[::-1] if tall else p
    while True:
        h = [pt() for _ in range(2 * nsegs)]
        if all(h[2 * k] != h[2 * k + 1] for k in range(nsegs)):
            break
    ops = [dict(k='new', h=h, s=[[2 * k + 1, 2 * k + 2] for k in range(nsegs)])]
    for _ in range(nops):
        k, a = R.choice(['move', 'mirror', 'reverse', 'setpt']), R.randint(1, nsegs)
        p = pt()
        ops.append(dict(k=k, a=a, x=p[0], y=p[1]) if k == 'move' else dict(k=k, a=a, x=p[0]) if k == 'mirror' else
                   dict(k=k, a=a) if k == 'reverse' else dict(k=k, a=R.randint(1, 2 * nsegs), x=p[0], y=p[1]))
    return ops, unit


def sessions(args, R):
    groups = set(args['groups'])
    for i, b in enumerate(args.get('behaviours', [])):
        yield run(b, R.choice(UNITS), R, groups, args.get('maxden', 200), qrate=args.get('qrate', 1.))
    n = args.get('random', 0)
    for _ in range(n):
        span = R.choice(args.get('spans', [2, 3, 4, 6, 9]))
        ops, unit = rand_session(R, span, R.randint(0, args.get('nops', 0)), R.choice(args.get('nsegs', [2])), args.get('flat', 0), args.get('fine', False))
        yield run(ops, unit, R, groups, max(50, 2 * span * span + 1, 10 * args.get('flat', 0)), span=span,
                  qrate=args.get('qrate', 1.))
