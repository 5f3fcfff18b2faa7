# -*- coding: utf-8 -*-
""" polylines: drives the machine of spec/Poly.tla on the real PolygonLine """
from common import *
import gens
from geometry.SR_polygon import (add, intersecting_lines, remove_outlier_segments, remove_collinear_points, simplify,
                                 walk_segments)

UNITS = [1, 1, .5, .25, .1, .1, .3, .05, .7, .01, 10, 100]
ROTS = [(0, 1, 1), (-1, 0, 1), (0, -1, 1), (1, 0, 1)]
PYTH = [(3, 4, 5), (4, 3, 5), (-3, 4, 5), (4, -3, 5), (-4, -3, 5), (5, 12, 13), (12, -5, 13)]


def from_view(sc, v):
    """ polyline with end points of its own for every segment """
    return PolygonLine([LineSegment(sc.pt(s[:2]), sc.pt(s[2:])) for s in v])


def angle(op):
    return math.degrees(math.atan2(op['s'], op['c']))


class Line(object):
    def __init__(self, op, sc):
        self.sc = sc
        h = [sc.pt(p) for p in op['h']]
        self.pl = PolygonLine([LineSegment(h[i - 1], h[j - 1]) for i, j in op['s']])

    def do(self, op):
        sc, k, pl = self.sc, op['k'], self.pl
        if k == 'move':
            pl.move(x0=sc.real(op['x']), y0=sc.real(op['y']))
        elif k == 'mirror':
            pl.mirror_vertical(x0=sc.real(op['x']))
        elif k == 'rot':
            pl.rotate_about_origin(phi=angle(op))
        elif k == 'rotxy':
            pl.rotate_about_xy(x0=sc.real(op['x']), y0=sc.real(op['y']), phi=angle(op))
        elif k == 'reverse':
            pl.segments[op['a'] - 1].reverse()
        elif k == 'setpt':
            pl.segments[op['a'] - 1].ij[op['e'] - 1]._set_coords(coords=sc.xy((op['x'], op['y'])))
        elif k in ('append', 'prepend'):
            p = sc.pt((op['x'], op['y'])) if op['a'] == 0 else pl.segments[op['a'] - 1].ij[op['e'] - 1]
            (pl.append_point_at_end if k == 'append' else pl.append_point_at_beginning)(p=p)
        elif k == 'close':
            pl.close()
        elif k == 'purge':
            pl.purge()
        elif k == 'order':
            return pl.order()
        elif k == 'look':
            pass
        else:
            raise ValueError(k)

    def view(self):
        return view(self.sc, self.pl)


def view(sc, pl):
    return [sc.latp(s.i) + sc.latp(s.j) for s in pl.segments]


def index(pl, seg):
    r = [i for i, s in enumerate(pl.segments) if s is seg]
    if len(r) != 1:
        raise NotLattice('not a segment of the polyline: %r' % (seg,))
    return r[0] + 1


def tri(sc, t):
    p = [sc.latp(x) for x in t.point_set]
    assert len(p) == 3
    return p


def ring(v):
    """ vertices if v is a closed simple polygon """
    n = len(v)
    if n < 3 or any(v[i][2:] != v[(i + 1) % n][:2] for i in range(n)):
        return None
    w = [s[:2] for s in v]
    return w if gens.simple(w) else None


def queries(L, v, R, groups, args):
    sc, pl = L.sc, L.pl
    out = []
    pts = sorted({tuple(p) for s in v for p in (s[:2], s[2:])})
    if 'ends' in groups:
        out += [
            ask('closed', lambda: strict_bool(pl.isclosed)),
            ask('open', lambda: strict_bool(pl.isopen)),
            ask('contin', lambda: strict_bool(pl.iscontinuous)),
            ask('discont', lambda: [index(pl, s) for s in pl.discontinuity]),
            ask('first', lambda: sc.latp(pl.first_point)),
            ask('last', lambda: sc.latp(pl.last_point)),
            ask('firstseg', lambda: sc.latp(pl.first_segment.i) + sc.latp(pl.first_segment.j)),
            ask('lastseg', lambda: sc.latp(pl.last_segment.i) + sc.latp(pl.last_segment.j)),
            ask('ptset', lambda: [sc.latp(p) for p in pl.point_set]),
            ask('allpts', lambda: [sc.latp(p) for p in pl.all_points]),
            ask('bbox', lambda: [[sc.lat(y) for y in x] for x in pl.bounding_box()]),
            ask('midpoint', lambda: sc.ratp(pl.midpoint))]
    if 'edit' in groups:
        def ccopy():
            c = pl.closed_copy()
            r = view(sc, c)
            c.move(x0=1.5, y0=-2.5)       # a copy: this must not move the original
            return r
        out.append(ask('closedcopy', ccopy))
        for _ in range(2):
            p = R.choice(pts)
            out.append(ask('neigh', lambda: sorted(sc.latp(x) for x in pl.neighbour(sc.pt(p))), p=list(p)))
            w = R.choice(['start', 'end', 'both'])
            out.append(ask('findseg', lambda: [index(pl, s) for s in pl.find_segment_by_point(sc.pt(p), w)], p=list(p), w=w))
        p = [R.choice(pts)[0] + R.randint(0, 1), R.choice(pts)[1]]
        w = R.choice(['start', 'end', 'both'])
        out.append(ask('findseg', lambda: [index(pl, s) for s in pl.find_segment_by_point(sc.pt(p), w)], p=p, w=w))
        if ring(v):
            a = R.randint(1, len(v))
            out.append(ask('nextseg', lambda: index(pl, pl.next_segment(pl.segments[a - 1])), a=a))
    if 'add' in groups:
        others = []
        end = v[-1][2:]
        for _ in range(R.choice([1, 1, 2, 3])):
            c = gens.chain(R, R.randint(2, 4), R.choice([3, 6]))
            if R.random() < .1:
                c = gens.grow(R, 4, 5)
                c = c + c[:1]
            o = c[0]
            d = R.choice([[end[0] - o[0], end[1] - o[1]], [end[0] - o[0] + R.randint(-3, 3), end[1] - o[1] + R.randint(-3, 3)],
                          [end[0] - o[0] + R.randint(5, 12), end[1] - o[1] + R.randint(-3, 3)]])
            c = [[p[0] + d[0], p[1] + d[1]] for p in c]
            others.append([c[i] + c[i + 1] for i in range(len(c) - 1)])
            end = c[-1]

        def doadd():
            ob = [from_view(sc, o) for o in others]
            try:
                r = view(sc, add(pl, *ob))
            except AssertionError:
                r = []
            if [view(sc, o) for o in ob] != others:
                raise Exception('operand changed')
            return r
        out.append(ask('add', doadd, o=others))
    if 'valid' in groups:
        out += [
            ask('contin', lambda: strict_bool(pl.iscontinuous)),
            ask('closed', lambda: strict_bool(pl.isclosed)),
            ask('ptri', lambda: strict_bool(pl.is_triangle)),
            ask('crossing', lambda: [[index(pl, a), index(pl, b)] for a, b in pl.crossing_lines]),
            ask('interl', lambda: [[index(pl, a), index(pl, b)] for a, b in intersecting_lines(pl.segments)]),
            ask('valid', lambda: strict_bool(pl.isvalid))]
        def lost():
            c = copy.deepcopy(pl)
            p = R.choice(R.choice(c.segments).ij)
            xy = p.xy
            p._empty()
            a = strict_bool(c.isvalid)
            p._set_coords(coords=xy)
            return [a, strict_bool(c.isvalid)]
        if R.random() < .2:
            t, d = [R.randint(-40, 40), R.randint(-40, 40)], (R.randint(-9, 9), R.randint(0, 9))
            t = [[t[0] + k * d[0], t[1] + k * d[1]] for k in R.sample(range(-5, 6), 3)]      # on a line, or nearly
            t[R.randint(0, 2)][1] += R.choice([0, 0, 0, 1])
            x = [sc.pt(p) for p in t]
            out.append(ask('tri3', lambda: strict_bool(PolygonLine([LineSegment(x[0], x[1]), LineSegment(x[1], x[2]), LineSegment(x[2], x[0])]).is_triangle), t=t))
        if R.random() < .2:
            out.append(ask('lost', lost))
        if R.random() < .1:
            out.append(ask('nothing', lambda: strict_bool(PolygonLine([]).isvalid)))
    if 'util' in groups:
        def outl():
            r = remove_outlier_segments(list(pl.segments))
            return [v[index(pl, s) - 1] for s in r]
        out.append(ask('outlier', outl))
        n = len(v)
        it = [R.randint(1, n) for _ in range(R.randint(0, 4))]
        ex = [R.randint(1, n) for _ in range(R.randint(0, 4))]

        def simp():
            c = copy.deepcopy(pl)
            segs = list(c.segments)
            for a in it:
                c.add_internal_point(p=sc.pt(v[0]), segment=segs[a - 1])
            for a in ex:
                c.add_external_point(p=sc.pt(v[0]), segment=segs[a - 1])
            simplify(c)
            which = lambda s: [i for i, x in enumerate(segs) if x is s][0] + 1
            return [view(sc, c), [which(p.segment) for p in c.internal], [which(p.segment) for p in c.external]]
        out.append(ask('simplify', simp, i=it, e=ex))
        comp = connected(v)
        if comp:
            def walk():
                r = walk_segments(pl.segments)
                return [] if r is False else view(sc, r)
            out.append(ask('walk', walk))
        if ring(v):
            out.append(ask('nocollin', lambda: view(sc, remove_collinear_points(pl))))
            out.append(ask('collin3', lambda: [sorted(sc.latp(p) for p in x) for x in pl.collinear_points]))
    rg = ring(v)
    if rg and 'shape' in groups:
        out += [
            ask('convex', lambda: strict_bool(pl.isconvex)),
            ask('cw', lambda: strict_bool(pl.iscw)),
            ask('ccw', lambda: strict_bool(pl.isccw))]
    if 'inside' in groups:
        xs, ys = [p[0] for p in pts], [p[1] for p in pts]
        cand = [[R.randint(min(xs) - 1, max(xs) + 1), R.randint(min(ys) - 1, max(ys) + 1)] for _ in range(args.get('npts', 8))]
        cand += [list(R.choice(pts)) for _ in range(1)]
        for _ in range(2):
            s = R.choice(v)
            g = math.gcd(s[2] - s[0], s[3] - s[1])
            if g > 1:
                k = R.randint(1, g - 1)
                cand.append([s[0] + (s[2] - s[0]) // g * k, s[1] + (s[3] - s[1]) // g * k])
        for p in cand:
            if rg:
                if R.random() < .7:
                    out.append(ask('inside', lambda: strict_bool(pl.is_internal_point(sc.pt(p))), p=p))
                else:
                    out.append(ask('outside', lambda: strict_bool(pl.is_external_point(sc.pt(p))), p=p))
            if R.random() < .5:
                out.append(ask('boundary', lambda: strict_bool(pl.is_on_boundary(sc.pt(p))), p=p))
    if rg and 'area' in groups:
        area = lambda: out.append(ask('area2', lambda: sc.lat(2 * pl.area, 2)))

        def tiles():
            # not forced: the triangles known are used, if they are those of the present segments
            R.choice([lambda: pl.triangulate(force=True), lambda: pl.triangulate(), lambda: pl.triangulate(algorithm='triangle')])()
            return [tri(sc, t) for t in pl.triangles]
        todo = [area] + [lambda: out.append(ask('tiles', tiles))] * R.choice([0, 1])
        R.shuffle(todo)
        for f in todo:
            f()
        if R.random() < args.get('ears', 0) and len(v) <= 9:
            def ears():
                c = copy.deepcopy(pl)
                with quiet():
                    r = c.ear_clipping()
                return [r is True, [tri(sc, t) for t in c.triangles] if r is True else []]
            out.append(ask('ears', ears))
    if 'eq' in groups:
        for _ in range(3):
            o = [list(s) for s in v]
            k = R.random()
            if k < .2:
                R.shuffle(o)
            elif k < .35:
                i = R.randint(0, len(o) - 1)
                o[i] = o[i][2:] + o[i][:2]
            elif k < .5:
                R.shuffle(o)
                o = [s[2:] + s[:2] if R.random() < .5 else s for s in o]
            elif k < .65:
                i = R.randint(0, len(o) - 1)
                q = list(o[i])
                q[R.randint(0, 3)] += R.choice([-1, 1])
                if q[:2] != q[2:]:
                    o[i] = q
            elif k < .75 and len(o) > 1:
                o.pop(R.randint(0, len(o) - 1))
            elif k < .85:
                a, b = R.choice(pts), R.choice(pts)
                if a != b:
                    o.append(list(a) + list(b))
            if len({frozenset((tuple(s[:2]), tuple(s[2:]))) for s in o}) < len(o):
                continue
            O = from_view(sc, o)
            out += [
                ask('peq', lambda: strict_bool(pl == O), o=o),
                ask('pne', lambda: strict_bool(pl != O), o=o),
                ask('ptext', lambda: view(sc, build(repr(pl)))),
                ask('phash', lambda: hash(pl) == hash(O), o=o),
                ask('ploose', lambda: strict_bool(pl.loose_equal(O)), o=o),
                ask('ploosedir', lambda: strict_bool(pl.loose_equal(O, direction_matters=True)), o=o),
                ask('psubset', lambda: strict_bool(pl.loose_subset(O)), o=o)]
    return out


def connected(v):
    """ one component, first segment starts in it """
    left = list(range(1, len(v)))
    reach = {tuple(v[0][:2]), tuple(v[0][2:])}
    more = True
    while more:
        more = False
        for k in list(left):
            a, b = tuple(v[k][:2]), tuple(v[k][2:])
            if a in reach or b in reach:
                reach |= {a, b}
                left.remove(k)
                more = True
    return not left


def degenerate(v):
    """ outside of the domain: no length, or a segment twice """
    return (any(s[:2] == s[2:] for s in v) or
            len({frozenset((tuple(s[:2]), tuple(s[2:]))) for s in v}) < len(v))


def run(ops, unit, R, groups, args):
    sc = Scale(unit)
    L = None
    steps = []
    exact = unit == int(unit)
    for n, op in enumerate(ops):
        if callable(op):                    # decided on the state reached
            op = op(L, steps[-1]['obs'])
            if op is None:
                continue
        ev = dict(op=op, ok=True, obs=[], q=[], ret=False, exact=exact)
        try:
            with limit(60):
                if op['k'] == 'new':
                    L = Line(op, sc)
                else:
                    r = L.do(op)
                    if op['k'] == 'order':
                        ev['ret'] = strict_bool(r)
                ev['obs'] = L.view()
        except ERR as e:
            ev['ok'] = False
            ev['raw'] = note(e)
        if ev['ok'] and not degenerate(ev['obs']) and (n == len(ops) - 1 or R.random() < args.get('qrate', 1.)):
            ev['q'] = queries(L, ev['obs'], R, groups, args)
            try:
                if L.view() != ev['obs']:
                    ev['q'].append(dict(k='pure', ok=False, r='changed by a query'))
            except ERR as e:
                ev['q'].append(dict(k='pure', ok=False, r=note(e)))
        steps.append(ev)
        if not ev['ok'] or degenerate(ev['obs']):
            break
    return dict(unit=unit, steps=steps)


def heap(R, verts, closed, share):
    """ new: polyline through the vertices. share: probability that a joint is one and the same point """
    h, s = [], []
    n = len(verts) if closed else len(verts) - 1
    for k in range(n):
        if k and R.random() < share:
            i = s[-1][1]
        else:
            h.append(verts[k])
            i = len(h)
        if closed and k == n - 1 and R.random() < share:
            j = s[0][0]
        else:
            h.append(verts[(k + 1) % len(verts)])
            j = len(h)
        s.append([i, j])
    return h, s


def f_rot(c, s, d, about):
    """ turning by an angle with rational sine and cosine, if all coordinates stay on the lattice """
    def f(L, v):
        o = about if about is not None else (0, 0)
        k = 1
        for q in v:
            for p in (q[:2], q[2:]):
                x, y = p[0] - o[0], p[1] - o[1]
                if (c * x - s * y) % d or (s * x + c * y) % d:
                    return None
        op = dict(k='rot' if about is None else 'rotxy', c=c, s=s, d=d)
        if about is not None:
            op.update(x=o[0], y=o[1])
        return op
    return f


def f_reverse(R):
    return lambda L, v: dict(k='reverse', a=R.randint(1, len(v)))


def f_setpt(R, span):
    """ moves one point where all coincident points are the same object """
    def f(L, v):
        ids = {}
        for s in L.pl.segments:
            for p in s.ij:
                ids.setdefault(tuple(L.sc.latp(p)), set()).add(id(p))
        if any(len(x) > 1 for x in ids.values()):
            return None
        a, e = R.randint(1, len(v)), R.randint(1, 2)
        p = v[a - 1][2 * e - 2: 2 * e]
        for _ in range(10):
            q = [p[0] + R.randint(-span, span), p[1] + R.randint(-span, span)]
            if tuple(q) not in ids:
                return dict(k='setpt', a=a, e=e, x=q[0], y=q[1])
    return f


def f_append(R, span, which):
    def f(L, v):
        p = v[-1][2:] if which == 'append' else v[0][:2]
        k = R.random()
        if k < .3:                           # an existing point, the same object
            a, e = R.randint(1, len(v)), R.randint(1, 2)
            q = v[a - 1][2 * e - 2: 2 * e]
        elif k < .5:                         # an existing point, another object
            a, e = 0, 1
            s = R.choice(v)
            q = R.choice([s[:2], s[2:]])
        else:
            a, e = 0, 1
            q = [p[0] + R.randint(-span, span), p[1] + R.randint(-span, span)]
        if q == p or degenerate(v + [p + q]):
            return None
        return dict(k=which, a=a, e=e, x=q[0], y=q[1])
    return f


def f_close(L, v):
    n = len(v)
    if any(v[k][2:] != v[k + 1][:2] for k in range(n - 1)) or (v[0][:2] != v[-1][2:] and degenerate(v + [v[-1][2:] + v[0][:2]])):
        return None
    return dict(k='close')


def rand_ops(R, span, kinds, n, off):
    ops = []
    for _ in range(n):
        k = R.choice(kinds)
        if k == 'move':
            ops.append(dict(k=k, x=R.randint(-span, span), y=R.randint(-span, span)))
        elif k == 'mirror':
            ops.append(dict(k=k, x=off[0] + R.randint(-3, span)))
        elif k == 'rot':
            ops.append(f_rot(*R.choice(ROTS), about=None))
        elif k == 'pyth':
            ops.append(f_rot(*R.choice(PYTH), about=None))
        elif k == 'rotxy':
            ops.append(f_rot(*R.choice(ROTS), about=(off[0] + R.randint(-3, span), off[1] + R.randint(-3, span))))
        elif k == 'pythxy':
            ops.append(f_rot(*R.choice(PYTH), about=(off[0] + 5 * R.randint(-1, span // 5), off[1] + 5 * R.randint(-1, span // 5))))
        elif k == 'reverse':
            ops.append(f_reverse(R))
        elif k == 'setpt':
            ops.append(f_setpt(R, span))
        elif k in ('append', 'prepend'):
            ops.append(f_append(R, span, k))
        elif k == 'close':
            ops.append(f_close)
        else:
            ops.append(dict(k=k))
    return ops


def rand_session(args, R):
    unit = R.choice(UNITS)
    span = R.choice(args.get('spans', [3, 4, 6, 10]))
    big = int(900 / unit) if unit < 1 else 900
    big = min(big, 12000)
    off = R.choice([(0, 0), (0, 0), (-span, -span // 2), (-span // 2, -2 * span), (R.randint(-big, big), R.randint(-big, big))])
    kinds = args.get('kinds', [])
    mult = 1
    if 'pyth' in kinds and R.random() < .5:
        mult = R.choice([5, 25, 65])
        off = (off[0] // 65 * 65, off[1] // 65 * 65)
    what = R.choice(args.get('what', ['ring']))
    n = R.randint(3, args.get('nmax', 8))
    closed = False
    if what == 'ring':
        v = gens.polygon(R, n, span)
        closed = True
    elif what == 'chain':
        v = gens.chain(R, n, span)
    else:
        v = gens.chain(R, n, span, free=True)
        closed = R.random() < .5 and v[0] != v[-1]
    v = [[mult * p[0] + off[0], mult * p[1] + off[1]] for p in v]
    h, s = heap(R, v, closed, R.choice([0, 0, .5, 1]))
    if what == 'soup':                       # segments in any order and direction, perhaps with branches
        for _ in range(R.choice([0, 0, 1, 2])):
            a, b = R.choice(h), R.choice([R.choice(h), [R.randint(0, span) + off[0], R.randint(0, span) + off[1]]])
            if a != b:
                h += [list(a), list(b)]
                s.append([len(h) - 1, len(h)])
    if what in ('shuffled', 'soup') or R.random() < args.get('shuffle', 0):
        if what == 'shuffled' or R.random() < .7:
            v2 = gens.polygon(R, n, span)
            if what == 'shuffled':
                h, s = heap(R, [[p[0] + off[0], p[1] + off[1]] for p in v2], True, R.choice([0, .5, 1]))
                if R.random() < .2 and len(s) > 3:
                    s.pop(R.randint(0, len(s) - 1))
        R.shuffle(s)
        s = [x[::-1] if R.random() < .5 else x for x in s]
    view0 = [list(h[i - 1]) + list(h[j - 1]) for i, j in s]
    if degenerate(view0):
        return None
    ops = [dict(k='new', h=h, s=s)]
    lo, hi = args.get('nops', [0, 0])
    ops += rand_ops(R, mult * span, kinds, R.randint(lo, hi), off)
    if what == 'shuffled' and args.get('order', True):
        ops.insert(R.randint(1, len(ops)), dict(k='order'))
    return ops, unit


def sessions(args, R):
    groups = set(args['groups'])
    for b in args.get('behaviours', []):
        yield run(b, R.choice(UNITS), R, groups, args)
    left = args.get('random', 0)
    while left:
        s = rand_session(args, R)
        if s:
            left -= 1
            yield run(s[0], s[1], R, groups, args)
