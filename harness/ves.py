# -*- coding: utf-8 -*-
""" vessels: drives the machine of spec/Ves.tla on the real parts, vessels and groups """
from common import *
import gens
from geometry.SR_polygon_group import PolygonGroup
from SR_Vessel.SR_hauptteile import (Mantel, StandZarge, Klopperboden, Korbbogenboden, Flachboden, RaumEnde, KegelKrempe,
                                     Behalter, raum_dict_checker)

CLS = dict(mantel=Mantel, stz=StandZarge, klopper=Klopperboden, korbbogen=Korbbogenboden, flach=Flachboden, raumende=RaumEnde)
HEADS = ('klopper', 'korbbogen')
SHELLS = ('mantel', 'stz')


def arguments(op, sc, name):
    t = op['typ']
    d = dict(name=name, pos_v=sc.real(op['v']), pos_h=sc.real(op['x']))
    if t in SHELLS:
        d.update(d=(sc.real(2 * op['a']), sc.real(2 * op['b'])), h=sc.real(op['h']))
    elif t in HEADS:
        d.update(d=sc.real(2 * op['a']), h1=sc.real(op['h']), orient=op['o'])
    else:
        d.update(d=sc.real(2 * op['a']))
    return d


class Vessel(object):
    def __init__(self, sc, R):
        self.sc, self.R = sc, R
        self.parts, self.ops, self.beh, self.group = [], [], None, None

    def do(self, op):
        sc, R, k = self.sc, self.R, op['k']
        ret = None
        if k == 'part':
            d = arguments(op, sc, 'p%d' % len(self.parts))
            cls = CLS[op['typ']]
            p = cls.from_dict(d) if R.random() < .4 else cls(**d)
            if type(p) is not cls:
                raise NotLattice('made a %s instead of a %s' % (type(p).__name__, cls.__name__))
            self.parts.append(p)
            self.ops.append(op)
            self.beh = None
        elif k == 'split':
            ret = strict_bool(self.parts[op['a'] - 1].split(v=sc.real(op['v'])))
            self.beh = None
        elif k == 'krempe':
            hts = [self.parts[op['oben'] - 1]] + ([self.parts[op['unten'] - 1]] if op['unten'] else [])
            R.shuffle(hts)
            d = dict(name='p%d' % len(self.parts), r=sc.real(op['r']), hts=hts, kegel=self.parts[op['kegel'] - 1])
            if R.random() < .4:
                p = KegelKrempe.from_dict(dict(d, h_oben=sc.real(op['ho']), h_unten=sc.real(op['hu'])))
            else:
                p = KegelKrempe(h_non_kegelside=sc.real(op['ho']), h_kegelside=sc.real(op['hu']), **d)
            self.parts.append(p)
            self.ops.append(dict(op, typ='krempe'))
            self.beh = None
        elif k == 'build':
            o = list(self.parts)
            R.shuffle(o)
            with quiet():
                self.beh = Behalter(o)
        elif k == 'lines':
            self.parts = [PolygonLine([LineSegment(sc.pt(s[:2]), sc.pt(s[2:])) for s in l]) for l in op['l']]
            self.ops = [dict(typ='line') for _ in op['l']]
            self.group = PolygonGroup(list(self.parts))
        elif k == 'lmove':
            self.parts[op['a'] - 1].move(x0=sc.real(op['x']), y0=sc.real(op['y']))
        elif k == 'lmirror':
            self.parts[op['a'] - 1].mirror_vertical(x0=sc.real(op['x']))
        elif k == 'rename':
            self.beh.raume[op['a'] - 1].set_name(op['s'])
        elif k != 'look':
            raise ValueError(k)
        return ret

    def seg(self, s):
        a, b = self.sc.latp(s.i), self.sc.latp(s.j)
        return a + b

    def edge(self, s):
        a, b = sorted([self.sc.latp(s.i), self.sc.latp(s.j)])
        return a + b

    def inner(self, p):
        """ a point inside of the arc of a knuckle, which is one edge of the graph """
        for q, o in zip(self.parts, self.ops):
            if o['typ'] == 'krempe' and o['r'] > 0 and any(p == x for s in q.wall_segments for x in s.ij):
                try:
                    self.sc.latp(p)
                except NotLattice:
                    return True
        return False

    def edges(self, segs, which=False):
        """ edges of the graph: arcs are one from end to end. which: the edge of each of the segments """
        segs = list(segs)
        hard = [s for s in segs if not self.inner(s.i) and not self.inner(s.j)]
        out = [self.edge(s) for s in hard]
        of = {id(s): self.edge(s) for s in hard}
        rest = [s for s in segs if id(s) not in of]
        while rest:
            ch = [rest.pop()]
            ends = list(ch[0].ij)
            while True:
                nxt = [(s, k) for s in rest for k in (0, 1) if self.inner(ends[k]) and ends[k] in s.ij]
                if not nxt:
                    break
                s, k = nxt[0]
                rest = [x for x in rest if x is not s]
                ch.append(s)
                ends[k] = [x for x in s.ij if not x == ends[k]][0]
            a, b = sorted(self.sc.latp(p) for p in ends)
            if len(ch) != 3:
                raise NotLattice('arc of %d' % len(ch))
            out.append(a + b)
            for s in ch:
                of[id(s)] = a + b
        return [of[id(s)] for s in segs] if which else out

    def view(self):
        out = []
        for p, o in zip(self.parts, self.ops):
            if o['typ'] == 'line':
                out.append(dict(seg=[self.seg(s) for s in p.segments], g=[]))
                continue
            curved = o['typ'] in HEADS or (o['typ'] == 'krempe' and o['r'] > 0)
            kind = dict(Wall='W', NonWall='N')
            out.append(dict(seg=[] if curved else [[kind[type(s).__name__]] + self.edge(s) for s in p.segments],
                            g=self.edges(p.graph.segments)))
        return out

    def outline(self, segs, part=False):
        """ edges of the graph the walls belong to: those of a curved head are two. part: perhaps not all walls of a head """
        segs, out = list(segs), []
        for q, o in zip(self.parts, self.ops):
            if o['typ'] in HEADS:
                key = (lambda s: frozenset(s.ij)) if part else id
                w = {key(s) for s in q.wall_segments}
                mine = [s for s in segs if key(s) in w]
                if mine:
                    if len(mine) % len(w) or {key(s) for s in mine} != w:
                        if part:
                            return [[0, 0, 0, 0]]
                        raise NotLattice('%d of %d walls' % (len(mine), len(w)))
                    segs = [s for s in segs if key(s) not in w]
                    out += self.edges(q.graph.segments) * (len(mine) // len(w))
        return out + self.edges(segs)

    def index(self, p):
        """ 1-based number of a part; parts of a vessel are those it was made of """
        m = [n + 1 for n, x in enumerate(self.parts) if x is p or getattr(x, 'name', None) == getattr(p, 'name', 0)]
        if len(m) != 1:
            raise NotLattice('unknown part %r' % (p,))
        return m[0]


def head_shape(V, n):
    p, o = V.parts[n], V.ops[n]
    ph, pv, d = V.sc.real(o['x']), V.sc.real(o['v']), V.sc.real(2 * o['a'])
    h1 = V.sc.real(o['h'])
    w = p.wall_segments
    pts = [x.i for x in w] + [w[-1].j]
    f = lambda v: int(round(v / d * 10000))
    nw = p.nonwall_segments
    if len(nw) != 1 or V.edge(nw[0]) != sorted([V.sc.latp(pts[0]), V.sc.latp(pts[-1])])[0] + sorted([V.sc.latp(pts[0]), V.sc.latp(pts[-1])])[1]:
        raise NotLattice('base line')
    if any(w[i].j != w[i + 1].i for i in range(len(w) - 1)):
        raise NotLattice('not continuous')
    return dict(pts=[[f(x.x - ph), f(x.y - pv - o['o'] * h1)] for x in pts], walls=len(w), hs=f(h1))


def krempe_shape(V, n):
    p, o = V.parts[n], V.ops[n]
    w = p.wall_segments
    k = V.ops[o['kegel'] - 1]
    x0, y0 = V.sc.real(k['x']), V.sc.real(k['v'] + k['h'])

    def side(ss):
        pts = []
        for s in ss:
            for q in s.ij:
                c = [int(round((q.x - x0) / V.sc.unit * 100)), int(round((q.y - y0) / V.sc.unit * 100))]
                if c not in pts:
                    pts.append(c)
        return sorted(pts, key=lambda c: c[1])
    return dict(right=side([s for s in w if s.i.x > x0]), left=side([s for s in w if s.i.x < x0]), nonwalls=len(p.nonwall_segments))


def samples(V, n):
    p, o = V.parts[n], V.ops[n]
    sc = V.sc
    if o['typ'] == 'krempe':
        o = dict(V.ops[o['kegel'] - 1], typ='krempe')
        o['a'] = o['b']
    ph, pv, d = sc.real(o['x']), sc.real(o['v']), sc.real(2 * o['a'])
    g = p.graph
    out = []
    hg = max(.1, d / 1000.)
    for s, e in zip(g.segments, V.edges(g.segments, True)):
        lo, up = sorted(s.ij, key=lambda q: q.y)
        sgn = 1 if lo.x + up.x > 2 * ph else -1

        def loc(q):
            if o['typ'] in HEADS:
                return [int(round(sgn * (q.x - ph) / d * 1000)), int(round(o['o'] * (q.y - pv) / hg * 1000))]
            if o['typ'] == 'flach':
                return [int(round((q.x - ph) / d * 1000)), int(round((q.y - pv) / d * 1000))]
            t = 0 if up.y == lo.y else (q.y - lo.y) / (up.y - lo.y)
            return [int(round(t * 1000)), int(round(sgn * (q.x - (lo.x + t * (up.x - lo.x))) / d * 1e7))]
        m = dict(e=e)
        for nm, l in (('int', g.internal), ('ext', g.external), ('ind', g.indifferent)):
            m[nm] = [loc(q) for q in l if q.segment == s]
        out.append(m)
    if len(g.internal) + len(g.external) + len(g.indifferent) != sum(len(m[x]) for m in out for x in ('int', 'ext', 'ind')):
        raise NotLattice('points of other walls')
    return out


def part_queries(V, R, groups):
    out = []
    for n, (p, o) in enumerate(zip(V.parts, V.ops)):
        t = o['typ']
        if t == 'line':
            continue
        A = dict(a=n + 1)
        if 'shape' in groups:
            if t in HEADS:
                out.append(ask('head', lambda: head_shape(V, n), **A))
            if t == 'krempe' and o['r'] > 0:
                out.append(ask('kshape', lambda: krempe_shape(V, n), **A))
            if t != 'krempe':
                if t != 'raumende':
                    out.append(ask('size', lambda: V.sc.lat(p.characteristic_size), **A))
                out.append(ask('attrs', lambda: [V.sc.lat(p.pos_h), V.sc.lat(p.pos_v),
                                                 V.sc.lat((p.d[0] if t in SHELLS else p.d) / 2.)], **A))
            out.append(ask('pvalid', lambda: strict_bool(p.isvalid), **A))
            if t == 'flach':
                for _ in range(2):
                    q = [o['x'] + R.choice([0, 1, -1, o['a'], -o['a'], R.randint(-o['a'] - 2, o['a'] + 2)]), o['v'] + R.choice([0, 0, 0, 1, -1])]
                    out.append(ask('bottom', lambda: strict_bool(p.is_internal_point(p=V.sc.pt(q))), p=q, **A))
            out.append(ask('gname', lambda: p.graph.name == 'Graph of ' + p.name and p.graph.hauptteil is p, **A))
        if 'samples' in groups:
            out.append(ask('samples', lambda: samples(V, n), **A))
        if 'dict' in groups and t != 'krempe':
            d = arguments(o, V.sc, 'q')

            def err(f):
                try:
                    f()
                except ERR as e:
                    return type(e).__name__
                return 'nothing'
            x = R.choice(sorted(d))
            out.append(ask('missing', lambda: err(lambda: CLS[t].from_dict({k: v for k, v in d.items() if k != x})), x=x, **A))
            out.append(ask('unknown', lambda: err(lambda: CLS[t].from_dict(dict(d, dicke=3))), **A))
    return out


ROOMQ = ['rooms', 'rnames', 'outer', 'inner', 'whole', 'sic', 'contained', 'overlaps', 'allover', 'intex', 'rgraph', 'rcycle']


def room_queries(V, R, groups):
    b, out = V.beh, []
    if b is None:
        return out
    cyc = b.graph.cycles
    edges = {k: V.edges(c.segments) for k, c in cyc.items()}
    keys = sorted(cyc)
    E = [edges[k] for k in keys]
    rooms = b.raume
    byname = lambda: {r.name: n for n, r in enumerate(rooms)}
    redges = lambda r: edges[r.cycle[0]]
    idx = lambda l: [V.index(x) for x in l]

    def overlaps(src):
        r = []
        for (i, j), w in src().items():
            r.append(dict(i=min(i, j) + 1, j=max(i, j) + 1, w=idx(w)))
        return r

    def named():
        return [dict(i=min(k) + 1, j=max(k) + 1, w=[int(x[1:]) + 1 for x in sorted(w)]) for k, w in b.overlaps_in_cycles_named.items()]

    def intex():
        ri = b.raum_intex()
        at = byname()
        if len(at) != len(rooms) or set(ri) != {p.name for p in V.parts}:
            raise NotLattice('names')
        return [{w: sorted(keys.index(rooms[at[x]].cycle[0]) + 1 for x in ri[p.name][w])
                 for w in ('innenraum', 'aussenraum', 'indifferent')} for p in V.parts]

    if 'rooms' in groups:
        out.append(ask('rooms', lambda: E))
        out.append(ask('rooms', lambda: [redges(r) for r in rooms]))
        out.append(ask('rnames', lambda: [r.name for r in rooms]))
    if 'walls' in groups:
        out.append(ask('outer', lambda: [dict(e=redges(r), w=idx(r.aussere_wandung)) for r in rooms]))
        out.append(ask('inner', lambda: [dict(e=redges(r), w=idx(r.innere_wandung)) for r in rooms]))
        out.append(ask('whole', lambda: [dict(e=redges(r), w=idx(r.ganze_wandung)) for r in rooms]))
        out.append(ask('rgraph', lambda: [dict(e=redges(r), w=V.edges(r.graph_as_polygon().segments)) for r in rooms]))
        out.append(ask('rgraph', lambda: [dict(e=redges(r), w=V.outline(r.as_polygon.segments)) for r in rooms]))
        walls = [frozenset(s.ij) for p in V.parts for s in p.wall_segments]
        if len(set(walls)) == len(walls):                 # the cylindrical part of a head may be a piece of a shell, too
            out.append(ask('rcycle', lambda: [dict(e=edges[k], w=V.outline(c.segments, True), closed=strict_bool(c.isclosed))
                                          for k, c in b.cycles.items()]))
    if 'rel' in groups:
        out.append(ask('sic', lambda: [dict(e=edges[k], w=[V.index(x.hauptteil) for x in v]) for k, v in b.graph.segments_in_cycles.items()]))
        out.append(ask('sic', lambda: [dict(e=edges[k], w=idx(v)) for k, v in b.segments_in_cycles.items()]))
        con = R.choice([lambda: b.contained_cycles, lambda: b.graph.contained_cycles])
        out.append(ask('contained', lambda: [[keys.index(z) + 1 for z in con()[k]] for k in keys], e=E))
        out.append(ask('overlaps', lambda: overlaps(lambda: b.overlaps_in_cycles), e=E))
        out.append(ask('overlaps', lambda: overlaps(lambda: {k: [x.hauptteil for x in v] for k, v in b.graph.overlaps_in_cycles.items()}), e=E))
        out.append(ask('overlaps', named, e=E))
        out.append(ask('allover', lambda: [V.index(x.hauptteil) for x in b.all_overlapping_segments]))
    if 'intex' in groups:
        out.append(ask('intex', intex, e=E))
    if 'group' in groups and not any(o['typ'] == 'krempe' and o['r'] for o in V.ops):
        out += group_queries(V, b.graph, R)
        p = R.choice(V.parts)
        out.append(ask('repr', lambda: b.polygon_from_repr(p) is p and b.name_from_repr(p) == p.name))
    if 'repeat' in groups:
        def again():
            with quiet():
                return [intex(), [sorted(idx(r.aussere_wandung)) for r in rooms], [sorted(idx(r.innere_wandung)) for r in rooms],
                        [r.name for r in rooms], {k: V.edges(c.segments) for k, c in b.graph.cycles.items()}]

        def twice():
            x = again()
            b.raum_erstellen()
            return x == again()

        def anew():
            """ the same parts put together again, in another sequence: the same rooms """
            o = list(b.polygons)
            R.shuffle(o)
            with quiet():
                c = Behalter(copy.deepcopy(o))
                d = Behalter(o)
            rs = lambda x: sorted(sorted(V.edges(y.segments)) for y in x.graph.cycles.values())
            return rs(b) == rs(c) == rs(d)
        out.append(ask('repeats', twice))
        out.append(ask('anew', anew))
    return out


def group_queries(V, g, R):
    sc, out = V.sc, []

    def adj():
        if R.random() < .5:
            return [dict(p=sc.latp(p), n=[sc.latp(x) for x in l]) for p, l in g.as_adjacency_list().items()]
        at = {n: sc.latp(p) for p, n in g.points_numbered.items()}
        return [dict(p=at[n], n=[at[x] for x in l]) for n, l in g.as_adjacency_list(as_numbered=True).items()]
    out.append(ask('numbered', lambda: [sc.latp(p) + [n] for p, n in g.points_numbered.items()]))
    out.append(ask('adj', adj))

    def edgelist():
        at = {n: sc.latp(p) for p, n in g.points_numbered.items()}
        l = g.as_edgelist
        if l != sorted(l):
            raise NotLattice('not sorted')
        return [at[i] + at[j] for i, j in l]
    out.append(ask('edgelist', edgelist))
    return out


def line_queries(V, R):
    g, sc, out = V.group, V.sc, group_queries(V, V.group, R)

    def degree():
        al = g.as_adjacency_list()
        return [dict(p=sc.latp(p), n=g.node_degree(al, p)) for p in al]

    def numdegree():
        al = g.as_adjacency_list(as_numbered=True)
        return [dict(p=sc.latp(p), n=g.node_degree(al, n)) for p, n in g.points_numbered.items()]
    out.append(ask('degree', degree))
    out.append(ask('degree', numdegree))
    pts = sorted({(p.x, p.y) for l in V.parts for s in l.segments for p in s.ij})
    k = R.randint(0, len(pts))
    sub = R.sample(pts, k) + ([(pts[0][0] + 7 * sc.unit, pts[0][1])] if R.random() < .3 else [])
    P = [Point(p) for p in sub]
    out.append(ask('frompts', lambda: [[n + 1 for n, x in enumerate(V.parts) if x is y][0] for y in g.segments_from_points(P)],
                   p=[sc.latp(p) for p in P]))
    out.append(ask('allsegs', lambda: [V.seg(s) for s in g.all_segments]))
    q = ask('gvalid', lambda: None, pv=[])

    def gvalid():
        with quiet():
            q['pv'] = [strict_bool(x.isvalid) for x in V.parts]
            return strict_bool(g.isvalid)
    x = ask('gvalid', gvalid)
    x['pv'] = q['pv']
    out.append(x)
    return out


def place(op, off):
    op = json.loads(json.dumps(op))
    x, y = off
    k = op['k']
    if k == 'part':
        op['x'] += x
        op['v'] += y
    elif k == 'split':
        op['v'] += y
    elif k == 'lines':
        op['l'] = [[[s[0] + x, s[1] + y, s[2] + x, s[3] + y] for s in l] for l in op['l']]
    elif k == 'lmirror':
        op['x'] += x
    return op


def run(ops, unit, off, R, groups, qrate=1.):
    sc = Scale(unit)
    V, steps = Vessel(sc, R), []
    ops = list(ops)
    for op in ops:
        last = op is ops[-1]
        op = place(op, off)
        ev = dict(op=op, ok=True, obs=[], q=[], ret=False)
        try:
            with limit(120):
                ret = V.do(op)
                if ret is not None:
                    ev['ret'] = ret
                ev['obs'] = V.view()
        except ERR as e:
            ev['ok'], ev['raw'] = False, note(e)
        if ev['ok']:
            try:
                with limit(240):
                    if V.group is not None:
                        if R.random() < .7:
                            ev['q'] += line_queries(V, R)
                    else:
                        if last or op['k'] == 'build' or R.random() < qrate:
                            ev['q'] += part_queries(V, R, groups)
                        with quiet():
                            ev['q'] += room_queries(V, R, groups if op['k'] != 'rename' else groups & {'rooms', 'intex'})
            except ERR as e:
                ev['q'].append(dict(k='rooms', ok=False, r=note(e)))
            try:
                if V.view() != ev['obs']:
                    ev['q'].append(dict(k='pure', ok=False, r='changed by a query'))
            except ERR as e:
                ev['q'].append(dict(k='pure', ok=False, r=note(e)))
        steps.append(ev)
        if not ev['ok']:
            break
        if last and op['k'] in ('build', 'rename') and V.beh.raume and groups & {'rooms', 'intex'} and R.random() < .3:
            ops.append(dict(k='rename', a=R.randint(1, len(V.beh.raume)), s=R.choice(['Dampfraum', 'Mantelraum', 'Boden']) + str(len(ops))))
    return dict(unit=unit, steps=steps)


# ---------------------------------------------------------------------------------------------------------------------
# families of vessels
class World(object):
    """ lattice of a family: s steps make the height of a head in the graph """
    def __init__(self, R):
        self.R = R
        k = R.random()
        if k < .2:
            f = R.choice([1, 2, .5])                      # millimetres: the height of a head depends on its diameter
            self.unit, self.tenth, self.s = f, 0, 1
            if f < .5:
                self.tenth = 0
            self.mm = True
        else:
            self.unit, self.tenth = R.choice([(.05, 2), (.01, 10), (.025, 4), (.1, 1), (.02, 5), (.0125, 8)])
            self.s, self.mm = self.tenth, False
        self.ops = []

    def radius(self, lo=5, hi=25):
        if self.mm:
            return 500 * self.R.randint(1, 5)
        return self.R.randint(lo * self.s, hi * self.s)

    def height(self):
        if self.mm:
            return self.R.choice([100, 250, 300, 1000, 1234, 2000])
        return self.R.randint(8 * self.s, 20 * self.s)

    def hg(self, a):
        return max(self.tenth, 2 * a // 1000)

    def part(self, typ, x, v, a, b=None, h=0, o=1):
        if typ in HEADS:
            h = max(1, self.R.choice([1, self.s, 2 * self.s]))
        self.ops.append(dict(k='part', typ=typ, x=x, v=v, a=a, b=a if b is None else b, h=h, o=o, tenth=self.tenth))
        return self.ops[-1]

    def head(self, x, v, a, o, flat=.3):
        if self.R.random() < flat:
            return self.part('flach', x, v, a)
        return self.part(self.R.choice(HEADS), x, v, a, o=o)

    def levels(self, p):
        """ where a shell can be cut on the lattice """
        db, h = p['b'] - p['a'], p['h']
        return [v for v in range(p['v'] + 1, p['v'] + h) if (db * (v - p['v'])) % h == 0]

    def stack(self, n, x, v, a, splits=1, rad=None):
        R = self.R
        self.head(x, v, a, -1)
        shells = []
        for i in range(n):
            h = self.height()
            b = a if R.random() < .6 else (rad or self.radius)()
            shells.append(self.part('mantel', x, v, a, b, h))
            v, a = v + h, b
            if i < n - 1 and R.random() < .8:
                self.head(x, v, a, R.choice([1, -1]), .5)
        self.head(x, v, a, 1)
        return v, a, shells

    def splits(self, shells, n):
        out = []
        for p in shells:
            for _ in range(self.R.randint(0, n)):
                l = self.levels(p)
                if l:
                    out.append((p, self.R.choice(l)))
        return out


def finish(W, splits, R, build=True):
    """ order of making and cutting: parts in any order, cut after that """
    parts = W.ops
    R.shuffle(parts)
    ops = list(parts)
    for p, v in splits:
        ops.append(dict(k='split', a=[n for n, q in enumerate(parts) if q is p][0] + 1, v=v))
    return ops + ([dict(k='build')] if build else [])


def fam_stack(R, W):
    n = R.randint(1, 3)
    _, _, sh = W.stack(n, 0, 0, W.radius())
    return finish(W, W.splits(sh, 1 if n > 2 else 2), R)


def fam_stz(R, W):
    a = W.radius()
    n = R.randint(1, 2)
    _, _, sh = W.stack(n, 0, 0, a)
    h = W.height()
    b = a if R.random() < .7 else W.radius()
    z = W.part('stz', 0, -h, b, a, h)
    return finish(W, W.splits(sh + [z], 1), R)


def outer(W, R, x, lo, hi, a, n=1):
    W.head(x, lo, a, -1)
    shells, v = [], lo
    for i in range(n):
        h = (hi - lo) // n if i < n - 1 else hi - v
        shells.append(W.part('mantel', x, v, a, a, h))
        v += h
    W.head(x, hi, a, 1)
    return shells


def fam_nest(R, W):
    n = R.randint(1, 2)
    top, a, sh = W.stack(n, 0, 0, W.radius(5, 12), rad=lambda: W.radius(5, 12))
    big = max(p['a'] for p in W.ops) + (500 if W.mm else R.randint(2 * W.s, 9 * W.s))
    if any(p['b'] >= big for p in W.ops):
        big = max(p['b'] for p in W.ops) + (500 if W.mm else 3 * W.s)
    g = 20 if W.mm else 3 * W.s
    o = outer(W, R, 0, -R.randint(g, 3 * g), top + R.randint(g, 3 * g), big, R.choice([1, 1, 2]) if n == 1 else 1)
    return finish(W, W.splits(R.sample(sh, 1) if n == 1 else [], 1), R)


def fam_tower(R, W):
    """ a room with a floor; another vessel stands in one of its rooms """
    top, a, sh = W.stack(1, 0, 0, W.radius(5, 12), rad=lambda: W.radius(5, 12))
    big = max(max(p['a'], p['b']) for p in W.ops) + (500 if W.mm else R.randint(2 * W.s, 9 * W.s))
    g = 20 if W.mm else 3 * W.s
    lo, hi = -R.randint(g, 3 * g), top + R.randint(g, 3 * g)
    W.head(0, lo, big, -1)
    W.part('mantel', 0, lo, big, big, hi - lo)
    if R.random() < .5:
        W.head(0, hi, big, R.choice([1, -1]) if False else 1, .5)
        h = W.height()
        W.part('mantel', 0, hi, big, big, h)
        W.head(0, hi + h, big, 1)
    else:
        h = W.height()
        W.head(0, hi, big, 1)
        W.head(0, lo - h, big, -1)
        W.part('mantel', 0, lo - h, big, big, h)
    return finish(W, [], R)


def fam_two(R, W):
    t1, a1, s1 = W.stack(1, 0, 0, W.radius(5, 12), rad=lambda: W.radius(5, 12))
    g = 20 if W.mm else 3 * W.s
    if R.random() < .5:
        t2, a2, s2 = W.stack(1, 0, t1 + R.randint(g, 3 * g), W.radius(5, 12), rad=lambda: W.radius(5, 12))
        lo = 0
        big = max(max(p['a'], p['b']) for p in W.ops) + (500 if W.mm else 3 * W.s)
        xm = 0
    else:                                                 # beside each other
        m1 = max(max(p['a'], p['b']) for p in W.ops)
        n = len(W.ops)
        xx = 4 * m1
        t2, a2, s2 = W.stack(1, xx, 0, W.radius(5, 12) if not W.mm else m1, rad=(lambda: W.radius(5, 12)) if not W.mm else (lambda: m1))
        m2 = max(max(p['a'], p['b']) for p in W.ops[n:])
        if xx - m2 <= m1:
            xx = 2 * (m1 + m2)
            for p in W.ops[n:]:
                p['x'] = xx
        xm = xx // 2
        big = xx + m1 + m2
        if W.mm:
            big = (big // 500 + 1) * 500
        t2 = max(t1, t2)
    if R.random() < .8:
        outer(W, R, xm, -R.randint(g, 3 * g), t2 + R.randint(g, 3 * g), big)
    return finish(W, [], R)


def fam_neck(R, W):
    """ a vessel with a neck; another one stands beside the neck, outside, or below a bottom, inside a skirt of another """
    a, b = (1500, 500) if W.mm else (R.randint(16, 25) * W.s, 5 * W.s)
    h1, h2 = W.height(), W.height()
    W.head(0, 0, a, -1)
    W.part('mantel', 0, 0, a, a, h1)
    W.part('mantel', 0, h1, a, b, 10 * W.s if not W.mm else 100)
    v = h1 + (10 * W.s if not W.mm else 100)
    W.part('mantel', 0, v, b, b, h2 * 3)
    W.head(0, v + 3 * h2, b, 1)
    r = 500 if W.mm else R.randint(3, 5) * W.s
    x = R.choice([1, -1]) * (b + r + (10 if W.mm else W.s))
    y = v + (20 if W.mm else 2 * W.s)
    W.head(x, y, r, -1)
    W.part('mantel', x, y, r, r, h2)
    W.head(x, y + h2, r, 1)
    return finish(W, [], R)


def fam_apart(R, W):
    g = 20 if W.mm else 3 * W.s
    t1, a1, s1 = W.stack(1, 0, 0, W.radius())
    t2, a2, s2 = W.stack(R.randint(1, 2), 0, t1 + R.randint(g, 3 * g), W.radius())
    return finish(W, W.splits(R.sample(s1 + s2, 1), 1), R)


def fam_shared(R, W):
    """ two rooms inside, one shell for both that is cut at the floor between them """
    a = W.radius(5, 12)
    h = 2 * W.height()
    c = R.choice(range(h // 3, h // 2 + 1))
    W.head(0, 0, a, -1)
    m = W.part('mantel', 0, 0, a, a, h)
    W.part('flach', 0, c, a)
    W.head(0, h, a, 1)
    if R.random() < .8:
        g = 20 if W.mm else 3 * W.s
        outer(W, R, 0, -R.randint(g, 3 * g), h + R.randint(g, 3 * g), a + (500 if W.mm else R.randint(3 * W.s, 9 * W.s)))
    return finish(W, [(m, c)], R)


def fam_jacket(R, W):
    """ a jacket whose room ends at the shell """
    a = W.radius(8, 20)
    h = 3 * W.height()
    b = a if R.random() < .7 else a + (R.randint(1, 3) * 500 if W.mm else R.randint(0, 4) * W.s)
    W.head(0, 0, a, -1, 0)
    if R.random() < .3 and not W.mm:
        W.ops.pop()
        W.part('flach', 0, 0, a)
    m = W.part('mantel', 0, 0, a, b, h)
    l = W.levels(m)
    if not l:
        m['b'] = b = a
        l = W.levels(m)
    W.head(0, h, b, 1)
    g = 20 if W.mm else 3 * W.s
    lo = -R.randint(g, 2 * g)
    hg = 20 if W.mm else 2 * W.s
    lv = [v for v in l if v > hg and v < h] or l
    rv = R.choice(lv)
    J = b + (500 if W.mm else R.randint(2 * W.s, 6 * W.s))
    W.part('mantel', 0, lo, J, J, rv - lo)
    W.head(0, lo, J, -1)
    W.part('raumende', 0, rv, J)
    cuts = [(m, v) for v in R.sample(l, min(len(l), R.randint(0, 2))) if v != rv]
    if R.random() < .2:
        cuts = []
        outer(W, R, 0, lo - 2 * g, h + 2 * g, J + (500 if W.mm else 3 * W.s))
    return finish(W, cuts, R)


def fam_deep(R, W):
    """ vessels in each other, and others beside or above them """
    g = 20 if W.mm else 3 * W.s
    big = 500 if W.mm else R.randint(3, 9) * W.s
    lo, hi, a = 0, W.height(), W.radius(5, 12)
    outer(W, R, 0, lo, hi, a)
    for _ in range(R.choice([1, 2, 2, 2])):
        lo, hi, a = lo - R.randint(g, 3 * g), hi + R.randint(g, 3 * g), a + big
        outer(W, R, 0, lo, hi, a)
    if R.random() < .6:                                   # another one, perhaps double walled
        v = hi + R.randint(g, 3 * g)
        h = W.height()
        outer(W, R, 0, v, v + h, W.radius(5, 12))
        if R.random() < .5:
            b = max(p['a'] for p in W.ops[-3:]) + big
            for p in W.ops[-3:]:
                p['v'] += 3 * g
            outer(W, R, 0, v + g, v + h + 5 * g, b)
    return finish(W, [], R)


def fam_many(R, W):
    """ many vessels on a grid, perhaps in a large one """
    g = 20 if W.mm else 3 * W.s
    a = 500 if W.mm else W.radius(5, 8)
    h, cols = W.height(), R.randint(1, 4)
    n, pa, pv = R.randint(3, 6), 2 * a + 3 * g, h + 5 * g
    cells = R.sample([(c, r) for c in range(cols) for r in range(-(-n // cols))], n)
    for c, r in cells:
        lo = r * pv + R.randint(0, g)
        outer(W, R, c * pa + R.randint(0, 2) * (g // 2), lo, lo + h, a if R.random() < .6 or W.mm else W.radius(3, 5))
    if n < 5 and R.random() < .7:
        rows = -(-n // cols)
        big = cols * pa
        if W.mm:
            big = (big // 500 + 1) * 500
        outer(W, R, (cols - 1) * pa // 2, -4 * g, rows * pv + 3 * g, big)
    return finish(W, [], R)


def fam_ring(R, W):
    """ a jacket between two levels of the shell """
    a = W.radius(8, 20)
    h = 3 * W.height()
    W.head(0, 0, a, -1)
    m = W.part('mantel', 0, 0, a, a, h)
    W.head(0, h, a, 1)
    l = W.levels(m)
    g = 5 if W.mm else W.s
    v1 = R.randint(g, h // 2 - g)
    v2 = R.randint(v1 + g, h - g)
    J = a + (500 if W.mm else R.randint(2 * W.s, 6 * W.s))
    W.part('mantel', 0, v1, J, J, v2 - v1)
    W.part('raumende', 0, v1, J)
    W.part('raumende', 0, v2, J)
    return finish(W, [], R)


CONES = [(3, 4, 5), (4, 3, 5), (5, 12, 13), (12, 5, 13)]


def fam_krempe(R, W, build=True):
    u = 25 if W.mm else W.s
    dx, h, n = R.choice(CONES)
    f = R.choice([2, 3, 4]) * (u if not W.mm else 25)
    k = R.choice([1, 1, 2])
    dx, h, n = dx * f * k, h * f * k, n * f * k
    b = dx + R.randint(5 * W.s, 12 * W.s)
    if W.mm:
        b = dx + 500
    a = b - dx
    top = W.height() * 2
    r = 0
    if R.random() < .65:
        # tangent points on the lattice
        c = [x for x in range(1, b // 6) if (x * dx) % (n + h) == 0 and ((x * dx // (n + h)) * h) % n == 0 and ((x * dx // (n + h)) * dx) % n == 0
             and (x * dx // (n + h)) * h // n < h and x * dx // (n + h) < top]        # the arc ends on both parts
        r = R.choice(c) if c else 0
    T = 0 if r == 0 else r * dx // (n + h)
    drop = 0 if r == 0 else T * h // n
    hu = R.choice([y for y in range(1, h) if (y * dx) % h == 0 and y != drop])
    ho = R.choice([y for y in range(1, top) if y != T])
    if T > 1 and R.random() < .4:
        ho = R.randint(1, T - 1)
    unten = R.random() < .5
    J = 0
    parts = [dict(W.part('mantel', 0, J, b, b, top)), dict(W.part('mantel', 0, J - h, a, b, h))]
    hs = 0
    if unten:
        hs = h + W.height()
        W.part(R.choice(['mantel', 'mantel', 'stz']), 0, J - hs, b, b, hs)
    n0 = len(W.ops)
    kr = dict(k='krempe', oben=1, kegel=2, unten=3 if unten else 0, n=n, r=r, hu=hu, ho=ho)
    ops = list(W.ops) + [kr]
    W.ops = []
    # the closures: parts of their own, before or after the knuckle
    if R.random() < .5:
        W.part('raumende', 0, J - h, a)
    else:
        W.head(0, J - h, a, -1, 1 if W.mm else .5)
    if unten and ops[2]['typ'] == 'mantel':
        if R.random() < .6:
            W.part('raumende', 0, J - hs, b)
        else:
            W.head(0, J - hs, b, -1, 1 if W.mm else .3)
    W.head(0, J + top, b, 1, 1 if W.mm else .3)
    if R.random() < .15 and build:            # all of that in another vessel
        g = 20 if W.mm else 3 * W.s
        outer(W, R, 0, J - max(hs, h) - R.randint(2 * g, 4 * g), J + top + R.randint(2 * g, 4 * g), b + (500 if W.mm else R.randint(4, 9) * W.s))
    rest = W.ops
    R.shuffle(rest)
    return ops + rest + ([dict(k='build')] if build else [])


def fam_parts(R, W):
    """ parts on their own, cut again and again """
    for _ in range(R.randint(2, 4)):
        t = R.choice(['mantel', 'mantel', 'mantel', 'stz', 'klopper', 'korbbogen', 'flach', 'raumende'])
        a = W.radius()
        W.part(t, R.randint(-20, 20) * W.s, R.randint(-20, 20) * W.s, a, (a if R.random() < .4 else W.radius()) if t in SHELLS else None,
               W.height() if t in SHELLS else 0, R.choice([1, -1]))
    ops = list(W.ops)
    for _ in range(R.randint(2, 6)):
        i = R.randint(1, len(ops) if all(o['k'] == 'part' for o in ops) else len(W.ops))
        p = W.ops[i - 1]
        if p['typ'] in SHELLS:
            l = W.levels(p)
            v = R.choice((l or [p['v']]) + [p['v'], p['v'] + p['h'], p['v'] - 3, p['v'] + p['h'] + 5])
        else:
            v = R.choice([p['v'], p['v'] + 1, p['v'] - 1])
        ops.append(dict(k='split', a=i, v=v))
    return ops


FAMILIES = dict(stack=fam_stack, stz=fam_stz, nest=fam_nest, tower=fam_tower, two=fam_two, neck=fam_neck, apart=fam_apart,
                shared=fam_shared, jacket=fam_jacket, ring=fam_ring, deep=fam_deep, many=fam_many, krempe=fam_krempe, parts=fam_parts)


def edges_of(ops):
    n = 0
    for o in ops:
        if o['k'] == 'part':
            n += dict(mantel=2, stz=3, klopper=2, korbbogen=2, flach=1, raumende=1)[o['typ']]
        elif o['k'] == 'split':
            n += 2
        elif o['k'] == 'krempe':
            n += (8 if o['r'] else 4) + (2 if o['unten'] else 0)
    return n


def offset(R, W):
    u = W.s if not W.mm else 100
    return R.choice([(0, 0), (0, 0), (R.randint(-50, 50), R.randint(-50, 50)), (R.randint(-90, 90) * u, R.randint(-90, 90) * u)])


def line_session(R, args):
    unit = R.choice([1, .5, .1, .3, .05, 10])
    span = R.choice([3, 4, 6])
    lines = []
    for _ in range(R.randint(1, 4)):
        if R.random() < .5:
            v = gens.polygon(R, R.randint(3, 6), span)
            l = [v[i] + v[(i + 1) % len(v)] for i in range(len(v))]
            if R.random() < .3:
                l.pop()
        else:
            v = gens.chain(R, R.randint(1, 5), span, free=True)
            l = [list(v[i]) + list(v[i + 1]) for i in range(len(v) - 1)]
        l = [list(s) for s in l if list(s[:2]) != list(s[2:])]
        lines.append([s for n, s in enumerate(l) if s not in l[:n]])
    lines = [l for l in lines if l] or [[[0, 0, 1, 0]]]
    if R.random() < .4:                       # a frame with a partition
        lines = [[[0, 0, 4, 0], [4, 0, 4, 4]], [[4, 4, 0, 4], [0, 4, 0, 0]], [[0, 0, 4, 4]]][:R.randint(2, 3)]
        if R.random() < .3:
            lines.append([[0, 0, 2, 1]])
    if R.random() < .15:                      # triangles around a common corner, with two to twelve segments there
        d = [(3, 0), (3, 1), (2, 2), (1, 3), (0, 3), (-1, 3), (-2, 2), (-3, 1), (-3, 0), (-3, -1), (-2, -2), (-1, -3)]
        lines = [[[0, 0, *d[n]], [*d[n], *d[n + 1]], [*d[n + 1], 0, 0]] for n in range(0, 2 * R.randint(1, 6), 2)]
    ops = [dict(k='lines', l=lines)]
    for _ in range(R.randint(0, 4)):
        a = R.randint(1, len(lines))
        if R.random() < .7:
            ops.append(dict(k='lmove', a=a, x=R.randint(-span, span), y=R.randint(-span, span)))
        else:
            ops.append(dict(k='lmirror', a=a, x=R.randint(0, span)))
    return run(ops, unit, R.choice([(0, 0), (-5, 3), (100, 40)]), R, set(args['groups']))


def checker_session(R, args):
    """ what the rooms mean to the parts, compared up to the names of the rooms """
    q = []
    for _ in range(6):
        rooms = ['R%d' % (i + 1) for i in range(R.randint(1, 4))]
        n = R.randint(1, 5)
        d = [[R.sample(rooms, R.randint(0, min(2, len(rooms)))) for _ in range(3)] for _ in range(n)]
        used = sorted({x for p in d for c in p for x in c})
        if not used:
            continue
        sub = dict(zip(used, R.sample(used, len(used))))
        e = [[[sub[x] for x in c] for c in p] for p in d]
        for _ in range(R.choice([0, 0, 1, 2])):
            p, c = R.choice(e), R.randint(0, 2)
            if p[c] and R.random() < .5:
                p[c].remove(R.choice(p[c]))
            else:
                p[c] = sorted(set(p[c] + [R.choice(used)]))
        if R.random() < .3:                   # a room that is missing, under its own name or another one
            x = R.choice(used)
            e = [[[y for y in c if y != x] for c in p] for p in e]
        elif R.random() < .2:
            R.choice(R.choice(e)).append('R9')
        if R.random() < .3:                   # names of their own
            e = [[['Q' + y[1:] for y in c] for c in p] for p in e]
        if R.random() < .1:
            e = e[:-1] if R.random() < .5 else e + [[[], [], []]]
        if R.random() < .5:
            d, e = e, d
        mk = lambda v: {'p%d' % i: dict(innenraum=set(p[0]), aussenraum=set(p[1]), indifferent=set(p[2])) for i, p in enumerate(v)}

        def check():
            with quiet():
                try:
                    return strict_bool(raum_dict_checker(dict_to_comapare=mk(d), basedict=mk(e)))
                except Exception as x:
                    if str(x) != 'WTF':
                        raise
                    return False
        q.append(ask('checker', check, d=d, e=e))
    return dict(unit=1, steps=[dict(op=dict(k='look'), ok=True, obs=[], q=q, ret=False)])


def sessions(args, R):
    groups = set(args['groups'])
    for b in args.get('behaviours', []):
        unit = R.choice([.05, .05, .05])
        yield run(b, unit, R.choice([(0, 0), (0, 0), (20, -30), (-300, 170)]), R, groups)
    fams = args.get('families', [])
    n = 0
    while fams and n < args.get('random', 0):
        W = World(R)
        f = R.choice(fams)
        ops = FAMILIES[f](R, W)
        if f == 'krempe' and edges_of(ops) > 18:            # too long to find the rooms
            ops = ops[:-1]
        elif f not in ('parts', 'many') and edges_of(ops) > (18 if f == 'krempe' else args.get('emax', 14)):
            continue
        n += 1
        s = run(ops, W.unit, offset(R, W), R, groups, args.get('qrate', .2))
        s['fam'] = f
        yield s
    for _ in range(args.get('lines', 0)):
        yield line_session(R, args)
    for _ in range(args.get('checker', 0)):
        yield checker_session(R, args)
