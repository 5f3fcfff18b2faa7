""" the checks: one entry per property """
SEG_MC = dict(quick=[dict(module='MC_Seg')], thorough=[dict(module='MC_Seg', cfg='MC_Seg_big.cfg', timeout=3000)])
SEG_GEN = dict(quick=[dict(module='Gen_Seg', num=200, depth=7)], thorough=[dict(module='Gen_Seg', num=4000, depth=7)])


def seg(groups, clauses, q, t, **kw):
    c = dict(groups=groups)
    c.update(kw)
    return dict(domain='seg', trace='TrSeg', mc=SEG_MC, gen=SEG_GEN, clauses=clauses, args=dict(common=c, quick=q, thorough=t))


CHECKS = {
 'C01': seg(['common'], {'common', 'cptype', 'overlap', 'meet'}, dict(random=400, nops=3), dict(random=15000, nops=4), flat=80),
 'C02': seg(['rel', 'num', 'one'], {'onseg', 'onend', 'parallel', 'isinter', 'collin', 'opposite', 'touch', 'cont',
            'crossp', 'cpstart', 'dotp', 'angle', 'vector', 'unit', 'dir', 'dirrange', 'norm2', 'isnull', 'segvalid', 'bbox',
            'eq', 'ne', 'hash', 'looseeq', 'reversed'}, dict(random=150, nops=2, qrate=.4), dict(random=8000, nops=4), flat=1000),
 'C03': seg(['pt'], {'online', 'inbox', 'onboth', 'left', 'right', 'dist', 'anglept'}, dict(random=120, qrate=.3, nops=2), dict(random=8000, nops=4), flat=1000, fine=True),
 'C04': seg(['cut'], {'divide', 'ratio', 'addpt'}, dict(random=500, nops=3), dict(random=15000, nops=4), flat=300),
 'C06': seg(['one'], {'state', 'pure', 'norm2', 'isnull', 'bbox', 'vector'}, dict(random=400, qrate=.15, nops=12, nsegs=[2, 3, 4, 5]), dict(random=10000, nops=20, nsegs=[2, 3, 5, 7])),
}


def poly(groups, clauses, q, t, gen=None, mc=None, **kw):
    c = dict(groups=groups)
    c.update(kw)
    return dict(domain='poly', trace='TrPoly', mc=mc or POLY_MC, gen=gen or pgen('Gen_PolyRing.cfg', 200, 4000), clauses=clauses, args=dict(common=c, quick=q, thorough=t))


POLY_MC = dict(quick=[dict(module='MC_Poly')], thorough=[dict(module='MC_Poly', cfg='MC_Poly_big.cfg', timeout=3000)])


def pgen(cfg, q, t):
    g = dict(module='Gen_Poly', cfg=cfg, depth=25)
    return dict(quick=[dict(g, num=q)], thorough=[dict(g, num=t, timeout=3000)])


MOVES = ['move', 'mirror', 'rot', 'rotxy', 'pyth', 'pythxy', 'reverse', 'setpt', 'purge', 'append', 'prepend', 'close']
CHECKS.update({
 'C07': poly(gen=pgen('Gen_Poly.cfg', 200, 4000), groups=['ends'], clauses={'state', 'pure', 'bbox', 'ptset', 'allpts', 'midpoint', 'first', 'last'},
             q=dict(random=200), t=dict(random=6000), kinds=MOVES, nops=[3, 14], what=['ring', 'ring', 'chain', 'free', 'soup'], nmax=8, qrate=.3),
 'C08': poly(gen=pgen('Gen_Poly.cfg', 200, 4000), groups=['ends', 'edit', 'add'], clauses={'state', 'pure', 'closed', 'open', 'discont', 'firstseg', 'lastseg', 'first', 'last', 'closedcopy', 'neigh', 'findseg',
             'nextseg', 'add'}, q=dict(random=200), t=dict(random=6000), kinds=['append', 'prepend', 'close', 'append', 'move', 'reverse'], nops=[1, 6],
             what=['chain', 'chain', 'free', 'ring'], nmax=6),
 'C09': poly(gen=pgen('Gen_PolyOrder.cfg', 200, 4000), groups=['ends'], clauses={'order'}, q=dict(random=400), t=dict(random=10000), kinds=['move', 'rot', 'mirror', 'reverse', 'order'], nops=[0, 4],
             what=['shuffled', 'shuffled', 'shuffled', 'chain'], nmax=10, qrate=.1),
 'C10': poly(['valid'], {'ptri', 'tri3', 'nothing', 'lost', 'crossing', 'interl', 'valid', 'contin', 'closed'}, dict(random=300), dict(random=8000), kinds=['setpt', 'append', 'move', 'rot', 'reverse', 'close'],
             nops=[0, 4], what=['ring', 'chain', 'free', 'free', 'soup'], nmax=8),
 'C11': poly(['shape'], {'convex', 'cw', 'ccw'}, dict(random=400), dict(random=12000), kinds=['move', 'rot', 'rotxy', 'mirror', 'setpt'], nops=[0, 5], what=['ring'], nmax=10),
 'C12': poly(['inside'], {'inside', 'outside', 'boundary'}, dict(random=200), dict(random=6000), kinds=['move', 'rot', 'mirror', 'setpt'], nops=[0, 3], what=['ring'], nmax=10, npts=10),
 'C13': poly(['area'], {'area2', 'tiles', 'ears'}, dict(random=60), dict(random=2500), kinds=['move', 'rot', 'mirror', 'setpt', 'setpt'], nops=[0, 3], what=['ring'], nmax=9, ears=.3),
 'C27': poly(['util'], {'outlier', 'simplify', 'walk', 'nocollin', 'collin3'}, dict(random=200), dict(random=6000), kinds=['move'], nops=[0, 1],
             what=['ring', 'shuffled', 'soup', 'soup', 'chain'], nmax=8, order=False),
 'C31': poly(['eq'], {'peq', 'pne', 'ptext', 'phash', 'ploose', 'ploosedir', 'psubset'}, dict(random=300), dict(random=8000), kinds=['move', 'rot', 'setpt', 'reverse'], nops=[0, 4],
             what=['ring', 'chain', 'soup', 'free'], nmax=7),
})
PTS_MC = dict(quick=[dict(module='MC_Pts')])
CHECKS['C05'] = dict(domain='pts', trace='TrPts', mc=PTS_MC, gen=dict(quick=[dict(module='MC_Pts', cfg='Gen_Pts.cfg', num=300, depth=8)],
                     thorough=[dict(module='MC_Pts', cfg='Gen_Pts.cfg', num=6000, depth=8)]), clauses=None,
                     args=dict(quick=dict(random=100), thorough=dict(random=4000, nops=10)))


def shp(groups, clauses, q, t, gen=None):
    c = dict(domain='shp', trace='TrShp', clauses=clauses, args=dict(common=dict(groups=groups), quick=q, thorough=t),
             mc=dict(quick=[dict(module='MC_Shp')], thorough=[dict(module='MC_Shp', cfg='MC_Shp_big.cfg', timeout=3000)]))
    if gen:
        c['gen'] = dict(quick=[dict(module='Gen_Shp', num=gen[0], depth=8)], thorough=[dict(module='Gen_Shp', num=gen[1], depth=8, timeout=3000)])
    return c


CHECKS.update({
 'C14': shp(['tri'], {'state', 'pure', 'overlap', 'congruent', 'enclosed', 'ttouch', 'tdisj', 'relpos', 'tarea2', 'istri', 'accepted', 'angles', 'quality', 'pdisj'},
            dict(random=60), dict(random=4000), gen=[300, 6000]),
 'C15': shp(['hull'], {'hull'}, dict(random=150), dict(random=6000)),
 'C32': shp(['sphere'], {'sphere'}, dict(random=150), dict(random=10000)),
 'C29': shp(['build'], {'nodes', 'chain', 'square', 'arc', 'arcshape', 'rotm'}, dict(random=100), dict(random=5000)),
})


VES_MC = dict(quick=[dict(module='MC_Ves')], thorough=[dict(module='MC_Ves'), dict(module='MC_Ves', cfg='MC_Ves_nest.cfg'),
                                                      dict(module='MC_Ves', cfg='MC_Ves_big.cfg', timeout=6000)])
NEST_MC = dict(VES_MC, quick=[dict(module='MC_Ves', cfg='MC_Ves_nest.cfg')])


def ves(groups, clauses, q, t, gen=(150, 1500), mc=VES_MC, **kw):
    c = dict(groups=groups)
    c.update(kw)
    c = dict(domain='ves', trace='TrVes', clauses=clauses, args=dict(common=c, quick=q, thorough=t))
    if mc:
        c['mc'] = mc
    if gen:
        c['gen'] = dict(quick=[dict(module='Gen_Ves', num=gen[0], depth=9)], thorough=[dict(module='Gen_Ves', num=gen[1], depth=9, timeout=3000)])
    return c


ALLFAM = ['stack', 'stz', 'nest', 'tower', 'two', 'neck', 'apart', 'shared', 'jacket', 'ring', 'krempe', 'deep', 'many']
CHECKS.update({
 'C16': ves(['shape'], {'head', 'size', 'attrs', 'pvalid', 'bottom', 'gname', 'state.part'}, dict(random=50), dict(random=3000), gen=None,
            families=['parts', 'parts', 'parts', 'stack', 'stz', 'jacket', 'ring'], qrate=.6, emax=10),
 'C17': ves(['samples'], {'samples'}, dict(random=50), dict(random=2500), gen=None, mc=None,
            families=['parts', 'parts', 'parts', 'stack', 'stz', 'neck', 'jacket', 'krempe', 'shared'], qrate=.6, emax=10),
 'C18': ves([], {'state.split', 'ret', 'state.build'}, dict(random=100), dict(random=5000), families=['parts', 'parts', 'parts', 'parts', 'stack', 'stz', 'shared', 'nest'], emax=10),
 'C19': ves([], {'state.build'}, dict(random=32), dict(random=1500), families=['jacket', 'ring', 'jacket', 'ring', 'stack', 'krempe']),
 'C20': ves(['rooms', 'repeat'], {'rooms', 'rnames', 'anew', 'state.build', 'state.rename'}, dict(random=20), dict(random=800), families=ALLFAM),
 'C21': ves(['walls'], {'outer', 'inner', 'whole', 'rgraph', 'rcycle', 'state.build'}, dict(random=22), dict(random=1000), mc=NEST_MC, families=ALLFAM),
 'C22': ves(['intex'], {'intex', 'state.build', 'state.rename'}, dict(random=24), dict(random=1000), families=ALLFAM),
 'C23': ves(['rel'], {'sic', 'contained', 'overlaps', 'allover', 'state.build'}, dict(random=22), dict(random=1000), mc=NEST_MC,
            families=['nest', 'tower', 'two', 'neck', 'apart', 'shared', 'deep', 'deep', 'many', 'jacket', 'ring', 'stack']),
 'C24': ves(['group'], {'numbered', 'adj', 'edgelist', 'degree', 'frompts', 'allsegs', 'gvalid', 'state.lines', 'repr'}, dict(random=20, lines=250), dict(random=300, lines=8000),
            gen=(60, 1000), mc=None, families=['stack', 'nest', 'jacket', 'shared', 'stz']),
 'C25': ves(['shape'], {'state.krempe', 'kshape', 'pvalid', 'attrs'}, dict(random=40), dict(random=1500), gen=None, mc=None, families=['krempe'], qrate=.5, emax=12),
 'C28': ves(['dict'], {'checker', 'missing', 'unknown'}, dict(random=35, checker=60), dict(random=1500, checker=2500), gen=None, mc=None, families=['parts'], qrate=1),
 'C30': ves(['shape', 'repeat', 'rooms', 'rel', 'walls', 'intex'], {'pure', 'repeats', 'state.lmove', 'state.lmirror', 'head', 'pvalid'}, dict(random=12, lines=100),
            dict(random=500, lines=3000), gen=(60, 800), mc=None, families=ALLFAM),
})
