"""filter() keeps exactly what an XPath selects, and what places it."""
from .common import *
from vp.data import quote_literal

CASES = {'quick': 2500, 'thorough': 50000}
RULE = 'the expression selects at least one node and not the whole config'


def literal_ok(v):
    return isinstance(v, str) and v != '' and not ("'" in v and '"' in v)


def gen_path(g, sch, tree):
    """(list of steps) a step is [axis, module or None, name or '*',
    [[module, name, value]...]]; follows the data so that it often matches"""
    steps = []
    kids = tree
    s = sch.root
    axis = 'child'
    for depth in range(g.int(1, 5)):
        pool_ = kids
        if not kids or g.chance(5):
            if not s.data_children:
                break
            n = g.pick(s.data_children)
            d = None
        else:
            d = g.pick(pool_)
            n = d.s
        if g.chance(12) and depth:
            # skip a level: descendant axis
            if d is not None and d.kids:
                kids, s = d.kids, n
                axis = 'desc'
                continue
        preds = []
        if d is not None and n.kind in ('list', 'container') and \
           g.chance(60 if n.kind == 'list' else 10):
            leaves = [k for k in d.kids if k.s.kind in ('leaf', 'leaf-list')
                      and literal_ok(k.val)]
            if leaves:
                k = g.pick(leaves)
                v = k.val if not g.chance(10) else 'nope'
                preds.append([k.s.mod.name, k.s.name, v])
        name = n.name if not g.chance(7) else '*'
        steps.append([axis, n.mod.name if name != '*' else None, name,
                      preds])
        axis = 'child'
        if d is None:
            kids, s = [], n
        else:
            kids, s = d.kids, n
        if g.chance(25):
            break
    if steps and g.chance(15):
        last = steps[-1]
        last[0] = 'desc'
        steps = [last]
    if steps and steps[0][0] == 'desc' and steps[0][2] == '*':
        # //* also selects the config element itself
        steps[0][0] = 'child'
    return steps


def expr(sch, steps, absolute):
    o = ''
    for i, (axis, mod, name, preds) in enumerate(steps):
        sep = '//' if axis == 'desc' else '/'
        if i == 0:
            sep = ('/*/' if axis != 'desc' else '//') if absolute else \
                ('' if axis != 'desc' else './/')
        t = '*' if name == '*' else '%s:%s' % (sch.by_name[mod].prefix, name)
        o += sep + t
        for pm, pn, pv in preds:
            o += '[%s:%s=%s]' % (sch.by_name[pm].prefix, pn,
                                 quote_literal(pv))
    return o


def select(tree, steps):
    """ids of the selected nodes"""
    def desc(kids):
        for d in kids:
            yield d
            for x in desc(d.kids):
                yield x

    def match(d, st):
        axis, mod, name, preds = st
        if name != '*' and (d.s.name != name or d.s.mod.name != mod):
            return False
        for pm, pn, pv in preds:
            if not any(k.s.name == pn and k.s.mod.name == pm and k.val == pv
                       for k in d.kids):
                return False
        return True
    cur = [D(None, None, tree)]
    for st in steps:
        nxt = {}
        for c in cur:
            for d in (desc(c.kids) if st[0] == 'desc' else c.kids):
                if match(d, st):
                    nxt[id(d)] = d
        cur = list(nxt.values())
    return {id(d) for d in cur}


def keep(kids, sel):
    out = []
    for d in kids:
        if id(d) in sel:
            out.append(d.copy())
            continue
        sub = keep(d.kids, sel)
        if sub:
            if d.s.kind == 'list':
                have = {id(x) for x in d.kids if id(x) in sel}
                sub = [x.copy() for x in d.kids if x.s.is_key] + \
                      [x for x in sub if not x.s.is_key]
            out.append(D(d.s, d.val, sub))
    return out


def generator(ctx):
    names = pool(ctx.seed, ctx.shard, 8 if ctx.tier == 'quick' else 60,
                 rich_share=4)
    prof = Profile()

    def gen(g):
        name = g.pick(names)
        sch = schema(name)
        tree = gen_tree(g, sch, prof, g.pick([60, 45, 75]))
        paths = [[gen_path(g, sch, tree), g.chance(60)]
                 for _ in range(1 + (g.int(1, 2) if g.chance(25) else 0))]
        return {'schema': name, 'xml': render(sch, tree, gen_style(g)),
                'paths': paths}
    return gen


def check(ctx, case):
    sch = schema(case['schema'])
    dev = device(case['schema'])
    tree = normalise(parse(sch, case['xml']))
    cfg = mkconfig(dev, case['xml'])
    paths = [p for p in case['paths'] if p[0]]
    if not paths:
        return False
    xp = ' | '.join(expr(sch, s, a) for s, a in paths)
    sel = set()
    for s, a in paths:
        sel |= select(tree, s)
    with sut('xpath %s' % xp):
        nodes = cfg.xpath(xp)
    require(len(nodes) == len(sel), 'xpath %s returns %d nodes, expected %d',
            xp, len(nodes), len(sel))
    with sut('filter %s' % xp):
        f = cfg.filter(xp)
    got = parse_out(sch, f.ele, 'filter(%s)' % xp)
    want = keep(tree, sel)
    require(equal(got, want), 'filter(%s) keeps something else than what '
            'the expression selects', xp)
    require(equal(parse_out(sch, cfg.ele, 'config'), tree),
            'filter changed the config')
    with sut('filter twice'):
        f2 = f.filter('/*')
        require(equal(parse_out(sch, f2.ele, 'filter(/*)'), want),
                'filter(/*) is not the whole config')
        require(f <= cfg, 'filter(%s) is not contained in the config', xp)
        n = cfg.filter('count(//*)')
        require(equal(parse_out(sch, n.ele, 'filter(count)'), tree),
                'an expression that selects no nodes but a number changes '
                'the config')
    ctx.label('selected' if sel else 'nothing')
    return bool(sel) and not equal(want, tree)
