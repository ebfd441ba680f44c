"""Adding an edit-config (any mixture of operations and insert attributes) to
a config does what an independent NETCONF server does, errors included."""
from .common import *
from vp.data import quote_literal, value_text, find, ident, key_values

CASES = {'quick': 3000, 'thorough': 60000}
RULE = ('the edit carries at least one operation or insert attribute and '
        'either changes the config or is rejected')
OPS = ['merge', 'replace', 'remove', 'delete', 'create']


def anchor_attr(g, sch, d, st, pool_):
    """attribute that names another entry (or a missing one)"""
    others = [x for x in pool_ if x.s is d.s]
    if not others:
        return {}
    o = g.pick(others)
    if d.s.kind == 'leaf-list':
        return {'yang:value': value_text(sch, o, st, True)[0]}
    preds = ''
    for k, v in zip(d.s.key_nodes, key_values(o)):
        name = k.name
        if st.mode != 0:
            name = '%s:%s' % (st.prefix(k.mod), k.name)
        kd = D(k, v)
        text = value_text(sch, kd, st, True)[0]
        if "'" in text and '"' in text:
            return {}
        preds += '[%s=%s]' % (name, quote_literal(text))
    return {'yang:key': preds}


def other_case(x, d):
    cases = dict(d.s.cases)
    return any(cases.get(ch, ca) is not ca for ch, ca in x.s.cases)


def annotate(g, sch, kids, have, st, attrs, rate, depth=0):
    gone = set()
    for x in have:
        # nodes of the case that another one takes the place of
        if rate and any(other_case(x, d) for d in kids if id(d) not in gone) \
           and g.chance(40):
            e = x.copy()
            first = g.chance(50)
            kids.insert(0 if first else g.int(0, len(kids)), e)
            attrs[id(e)] = {'nc:operation': 'delete' if first else 'remove'}
            gone.add(id(e))
    for d in kids:
        if d.s.is_key or id(d) in gone:
            continue
        a = {}
        old = find(have, d)
        op = None
        if g.chance(rate):
            if old is not None:
                op = g.pick(['merge', 'replace', 'remove', 'delete',
                             'delete', 'replace'] +
                            (['create'] if g.chance(10) else []))
            else:
                op = g.pick(['merge', 'replace', 'create', 'remove',
                             'create', 'replace'] +
                            (['delete'] if g.chance(10) else []))
            if g.chance(1):
                op = 'bogus'
            a['nc:operation'] = op
        if d.s.kind in ('list', 'leaf-list') and \
           (d.s.user or g.chance(3)) and \
           op not in ('delete', 'remove') and g.chance(55):
            ins = g.pick(['first', 'last', 'before', 'after', 'after'])
            a['yang:insert'] = ins
            if ins in ('before', 'after') and not g.chance(2):
                # entries that exist before the edit, sometimes others
                p = have if not g.chance(25) else have + kids
                more = anchor_attr(g, sch, d, st, p)
                if not more:
                    a['yang:insert'] = 'last'
                a.update(more)
        if a:
            attrs[id(d)] = a
        if op in ('delete', 'remove') and g.chance(70):
            d.kids[:] = [k for k in d.kids if k.s.is_key]
        if op in (None, 'merge'):
            annotate(g, sch, d.kids, old.kids if old is not None else [],
                     st, attrs, rate, depth + 1)


def generator(ctx):
    names = pool(ctx.seed, ctx.shard, 8 if ctx.tier == 'quick' else 60)
    prof = Profile()

    def gen(g):
        name = g.pick(names)
        sch = schema(name)
        src = gen_tree(g, sch, prof)
        if g.chance(70):
            edit = mutate_tree(g, sch, src, prof, raw=True)
        else:
            edit = gen_tree(g, sch, prof, raw=True)
        st = gen_style(g, shuffle=False)
        st.mods = sch.modules
        if g.chance(15):
            st.comment = g.int(2, 9999)
        attrs = {}
        annotate(g, sch, edit, src, st, attrs, g.pick([25, 10, 50, 0]))
        return {'schema': name,
                'src': render(sch, src, gen_style(g)),
                'edit': render(sch, edit, st, attrs)}
    return gen


def check(ctx, case):
    from lxml import etree
    from ncdiff import ConfigDelta
    from ncdiff.errors import ConfigError, ConfigDeltaError
    sch = schema(case['schema'])
    dev = device(case['schema'])
    src_t = normalise(parse(sch, case['src']))
    src = mkconfig(dev, case['src'])
    edit = etree.XML(case['edit'], etree.XMLParser(
        remove_comments=True, remove_pis=True))
    server = Server(sch)
    want = None
    try:
        want = normalise(server.apply(src_t, edit))
    except EditError as e:
        error = e
    for how in ('Config + edit', 'ConfigDelta(delta=edit)'):
        try:
            if how == 'Config + edit':
                got = src + etree.XML(case['edit'])
            else:
                d = ConfigDelta(config_src=src, delta=case['edit'])
                got = d.config_dst
        except (ConfigError, ConfigDeltaError) as e:
            require(want is None, '%s is rejected (%s) but is valid', how,
                    str(e)[:300])
            continue
        except Exception as e:
            raise Violation('%s raised %s: %s' % (how, type(e).__name__,
                                                  str(e)[:300]))
        require(want is not None,
                '%s is accepted, a server reports %s', how,
                '' if want is not None else str(error))
        got_t = normalise(parse_out(sch, got.ele, how))
        require(equal(got_t, want),
                '%s differs from what a server makes of the edit', how)
    if want is None:
        ctx.label('error:' + error.tag)
    for k in server.stats:
        ctx.label(k)
    return bool(server.stats) and (want is None or not equal(want, src_t))
