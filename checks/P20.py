"""Difference of two running-configs: nothing but what differs, all of it."""
from .common import *
from vp import ios

CASES = {'quick': 4000, 'thorough': 60000}
RULE = 'the two configs differ, or differ in order or spelling only'


def generator(ctx):
    def gen(g):
        pct = g.pick([0, 40, 70])
        t1 = ios.gen_level(g, 0, pct, 6)
        kind = g.pick(['edit', 'edit', 'edit', 'same', 'new', 'near'])
        moves = False
        if kind == 'same':
            t2 = ios.permute_orderless(g, t1)
        elif kind == 'new':
            t2 = ios.gen_level(g, 0, pct, 6)
        elif kind == 'near':
            t2 = ios.permute_orderless(g, ios.edit(g, t1, 0, pct, False))
        else:
            moves = g.chance(50)
            t2 = ios.edit(g, t1, 0, pct, moves)
        return {'kind': kind, 't1': t1, 't2': t2,
                'r1': ios.render(g, t1, g.int(0, 1)),
                'r2': ios.render(g, t2, g.int(0, 1))}
    return gen


def plain(d):
    """the documented value of diff -> [line, children, mark]"""
    if d is None:
        return []
    out = []
    for item in d:
        require(len(item) == 3, 'an item of diff is %r', item)
        k, v, i = item
        out.append([k, plain(v), i])
    return out


def same_order(a, b):
    """lines common to a and b are in the same order in both"""
    sa, sb = set(a), set(b)
    return [x for x in a if x in sb] == [x for x in b if x in sa]


def ordered_tree(a, b):
    if not same_order([x for x, _ in a], [x for x, _ in b]):
        return False
    kb = dict((x, y) for x, y in b)
    return all(ordered_tree(y, kb[x]) for x, y in a if x in kb)


def exact(a, b):
    """what a difference must hold when common lines keep their order"""
    out = []
    ka = dict((x, y) for x, y in a)
    kb = dict((x, y) for x, y in b)
    for x, y in a:
        if x not in kb:
            out.append((x, ios.canon(y), '-'))
        elif ios.canon(y) != ios.canon(kb[x]):
            out.append((x, exact(y, kb[x]), ''))
    for x, y in b:
        if x not in ka:
            out.append((x, ios.canon(y), '+'))
    return sorted(out)


def exact_of(d):
    out = []
    for k, v, i in d:
        if i:
            out.append((k, ios.canon(ios.strip(v)), i))
        elif v:
            sub = exact_of(v)
            if sub:
                out.append((k, sub, ''))
    return sorted(out)


def kept_order(a, b, d, what):
    """lines that stay keep their order; by level"""
    gone = {k for k, v, i in d if i == '-'}
    new = {k for k, v, i in d if i == '+'}
    stay_a = [x for x, _ in a if x not in gone]
    stay_b = [x for x, _ in b if x not in new]
    return stay_a, stay_b


def check_order(a, b, d, what, depth=0):
    sa, sb = kept_order(a, b, d, what)
    sa = [x for x in sa if not ios.is_orderless(x, depth)]
    sb = [x for x in sb if not ios.is_orderless(x, depth)]
    require(sa == sb, '%s does not tell that lines changed their order: '
            '%r %r', what, sa, sb)
    # a line that moved is shown with the lines it moved across
    shown = {k for k, v, i in d if i == ''}
    la = [x for x, _ in a]
    lb = [x for x, _ in b]
    for k in {k for k, v, i in d if i == '-'} & \
            {k for k, v, i in d if i == '+'}:
        if la.count(k) != 1 or lb.count(k) != 1 or \
           ios.is_orderless(k, depth):
            continue
        i1 = sum(x in sa for x in la[:la.index(k)])
        i2 = sum(x in sb for x in lb[:lb.index(k)])
        for x in sa[min(i1, i2):max(i1, i2)]:
            require(x in shown, '%s: %r moved across %r, which is not shown',
                    what, k, x)
    ka = dict((x, y) for x, y in a)
    kb = dict((x, y) for x, y in b)
    for k, v, i in d:
        if i == '' and v and k in ka and k in kb:
            check_order(ka[k], kb[k], v, what + ' ' + k, depth + 1)


def laws(t1, t2, d, what):
    try:
        got, _ = ios.patch(t1, d)
    except ios.BadPatch as e:
        raise Violation('%s: %s' % (what, e))
    require(ios.canon(got) == ios.canon(t2),
            '%s: the marked lines do not lead to the other config', what)
    check_order(t1, t2, d, what)
    if ordered_tree(t1, t2):
        require(exact_of(d) == exact(t1, t2),
                '%s mentions lines that are in both configs', what)


def check(ctx, case):
    from ncdiff import RunningConfigDiff
    t1, t2 = case['t1'], case['t2']
    with sut('RunningConfigDiff'):
        x = RunningConfigDiff(case['r1'], case['r2'])
        first = str(x)
        d = plain(x.diff)
        r = plain(x.diff_reverse)
        cli, cli_r = x.cli, x.cli_reverse
        again = (str(x), plain(x.diff), plain(x.diff_reverse), x.cli,
                 x.cli_reverse)
        truth = bool(x)
        y = RunningConfigDiff(case['r1'], case['r2'])
        same = (x == y)
    require(again == (first, d, r, cli, cli_r),
            'the difference is not the same when asked again')
    require(x.running1 == case['r1'] and x.running2 == case['r2'],
            'the configs were changed')
    require(same, 'equal differences compare as different')
    require(truth == bool(d), 'truth value does not say if there is a diff')
    try:
        text = ios.parse_diff_text(first)
    except (ValueError, IndexError) as e:
        raise Violation('the text of the difference is malformed: %r' % e)
    if case['kind'] == 'same':
        require(not truth and first == '' and not cli and not r and not cli_r,
                'the configs mean the same but differ: %r', first)
        return t1 != t2 or case['r1'] != case['r2']
    ctx.label('no difference' if not d else 'difference')
    laws(t1, t2, d, 'diff')
    laws(t2, t1, r, 'diff_reverse')
    laws(t1, t2, text, 'str()')
    if case['kind'] == 'near':
        for z, a, b, what in ((d, t1, t2, 'diff'), (r, t2, t1, 'diff_reverse')):
            require(exact_of(z) == exact(a, b), '%s tells the order of lines '
                    'whose order has no meaning', what)
    return bool(d)
