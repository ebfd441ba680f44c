"""Schemas for the checks on compiled models: more kinds of statements."""
from .schema import SNode as N, Identity, Type

T = {'string': 'dd', 'int': '10', 'enum': 'e2', 'boolean': 'true'}


def one_module(n):
    p = n
    while p.kind != 'root':
        if p.mod is not n.mod:
            return False
        p = p.parent
    return True


def in_default_case(n):
    p = n
    while p.kind != 'root':
        if p.kind == 'case' and p.parent.default == p.name:
            return True
        p = p.parent
    return False


def simple_type(r):
    k = r.choice(['string', 'int', 'boolean', 'enum'])
    return Type(k, ['e1', 'e2', 'e3'][:r.randint(2, 3)] if k == 'enum'
                else None)


def union(r, depth=0):
    return Type('union', [
        union(r, 1) if depth == 0 and r.random() < 0.2 else simple_type(r)
        for _ in range(r.randint(1, 4))])


def leaves(r, mod, names, depth=0):
    out = []
    for x in r.sample(names, r.randint(1, 3)):
        k = r.choice(['leaf', 'leaf', 'leaf-list', 'container', 'list',
                      'choice'] if depth < 2 else ['leaf', 'leaf-list'])
        if k == 'container':
            c = N(k, x, mod, leaves(r, mod, names, depth + 1),
                  presence=r.random() < 0.3)
        elif k == 'list':
            c = N(k, x, mod, [N('leaf', 'k1', mod, type=simple_type(r))] +
                  leaves(r, mod, names, depth + 1), keys=['k1'])
        elif k == 'choice':
            c = N(k, 'or-' + x, mod, [
                N('case', 'c-' + x, mod, [
                    N('leaf', 'in-' + x, mod, type=simple_type(r))]),
                N('case', 'd-' + x, mod, [
                    N('leaf', 'out-' + x, mod, type=simple_type(r))])])
        else:
            c = N(k, x, mod, type=simple_type(r))
            if k == 'leaf' and r.random() < 0.3:
                c.mandatory = True
            elif k == 'leaf' and r.random() < 0.3:
                c.default = T[c.type.kind]
        out.append(c)
    return out


def enrich(sch, r):
    """more kinds of nodes, in place; not for checks on data"""
    for n in list(sch.root.walk()):
        if not one_module(n) or n.is_key:
            continue
        if n.kind == 'leaf' and n.default is None and \
           not in_default_case(n) and r.random() < 0.2:
            n.mandatory = True
        if n.kind == 'choice' and n.default is None and \
           not in_default_case(n) and r.random() < 0.2:
            n.mandatory = True
        if n.kind in ('container', 'list', 'case') and not \
           (n.kind == 'case' and n.shorthand) and r.random() < 0.12:
            n.add(N(r.choice(['anydata', 'anyxml']), 'any-%d' % r.randint(
                0, 10 ** 6), n.mod, mandatory=n.kind == 'container' and
                not in_default_case(n) and r.random() < 0.3))
        if n.kind == 'container' and r.random() < 0.1:
            x = n.add(N('list', 'stat-%d' % r.randint(0, 10 ** 6), n.mod, [
                N('leaf', 'count', n.mod, type=Type('int'))], config=False))
            x.children[0].mod = n.mod
    for n in sch.root.walk():
        if n.type is not None and n.type.kind == 'union' and \
           n.default is None:
            n.type = union(r)
    # identities
    for k in range(r.randint(0, 4)):
        mod = r.choice(sch.modules)
        ok = [i for i in sch.identities
              if sch.modules.index(i.mod) <= sch.modules.index(mod)]
        bases = r.sample(ok, min(len(ok), r.choice([1, 1, 2]))) if ok else []
        # a base may not be derived from itself
        sch.identities.append(Identity(mod, 'more%d' % k, bases))
    sch.extra = N('root', None)
    names = ['ann', 'bob', 'cat', 'dog']
    for m in sch.modules:
        for k in range(r.choice([0, 1, 2])):
            if r.random() < 0.6:
                n = N('rpc', 'do-%d' % k, m)
                if r.random() < 0.8:
                    n.add(N('input', 'input', m, leaves(r, m, names)))
                if r.random() < 0.6:
                    n.add(N('output', 'output', m, leaves(r, m, names)))
            else:
                n = N('notification', 'ev-%d' % k, m,
                      leaves(r, m, names) if r.random() < 0.8 else [])
            sch.extra.add(n)
    return sch


# -- what a compiled model has to say -----------------------------------------

def access(n):
    p = n
    while p is not None:
        if p.kind in ('input', 'rpc'):
            return 'write'
        if p.kind in ('output', 'notification'):
            return 'read-only'
        p = p.parent
    return 'read-write' if n.effective_config else 'read-only'


def compiled_children(n):
    """children in the compiled tree (rpc: both input and output exist)"""
    out = list(n.children)
    if n.kind == 'rpc':
        for k in ('input', 'output'):
            if not any(c.kind == k for c in out):
                x = N(k, k, n.mod)
                x.parent = n
                out.append(x)
    return out


def values_of(t):
    if t.kind == 'boolean':
        return 'true|false'
    if t.kind == 'enum':
        return '|'.join(t.arg)
    if t.kind == 'union':
        return '|'.join(v for v in map(values_of, t.arg) if v)
    return ''


def base_name(t):
    return {'int': 'int32', 'enum': 'enumeration', 'idref': 'identityref',
            'iid': 'instance-identifier'}.get(t.kind, t.kind)


def expected(n, sp):
    """attributes the compiled node must have (None: must not)"""
    e = {'type': n.kind, 'access': access(n),
         'status': n.status if n.status in ('deprecated', 'obsolete')
         else None}
    if n.kind == 'case' and n.shorthand:
        del e['status']         # there is no such statement
    d = n.default
    e['default'] = None if d is None else ','.join(
        x if isinstance(x, str) else '%s:%s' % (
            sp.schema.by_name[x[1]].prefix, x[2])
        for x in (d if isinstance(d, list) else [d]))
    e['key'] = ' '.join(n.keys) if n.kind == 'list' and n.keys else None
    e['ordered-by'] = 'user' if n.user else None
    e['presence'] = 'true' if n.presence else None
    e['mandatory'] = 'true' if n.mandatory or n.is_key else None
    e['is_key'] = 'true' if n.is_key else None
    if n.kind in ('leaf', 'leaf-list'):
        if n in sp.leafrefs:
            e['values'] = None
        elif n in sp.typedefs:
            e['datatype'] = sp.typedefs[n]
        elif n.type.kind != 'idref':
            e['datatype'] = base_name(n.type)
        if n not in sp.leafrefs and n.type.kind != 'idref':
            e['values'] = values_of(n.type) or None
        e['unionmembertypes'] = sp.members.get(n)
    return e
