"""Running-configs as trees of lines, independent of the code under test.

A tree is a list of [line, children].  The commands whose order has no meaning
are the ones runningconfig.py documents (ORDERLESS_COMMANDS); the table here
names them by sample commands and depth, so that a change of the code's own
table shows.
"""

ORDERLESS = {
    0: ['aaa authentication login %s', 'aaa accounting system default %s',
        'aaa attribute list %s', 'aaa group server radius %s',
        'radius server %s', 'logging host %s', 'flow exporter %s',
        'flow record %s', 'flow monitor %s', 'flow file-export %s',
        'dot1x %s', 'service-template %s', 'redundancy',
        'username %s', 'parameter-map type %s', 'l2nat instance %s',
        'crypto keyring %s', 'crypto tls-tunnel %s', 'vlan group %s',
        'router ospf %s', 'ip dns %s', 'ip route %s', 'ipv6 route %s',
        'ip multicast-routing %s', 'ipv6 multicast-routing %s',
        'ip pim vrf %s', 'ipv6 pim vrf %s', 'ip pim rp-address %s',
        'ipv6 pim rp-address %s', 'ip access-list %s', 'ipv6 access-list %s',
        'ip dhcp pool %s', 'ipv6 dhcp pool %s', 'ntp server %s',
        'mpls mldp static %s', 'mpls ldp advertise-labels for %s',
        'device-tracking binding %s', 'device classifier %s',
        'netconf-yang %s'],
    1: ['exporter %s', 'match ipv4 %s', 'match ipv6 %s', 'match protocol %s',
        'collect connection %s', 'inside from host %s',
        'outside from host %s', 'inside from network %s',
        'outside from network %s', 'inside from range %s',
        'outside from range %s', 'neighbor %s', 'ip helper-address %s',
        'route-target import %s', 'route-target export %s',
        'default-router %s', 'dns-server %s', 'domain-name %s', 'option %s',
        'lease %s', 'ip ospf message-digest-key %s', 'ospfv3 neighbor %s',
        'ospfv3 1 ipv4 neighbor %s', 'ospfv3 22 neighbor %s', 'area %s',
        'redistribute %s', 'distribute-list prefix-list %s', 'cdp tlv-type %s',
        'mac Regex %s', 'summary-address %s', 'member vni %s'],
    2: ['neighbor %s', 'no neighbor %s', 'redistribute %s',
        'bandwidth remaining ratio %s'],
    3: ['redistribute %s'],
    4: ['mobile-network pool %s', 'mobile-network v6pool %s'],
}
# the first ones are usual, the others have parts that mean something elsewhere
ARGS = ['one', 'two', 'six', 'ten']
ODD_ARGS = ['One', 'one two', 'one  two', 'on', '1', '10', '01', 'a!b', '! c',
            '% d', 'no one', 'exit', '+1', '- x', '?', 'a\tb', 'caf\u00e9',
            '"q"', '{x}', '%s', '\\1', 'one.', 'two!', 'end', 'exit-locator-set', 'x exit-address-family',
            'exit-router-lisp y']
ORDERED = ['hostname %s', 'line vty %s', 'interface %s', 'spanning %s',
           'vrf definition %s', 'class-map %s', 'policy-map %s', 'no %s',
           'banner %s', 'permit %s', 'deny ip any %s', 'x%s', '10 permit %s',
           'exec-timeout %s', '+ %s', '-%s', 'notify %s', 'exitpoint %s',
           'Interface %s', 'Building number of the site %s',
           'Current number of the sites %s', 'nocache %s', 'no neighbor %s', 'exporter %s',
           'ip  route %s', 'client-%s', 'description %s', 'endpoint %s']


def is_orderless(line, depth):
    """by the table above: words before the argument"""
    for t in ORDERLESS.get(depth, ()):
        head = t.replace('%s', '')
        if line.startswith(head):
            return True
    return False


def gen_line(g, depth, orderless_pct, used):
    for _ in range(4):
        a = g.pick(ARGS) if not g.chance(12) else g.pick(ODD_ARGS)
        if depth in ORDERLESS and g.chance(orderless_pct):
            t = g.pick(ORDERLESS[depth])
        else:
            t = g.pick(ORDERED)
        line = t % a if '%s' in t else t
        if line not in used:
            used.add(line)
            return line
    return None


SPECIAL = ['aaa server radius ', 'address-family ', 'locator-set ']


def special(line):
    for i, x in enumerate(SPECIAL):
        if line.startswith(x):
            return i
    return None


def gen_special(g, k=None):
    """sections that are written in a way of their own"""
    if k is None:
        k = g.int(0, 2)
    if k == 0:
        # clients are siblings, but written below the first one
        n = g.int(1, 3)
        return ['aaa server radius %s' % g.pick(ARGS),
                [['client 1%d.0.0.0 255.0.0.0' % i,
                  [['%s %s' % (g.pick(['timer', 'accounting port']), j), []]
                   for j in g.subset(ARGS)]]
                 for i in sorted(g.shuffle(range(4))[:n])]]
    if k == 1:
        return ['address-family %s' % g.pick(ARGS),
                [['%s %s' % (g.pick(['net', 'vpn']), j), []]
                 for j in g.subset(ARGS)] + [['exit-address-family', []]]]
    return ['locator-set %s' % g.pick(ARGS),
            [['%s %s' % (g.pick(['net', 'vpn']), j), []]
             for j in g.subset(ARGS)] + [['exit', []]]]


def gen_level(g, depth, orderless_pct, width=5, maxdepth=5):
    out = []
    if depth and g.chance(8):
        out = [gen_special(g)]
    used = set()
    n = g.int(1 if depth else 0, width)
    focus = g.pick(ORDERLESS[depth]) if depth in ORDERLESS and g.chance(30) \
        else None
    for _ in range(n):
        if focus and '%s' in focus and g.chance(60):
            line = focus % g.pick(ARGS)
            if line in used:
                continue
            used.add(line)
        else:
            line = gen_line(g, depth, orderless_pct, used)
        if line is None:
            continue
        kids = []
        if depth < maxdepth and g.chance(55 - 8 * depth):
            kids = gen_level(g, depth + 1, orderless_pct, max(2, width - 1),
                             maxdepth)
        out.append([line, kids])
    return out


def copy(t):
    return [[a, copy(b)] for a, b in t]


def edit(g, t, depth, orderless_pct, moves):
    """a changed copy"""
    out = copy(t)
    for _ in range(g.int(0, 2)):
        if out and g.chance(40):
            del out[g.int(0, len(out) - 1)]
        else:
            line = gen_line(g, depth, orderless_pct,
                            {x for x, _ in out} | {x for x, _ in t})
            if line is not None:
                out.insert(g.int(0, len(out)), [
                    line, gen_level(g, depth + 1, orderless_pct, 2, 5)
                    if depth < 4 and g.chance(40) else []])
    if moves and len(out) > 1 and g.chance(40):
        x = out.pop(g.int(0, len(out) - 1))
        out.insert(g.int(0, len(out)), x)
    for i in range(len(out)):
        k = special(out[i][0])
        if k is not None:
            if g.chance(35):
                out[i][1] = gen_special(g, k)[1]
        elif g.chance(35) and depth < 4:
            out[i] = [out[i][0],
                      edit(g, out[i][1], depth + 1, orderless_pct, moves)]
    return out


def permute_orderless(g, t, depth=0):
    """Only order that has no meaning changes: commands of the table move
    between their neighbours that are not in it."""
    out = []
    run = []

    def flush():
        while run:
            out.append(run.pop(g.int(0, len(run) - 1)))
    for a, b in t:
        x = [a, permute_orderless(g, b, depth + 1)]
        if is_orderless(a, depth):
            run.append(x)
        else:
            flush()
            out.append(x)
    flush()
    return out


def render(g, t, style, depth=0, pre=''):
    """style 0: plain, one space per level; 1: anything that has no meaning"""
    out = ''
    if depth == 0 and style and g.chance(30):
        out += 'Building configuration...\n\nCurrent configuration : %d bytes' \
            '\n!\n' % g.int(1, 9999)
    for a, b in t:
        if a == 'exit' and style:
            a = g.pick(['exit', 'exit-locator-set', 'exit-router-lisp'])
        if a == 'exit-address-family':
            # shown at the level of its section; running2list puts it back
            out += pre[:-1] + a + '\n'
            continue
        out += pre + a + (' ' * g.int(0, 2) if style else '') + '\n'
        step = ' ' * (g.int(1, 4) if style else 1)
        if b and any(x == 'exit-address-family' for x, _ in b):
            step = ' '
        elif b and all(x.startswith('client ') for x, _ in b) and \
                not any(z for _, y in b for _, z in y):
            out += render_clients(g, b, style, pre + step)
            continue
        elif style and b and all(not z for _, y in b for _, z in y) and \
                all(special(x) is None for x, _ in b) and g.chance(10):
            # children of children with less indentation than the children
            for x, y in b:
                out += pre + '    ' + x + '\n'
                for z, _ in y:
                    out += pre + ' ' * g.int(1, 3) + z + '\n'
            continue
        if style == 1 and g.chance(15):
            out += g.pick(['!\n', '\n', '  \n', pre + '!\n', '! note\n',
                           pre + step + '! x\n', '% Warning\n',
                           pre + ' % bad\n'])
        out += render(g, b, style, depth + 1, pre + step)
    if style and g.chance(20):
        out += pre + '!\n'
    return out


def render_clients(g, b, style, pre):
    if style and g.chance(50):
        # plainly, a mark after each
        return ''.join(
            pre + x + '\n' + ''.join(pre + ' ' + z + '\n' for z, _ in y) +
            pre + '!\n' for x, y in b)
    # as a device shows them
    out = pre + b[0][0] + '\n'
    pre += ' '
    out += ''.join(pre + z + '\n' for z, _ in b[0][1]) + pre + '!\n'
    for x, y in b[1:]:
        out += pre + x + '\n' + ''.join(pre + z + '\n' for z, _ in y) + \
            pre + '!\n'
    return out


def parse_diff_text(text):
    """str() of a diff: lines of a mark, a space and two spaces per level
    -> list of [line, children, mark]"""
    root = []
    stack = [root]
    for ln in text.splitlines():
        mark, rest = ln[0], ln[1:]
        line = rest.lstrip(' ')
        ind = len(rest) - len(line)
        if mark not in ' +-' or ind % 2 != 1:
            raise ValueError(ln)
        d = (ind - 1) // 2
        if d >= len(stack):
            raise ValueError(ln)
        del stack[d + 1:]
        x = [line.rstrip(), [], mark.strip()]
        stack[d].append(x)
        stack.append(x[1])
    return root


def canon(t):
    """as nested multisets"""
    return sorted((a, canon(b)) for a, b in t)


class BadPatch(Exception):
    pass


def strip(d):
    return [[x[0], strip(x[1] or [])] for x in d]


def patch(t, d):
    """tree t after the changes in d (marks '+', '-', ''), as multisets;
    the lines that stay are returned too, in the order of t"""
    t = copy(t)
    added = []
    for line, kids, mark in d:
        if mark == '+':
            added.append([line, strip(kids or [])])
        elif mark == '-':
            want = canon(strip(kids or []))
            for i, (a, b) in enumerate(t):
                if a == line and canon(b) == want:
                    del t[i]
                    break
            else:
                raise BadPatch('deletes %r, which is not there' % line)
        elif mark == '':
            for i, (a, b) in enumerate(t):
                if a == line:
                    t[i] = [a, patch(b, kids or [])[0]]
                    break
            else:
                raise BadPatch('mentions %r, which is not there' % line)
        else:
            raise BadPatch('unknown mark %r' % (mark,))
    return t + added, [a for a, _ in t]
