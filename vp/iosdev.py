"""A small IOS-like device: what configuration commands do to a config.

Families of commands, each with the meaning runningconfig.py documents:
  flag       present or not; "no X" removes it
  value      one value per key, overwritten by the next one (description ...)
  shortno    one value per key, removed by "no <key>" without the value
  grow       one value per key, a longer form replaces a shorter one
  coexist    short and long form are two independent lines
  hidden     on by default and not shown; "no X" is shown
  level      on by default and not shown, "X <level>" and "no X" are
  visible    always shown, as "X" or "no X"
  section    has a config of its own
  bind       refers to a section before it, which cannot be removed as long
             as the reference exists
Removing what is not there is an error.
A config is {line: None or config}.
"""

ARGS = ['one', 'two', '1', '10', '101', 'one1']
ODD = ['exit-locator-set', 'exit-address-family x', 'no one', 'no no one', 'x no no x', '! c', 'a ! b', '% d', 'One', 'one two', 'exit', 'description',
       'description one', 'no description one', '0 one', '7 one', '-', '+ x',
       'one  two', 'username adm privilege 15 password one', '.*', 'a(b', '\\1']
FLAG = ['feature %s', 'notify %s', 'nocache no %s', 'ntp peer 10.0.0.%s',
        'logging buffered-%s', 'x%s',
        'aaa group %s new-model']
VALUE = ['description', 'password', 'username adm privilege 15 password',
         'username ops privilege 01 password']
SHORTNO = ['transport input', 'transport output', 'license boot level',
           'ip address', 'ipv6 address']
GROW = ['service timestamps log', 'service timestamps debug',
        'exception crashinfo']
COEXIST = ['snmp-server manager', 'ip multicast-routing',
           'ip dhcp relay information option']
HIDDEN = ['ip redirects', 'negotiation auto', 'cdp enable']
LEVEL = ['logging console', 'logging monitor', 'logging buffer']
VISIBLE = ['platform punt-keepalive disable-kernel-core', 'shutdown']
SECTION = ['interface %s', 'class-map match-%s', 'router lisp-%s',
           'sub block %s']


def gen_config(g, depth=0, width=7):
    c = {}
    for _ in range(g.int(0 if depth else 1, width)):
        gen_into(g, c, depth)
    for x in VISIBLE:
        # always shown
        if not any(y in c for y in (x, 'no ' + x)):
            c[g.pick([x, 'no ' + x])] = None
    items = g.shuffle(list(c.items()))
    return binds(dict(items))


def binds(c):
    """only references to sections before them"""
    out = {}
    for k, v in c.items():
        if not k.startswith('bind ') or k[5:] in out:
            out[k] = v
    return out


def gen_into(g, c, depth):
    """one more command (or another value)"""
    k = g.int(0, 9 if depth < 3 else 6)
    focus = getattr(g, 'focus', None)
    if focus is not None and g.chance(70):
        k = focus
    a = g.pick(ARGS)
    if k == 9:
        heads = [x for x in c if c[x] is not None]
        if heads:
            x = g.pick(heads)
            if 'bind ' + x not in c:
                c['bind ' + x] = None
    elif k == 0:
        c[g.pick(FLAG) % a] = None
    elif k in (1, 2):
        t = g.pick(VALUE if k == 1 else SHORTNO)
        for x in list(c):
            if x.startswith(t + ' ') and c[x] is None:
                del c[x]
        v = a
        if k == 1 and g.chance(30):
            v = g.pick(ODD)
        if t in ('ip address', 'ipv6 address'):
            v = '10.0.0.%s 255.0.0.0' % a
        c['%s %s' % (t, v)] = None
    elif k == 3:
        t = g.pick(GROW)
        for x in list(c):
            if (x + ' ').startswith(t + ' '):
                del c[x]
        c[t + g.pick(['', ' datetime', ' datetime msec',
                      ' datetime msec year', ' uptime'])] = None
    elif k == 4:
        t = g.pick(COEXIST)
        if t not in c and t + ' timeout 100' in c:
            return
        c[t] = None
        if g.chance(50):
            c[t + ' timeout 100'] = None
    elif k == 5:
        t = g.pick(HIDDEN + LEVEL)
        if t in LEVEL:
            for x in list(c):
                if x == 'no ' + t or x.startswith(t + ' '):
                    del c[x]
            c[g.pick(['no %s', '%s warnings', '%s debugging']) % t] = None
        else:
            c['no ' + t] = None
    elif k == 6:
        x = g.pick(VISIBLE)
        c.pop(x, None)
        c.pop('no ' + x, None)
        c[g.pick([x, 'no ' + x])] = None
    else:
        c[g.pick(SECTION) % a] = gen_config(g, depth + 1, 4)


def drop(g, c):
    if not c:
        return
    x = g.pick(list(c))
    if x in VISIBLE or x[3:] in VISIBLE:
        return
    if x in COEXIST:
        c.pop(x + ' timeout 100', None)
    c.pop('bind ' + x, None)
    del c[x]


def copy(c):
    return {k: None if v is None else copy(v) for k, v in c.items()}


def edit(g, c, depth=0, moves=False):
    orig = c
    c = copy(c)
    for _ in range(g.int(0, 3)):
        if g.chance(45):
            drop(g, c)
        elif g.chance(5):
            # the long form instead of the short one
            for t in COEXIST:
                x = t + ' timeout 100'
                if t in c and t in orig and x not in c and x not in orig:
                    c = {x if k == t else k: v for k, v in c.items()}
        else:
            before = list(c)
            gen_into(g, c, depth)
            new = [x for x in c if x not in before]
            if new:
                # somewhere
                items = [(k, v) for k, v in c.items() if k not in new]
                at = g.int(0, len(items))
                c = dict(items[:at] + [(k, c[k]) for k in new] + items[at:])
    for k in list(c):
        if c[k] is not None and g.chance(50):
            c[k] = edit(g, c[k], depth + 1, moves)
    if moves and g.chance(50):
        items = list(c.items())
        if items:
            x = items.pop(g.int(0, len(items) - 1))
            # what has references stays where it is
            if x[0][:5] != 'bind ' and 'bind ' + x[0] not in c:
                items.insert(g.int(0, len(items)), x)
                c = dict(items)
    return binds(c)


def tree(c):
    return [[k, tree(v) if v else []] for k, v in c.items()]


class Rejected(Exception):
    pass


def section_head(line):
    return any(line.startswith(t.replace('%s', '')) for t in SECTION) and \
        line.split('-')[-1].split(' ')[-1] in ARGS


class Box:
    """one mode"""

    def __init__(self, c, strict=True):
        self.c = copy(c)
        self.strict = strict    # references are enforced

    def run(self, text, watch=None):
        """execute commands; watch(path, line) for every line removed"""
        stack = [(-1, self.c, ())]
        seen = set()
        for raw in text.splitlines():
            line = raw.strip()
            if not line:
                continue
            if line == '!':
                del stack[1:]
                continue
            ind = len(raw) - len(raw.lstrip(' '))
            while stack[-1][0] >= ind:
                stack.pop()
            if stack[-1][1] is None:
                raise Rejected('%r is given inside of %r, which has no '
                               'commands' % (line, stack[-1][2][-1]))
            mode, path = stack[-1][1], stack[-1][2]
            sub = self.execute(mode, line, path, watch)
            if sub is None:
                if (path, line) in seen:
                    raise Rejected('%r is given twice' % line)
                seen.add((path, line))
            stack.append((ind, sub, path + (line,)))

    def execute(self, c, line, path, watch):
        def remove(x):
            if x in c:
                if self.strict and 'bind ' + x in c:
                    raise Rejected('%r is in use' % x)
                if watch:
                    watch(path, x)
                del c[x]

        if line.startswith('no '):
            x = line[3:]
            before = len(c)
            if x in VISIBLE:
                if 'no ' + x not in c:
                    remove(x)
                    c['no ' + x] = None
            elif x in HIDDEN:
                c['no ' + x] = None
            elif x in LEVEL:
                for y in list(c):
                    if y.startswith(x + ' '):
                        del c[y]
                before = -1
                c['no ' + x] = None
            elif any(x.startswith(t + ' ') for t in LEVEL):
                remove(x)
            elif x in SHORTNO:
                for y in list(c):
                    if y.startswith(x + ' '):
                        remove(y)
            elif any(x.startswith(t + ' ') for t in SHORTNO):
                raise Rejected('%r has to be given without its value' % line)
            elif any((x + ' ').startswith(t + ' ') for t in GROW):
                t = [t for t in GROW if (x + ' ').startswith(t + ' ')][0]
                for y in list(c):
                    if (y + ' ').startswith(t + ' '):
                        remove(y)
            elif any(x.startswith(t + ' ') for t in VALUE):
                t = [t for t in VALUE if x.startswith(t + ' ')][0]
                for y in list(c):
                    if y.startswith(t + ' '):
                        remove(y)
            elif x in COEXIST or x[:-12] in COEXIST:
                for y in list(c):
                    if (y + ' ').startswith(x + ' '):
                        remove(y)
            elif section_head(x) or x.startswith('bind ') or \
                    any(x == t % a for t in FLAG for a in ARGS):
                remove(x)
            else:
                raise Rejected('unknown command %r' % line)
            if x not in VISIBLE and x not in HIDDEN and len(c) == before:
                raise Rejected('%r: there is no such config' % line)
            return None
        if line in VISIBLE:
            if 'no ' + line in c:
                remove('no ' + line)
            c.setdefault(line, None)
            return None
        if line in HIDDEN:
            remove('no ' + line)
            return None
        for t in LEVEL:
            if (line + ' ').startswith(t + ' '):
                for y in list(c):
                    if y == 'no ' + t or y.startswith(t + ' '):
                        del c[y]
                if line != t:
                    c[line] = None
                return None
        for t in VALUE + SHORTNO:
            if line.startswith(t + ' '):
                for y in list(c):
                    if y.startswith(t + ' ') and y != line:
                        del c[y]
                c[line] = None
                return None
        for t in GROW:
            if (line + ' ').startswith(t + ' '):
                for y in list(c):
                    if (y + ' ').startswith(t + ' ') and y != line:
                        del c[y]
                c[line] = None
                return None
        if line in COEXIST or (line[-12:] == ' timeout 100' and
                               line[:-12] in COEXIST):
            c[line] = None
            return None
        if line.startswith('bind '):
            if self.strict and line[5:] not in c:
                raise Rejected('%r refers to nothing' % line)
            c[line] = None
            return None
        if section_head(line):
            if line not in c:
                # as after power on
                c[line] = {'no ' + x: None for x in VISIBLE}
            return c[line]
        if any(line == t % a for t in FLAG for a in ARGS):
            c[line] = None
            return None
        raise Rejected('unknown command %r' % line)


def canon(c):
    return {k: None if v is None else canon(v) for k, v in c.items()}
