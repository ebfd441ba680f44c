"""CLI commands of a running-config difference, executed by a device that has
the first config, lead to the second one."""
from .common import *
from vp import ios, iosdev
from .P20 import ordered_tree

CASES = {'quick': 8000, 'thorough': 150000}
RULE = 'at least one command has to be executed'


def generator(ctx):
    def gen(g):
        # sometimes mostly one family of commands
        g.focus = g.pick([None, None, None, 1, 2, 3, 4, 5, 5, 6])
        a = iosdev.gen_config(g)
        k = g.int(0, 9)
        b = iosdev.gen_config(g) if k == 0 else \
            iosdev.edit(g, a, 0, moves=k > 6)
        return {'a': a, 'b': b,
                'r1': ios.render(g, iosdev.tree(a), g.int(0, 1)),
                'r2': ios.render(g, iosdev.tree(b), g.int(0, 1))}
    return gen


def at(c, path):
    for p in path:
        c = (c or {}).get(p)
    return c or {}


def run(a, b, cli, what):
    # a line that moves is removed and added again, so nothing is kept then
    kept = ordered_tree(iosdev.tree(a), iosdev.tree(b))
    box = iosdev.Box(a, strict=kept)

    def watch(path, line):
        if kept:
            require(line not in at(b, path),
                    '%s removes %r, which is in both configs', what, line)
            for t in iosdev.VALUE:
                if line.startswith(t + ' '):
                    require(not any(x.startswith(t + ' ')
                                    for x in at(b, path)),
                            '%s removes %r, which is only overwritten', what,
                            line)
    try:
        box.run(cli, watch)
    except iosdev.Rejected as e:
        raise Violation('%s: %s' % (what, e))
    require(iosdev.canon(box.c) == iosdev.canon(b),
            '%s does not lead to the other config', what)


def check(ctx, case):
    from ncdiff import RunningConfigDiff
    a, b = case['a'], case['b']
    with sut('RunningConfigDiff.cli'):
        x = RunningConfigDiff(case['r1'], case['r2'])
        cli, rev = x.cli, x.cli_reverse
    run(a, b, cli, 'cli')
    run(b, a, rev, 'cli_reverse')
    if a == b and list(ios.canon(iosdev.tree(a))) == \
       list(ios.canon(iosdev.tree(b))) and iosdev.tree(a) == iosdev.tree(b):
        require(not cli and not rev, 'commands for equal configs')
    return bool(cli)
