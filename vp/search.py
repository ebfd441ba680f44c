"""Search: random cases from recorded integer choices, and shrinking."""
import random
import time

from .gen import G, TooLong


class Found(Exception):
    def __init__(self, case, message):
        self.case = case
        self.message = message


def search(gen, run, n, seed, is_violation, stop_at=None):
    """run(case) raises an exception for which is_violation is true when the
    property fails.  Returns None or (case, message) after shrinking."""
    rnd = random.Random(seed)
    for i in range(n):
        if stop_at and time.time() > stop_at:
            return None
        g = G(random.Random(rnd.getrandbits(64)))
        try:
            case = gen(g)
        except TooLong:
            continue
        try:
            run(case)
        except Exception as e:
            if not is_violation(e):
                raise
            if type(e).__name__ == 'Hang':
                return case, str(e)
            return shrink(gen, run, g.log, case, str(e), is_violation)
    return None


def shrink(gen, run, choices, case, message, is_violation,
           seconds=60, tries=3000):
    """choice-sequence shrinking: shorter first, then smaller"""
    best = {'c': list(choices), 'case': case, 'msg': message}
    end = time.time() + seconds
    left = [tries]
    seen = set()

    def attempt(c):
        if left[0] <= 0 or time.time() > end:
            return False
        k = tuple(c)
        if k in seen:
            return False
        seen.add(k)
        left[0] -= 1
        g = G(None, c)
        try:
            case = gen(g)
        except Exception:
            return False
        # what was drawn may be shorter than what was offered
        log = g.log
        while log and log[-1] == 0:
            log = log[:-1]
        if (len(log), log) >= (len(best['c']), best['c']):
            return False
        try:
            run(case)
        except Exception as e:
            if not is_violation(e):
                return False
            best.update(c=log, case=case, msg=str(e))
            return True
        return False

    improved = True
    while improved and left[0] > 0 and time.time() < end:
        improved = False
        size = max(1, len(best['c']) // 2)
        while size >= 1:
            i = len(best['c']) - size
            while i >= 0:
                c = best['c']
                if attempt(c[:i] + c[i + size:]) or \
                   (any(c[i:i + size]) and
                        attempt(c[:i] + [0] * size + c[i + size:])):
                    improved = True
                    i = min(i, len(best['c'])) - size
                else:
                    i -= max(1, size // 2)
            size //= 2
        for i in range(len(best['c'])):
            if i >= len(best['c']):
                break
            v = best['c'][i]
            for w in sorted({0, v // 2, v - 1}):
                if 0 <= w < v:
                    c = best['c']
                    if i < len(c) and attempt(c[:i] + [w] + c[i + 1:]):
                        improved = True
                        break
    return best['case'], best['msg']
