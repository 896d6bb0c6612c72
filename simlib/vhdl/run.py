"""Runs generated designs in nvc and compares them with the reference."""
import os, re
from collections import Counter
from .. import nvcsim

UNIT = {'fs': 1, 'ps': 10**3, 'ns': 10**6, 'us': 10**9, 'ms': 10**12, 'sec': 10**15, 's': 10**15}
NOTE = re.compile(r'^\*\* Note: (\d+)(fs|ps|ns|us|ms|sec|s)\+(\d+): (.*)$')


def parse(text):
    """[(time in fs, delta, message)] and the other lines."""
    obs, other = [], []
    for line in text.splitlines():
        m = NOTE.match(line)
        if m:
            obs.append((int(m.group(1)) * UNIT[m.group(2)], int(m.group(3)), m.group(4)))
        elif line.startswith('** ') and not line.startswith('** Debug:') \
                and '--shuffle option' not in line:
            other.append(line)
    return obs, other


def groups(obs, scale=1, late=()):
    """[(time, Counter of messages)] one per simulation cycle that reports anything.

    Which delta cycle is the last one is left open, so reports of postponed
    processes (`late`) form a group of their own at the end of each time."""
    out, last, end = [], None, Counter()
    for t, d, m in obs:
        if last is not None and t != last[0] and end:
            out.append((last[0] * scale, end))
            end = Counter()
        if m[:m.find('.')] in late:
            end[m] += 1
            last = last if last and last[0] == t else (t, None)
            continue
        if (t, d) != last:
            out.append((t * scale, Counter()))
            last = (t, d)
        out[-1][1][m] += 1
    if end:
        out.append((last[0] * scale, end))
    return out


def diff(want, got):
    """First difference as text, or None."""
    for i in range(max(len(want), len(got))):
        if i >= len(want):
            return 'unexpected cycle at %d fs: %s' % (got[i][0], sorted(got[i][1])[:3])
        if i >= len(got):
            return 'missing cycle at %d fs: %s' % (want[i][0], sorted(want[i][1])[:3])
        (t1, m1), (t2, m2) = want[i], got[i]
        if t1 != t2:
            return 'expected a cycle at %d fs with %s, found one at %d fs with %s' % (
                t1, sorted(m1)[:3], t2, sorted(m2)[:3])
        if m1 != m2:
            return 'at %d fs expected %s but found %s' % (
                t1, sorted((m1 - m2).elements())[:4], sorted((m2 - m1).elements())[:4])
    return None
