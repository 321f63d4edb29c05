"""valid d/m/y -> JD -> d/m/y, every calendar"""
from cal_common import *


def tasks(tier):
    t = []
    for c in (0, 1, 3, 4, 6, 8):
        t.append(caltask('valid_' + CALS[c], c, 2, -5000000, 5000000, note='%s: every valid date with |year| <= 5000000' % CALS[c]))
    t.append(caltask('valid_persian', 5, 2, -1096, 2327, note='persian: every valid date of years -1096..2327'))
    rng = [(5700, 5795), (1, 20)] if tier == 'quick' else [(k * 100 + 1, k * 100 + 100) for k in range(100)]
    for lo, hi in rng:
        for a in range(lo, hi, 12 if tier == 'quick' else 100):
            b = min(a + (11 if tier == 'quick' else 99), hi)
            t.append(caltask('valid_hebrew_%d' % a, 2, 2, a, b, ['-DBLOCK=1'], timeout=500 if tier == 'quick' else 3000,
                             note='hebrew: every valid date of years %d..%d (one case per year)' % (a, b)))
    rng = [(4600, 4690), (1826, 1830), (-363, -355), (9628, 9635)] if tier == 'quick' else [(k * 100 - 363, k * 100 - 264) for k in range(100)]
    for lo, hi in rng:
        st = 30 if tier == 'quick' else 100
        for a in range(lo, hi, st):
            b = min(a + st - 1, hi)
            t.append(caltask('valid_chinese_%d' % a, 7, 2, a, b, ['-DBLOCK=1'], timeout=500 if tier == 'quick' else 3000,
                             note='chinese: every valid date of years %d..%d (one case per year)' % (a, b)))
    return t
