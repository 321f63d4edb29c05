"""months and years tile the day line; legal lengths"""
from cal_common import *


def tasks(tier):
    t = []
    for c in (0, 1, 3, 4, 6, 8):
        t.append(caltask('cont_' + CALS[c], c, 3, -5000000, 5000000, note='%s: every year with |year| <= 5000000' % CALS[c]))
    t.append(caltask('cont_persian', 5, 3, -1096, 2326, note='persian: every year from -1096 to 2326'))
    t.append(caltask('cont_persian_last', 5, 3, 2327, 2327, ['-DNOCONT'], note='persian: month lengths of the last supported year, 2327'))
    cyc = [(270, 319)] if tier == 'quick' else [(k * 50, k * 50 + 49) for k in range(11)]
    for lo, hi in cyc:
        for ph in range(1, 20):
            t.append(caltask('cont_hebrew_%d_%d' % (ph, lo), 2, 3, lo, hi, ['-DSTEP=19', '-DPHASE=%d' % ph], timeout=500 if tier == 'quick' else 3000,
                             note='hebrew: every year 19c+%d with c from %d to %d' % (ph, lo, hi)))
    rng = [(4500, 4690), (1826, 1830), (186, 189), (-363, -355), (9628, 9635)] if tier == 'quick' else [(k * 100 - 363, min(k * 100 - 264, 9635)) for k in range(100)]
    for lo, hi in rng:
        st = 64 if tier == 'quick' else 100
        for a in range(lo, hi, st):
            b = min(a + st - 1, hi)
            t.append(caltask('cont_chinese_%d' % a, 7, 3, a, b, opts=dict(max_fork=200), timeout=500 if tier == 'quick' else 3000,
                             note='chinese: every year from %d to %d' % (a, b)))
    return t
