"""JD -> d/m/y -> JD, every calendar"""
from cal_common import *
R = 2 * 10 ** 9


def tasks(tier):
    t = []
    for c in (0, 1, 3, 4, 6, 8):
        r = R if tier == 'quick' else 10 ** 12
        if c in (4, 8):
            r = R         # approx_year() is only an approximate recurrence for these; beyond this the year search takes more steps
        t.append(caltask('rt_' + CALS[c], c, 1, -r, r, note='%s: every JD with |JD| <= %g' % (CALS[c], r)))
    t.append(caltask('rt_persian', 5, 1, 1547650, 2798238,
                     note='persian (astronomical): every JD of years -1096..2327 (JD 1547650..2798238)'))
    # Hebrew: blocks of 50 days
    heb = [(2436000, 2464000), (347998, 349500)] if tier == 'quick' else [(347998 + k * 20000, 347998 + (k + 1) * 20000 - 1) for k in range(140)]
    for lo, hi in heb:
        n = 8 if tier == 'quick' else 1
        w = (hi - lo) // n + 1
        for k in range(n):
            t.append(caltask('rt_hebrew_%d' % (lo + k * w), 2, 1, lo + k * w, lo + k * w + w - 1, ['-DBLOCK=50'], timeout=500 if tier == 'quick' else 3000,
                             note='hebrew: every JD from %d to %d, split into blocks of 50 days' % (lo + k * w, lo + k * w + w + 48)))
    chi = [(2436000, 2466000), (745500, 747000), (1424800, 1426800)] if tier == 'quick' else [(630000 + k * 30000, 630000 + (k + 1) * 30000 - 1) for k in range(121)]
    for lo, hi in chi:
        n = max(1, (hi - lo) // 7500)
        w = (hi - lo) // n + 1
        for k in range(n):
            a = lo + k * w
            t.append(caltask('rt_chinese_%d' % a, 7, 1, a, a + w - 1, opts=dict(max_fork=800), timeout=500 if tier == 'quick' else 3000,
                             note='chinese: every JD from %d to %d' % (a, a + w - 1)))
    return t
