"""agreement with independently published formulae"""
from cal_common import *


def tasks(tier):
    t = []
    H = 'cal_ref.cpp'
    for c in (0, 1, 3, 6, 8):
        t.append(caltask('ref_' + CALS[c], c, 0, -5000000, 5000000, harness=H, note='%s: |year| <= 5000000, months 1-12, days 1-31' % CALS[c]))
    t.append(caltask('ref_revolutionary', 4, 0, 1, 14, harness=H, note='revolutionary: every date of years 1-14'))
    cyc = [(280, 319)] if tier == 'quick' else [(k * 50, k * 50 + 49) for k in range(11)]
    for lo, hi in cyc:
        for ph in range(1, 20):
            t.append(caltask('ref_hebrew_%d_%d' % (ph, lo), 2, 0, lo, hi, ['-DSTEP=19', '-DPHASE=%d' % ph], harness=H, timeout=500 if tier == 'quick' else 3000,
                             note='hebrew: 1 Tishri of every year 19c+%d with c from %d to %d' % (ph, lo, hi)))
    # the limits of the postponement rules, over the whole 98496-year period
    for p in (9923, 9924, 16788, 16789, 19439, 19440):
        t.append(caltask('ref_hebrew_molad_%d' % p, 2, 0, 0, 5183, ['-DPARTS=%d' % p], harness=H, note='hebrew: every year of the 98496-year period whose molad is at %d parts' % p))
    return t
