from vprun import Task
CALS = {0: 'gregorian', 1: 'julian', 2: 'hebrew', 3: 'islamic', 4: 'revolutionary', 5: 'persian', 6: 'julgreg',
        7: 'chinese', 8: 'modern_persian'}
NMON = {2: 13, 4: 13, 7: 13}
MAXDAY = {0: 31, 1: 31, 2: 30, 3: 30, 4: 30, 5: 31, 6: 31, 7: 30, 8: 31}


def caltask(name, cal, mode, lo, hi, extra=(), note=None, harness='cal.cpp', **kw):
    d = ['-DCAL=%d' % cal, '-DMODE=%d' % mode, '-DLO=%dL' % lo, '-DHI=%dL' % hi, '-DNMON=%d' % NMON.get(cal, 12),
         '-DMAXDAY=%d' % MAXDAY[cal]] + list(extra)
    kw.setdefault('timeout', 300)
    o = dict(summarize=False)
    o.update(kw.pop('opts', {}))
    return Task(name, harness, ['date.cpp'], 'sym', d, opts=o, note=note or '%s: every value from %d to %d' % (CALS[cal], lo, hi), **kw)
