"""time scales"""
from vprun import Task
SRC = ['delta_t.cpp']


def T(name, mode, note, *d, **k):
    return Task(name, 'timescale.cpp', SRC, 'sym', ['-DMODE=%d' % mode] + ['-D' + x for x in d], timeout=k.pop('timeout', 300), note=note, **k)


def tasks(tier):
    t = [T('leap_seconds', 0, 'every instant from 1972 January 1 to 2021 December 1'), T('utc_1961', 1, 'every instant from 1961 to 1972'),
         T('utc_ut1', 2, 'every instant before 1961'), T('no_prediction', 4, 'every instant after the end of predictions'),
         T('own_formula', 7, 'two-part formulae, any one-decimal coefficients'), T('tdb', 9, '200 centuries'), T('tdb_utc', 10, '200 centuries')]
    rng = [(y, y + 19) for y in range(2022, 2102, 20)] if tier == 'quick' else [(y, y + 19) for y in range(2022, 2502, 20)]
    t += [T('predicted_%d' % lo, 3, 'years %d-%d' % (lo, hi), 'YLO=%d' % lo, 'YHI=%d' % hi) for lo, hi in rng]
    t += [T('table_%d' % lo, 5, 'years %d-%d' % (lo, hi), 'YLO=%d' % lo, 'YHI=%d' % hi) for lo, hi in ((1620, 1700), (1700, 1800), (1800, 1900), (1900, 2024), (2024, 9999))]
    t += [T('era%d' % e, 6, 'years %d-%d' % (lo, hi), 'ERA=%d' % e, 'YLO=%d' % lo, 'YHI=%d' % hi) for e, lo, hi in ((0, -9999, -500), (1, -500, 500), (2, 500, 1600), (3, 1600, 1620))]
    t += [T('any_formula_%d' % n, 8, 'any text of %d characters' % n, 'LEN=%d' % n) for n in range(0, 6 if tier == 'quick' else 8)]
    return t
