"""dates in astrometry records"""
from vprun import Task
SRC = ['mpc_fmt.cpp', 'mpc_code.cpp', 'date.cpp', 'snprintf.cpp']


def T(name, note, *d, **k):
    src = k.pop('src', SRC)
    return Task(name, 'mpcdate.cpp', src, 'sym', ['-D' + x for x in d], timeout=k.pop('timeout', 300), note=note, **k)


def tasks(tier):
    t = []
    for f in list(range(7)) + list(range(13, 20)) + list(range(20, 24)) + list(range(32, 40)) + list(range(42, 50)) + [50]:
        t.append(T('fmt%d' % f, 'time format %d: every digit' % f, 'FMT=%d' % f))
    t.append(T('oct1582', 'every date in 1582', 'FMT=3', 'YEAR=1582'))
    t.append(T('radar_std', 'radar, standard format', 'FMT=6', "RADAR='R'", 'YEAR=2020'))
    for n in range(79, 84):
        t.append(T('any%d' % n, 'any record of %d bytes, not radar, no e/E in the date' % n, 'ANY=1', 'LEN=%d' % n, timeout=400, src=[x for x in SRC if x != 'date.cpp']))
    return t
