"""RA/dec in astrometry records"""
from vprun import Task
SRC = ['mpc_fmt.cpp', 'mpc_code.cpp', 'snprintf.cpp']
RA = list(range(-7, 4)) + list(range(100, 110)) + list(range(200, 209)) + list(range(307, 313)) + [400, 401, 402]
DEC = list(range(-6, 3)) + list(range(100, 109)) + list(range(307, 312))


def T(name, note, *d, **k):
    return Task(name, 'radec.cpp', SRC, 'sym', ['-D' + x for x in d], timeout=300, note=note, **k)


def tasks(tier):
    t = []
    for k, r in enumerate(RA):
        d = DEC[k % len(DEC)]
        t.append(T('ra%d_dec%d' % (r, d), 'RA format %d with dec format %d: every digit and sign' % (r, d), 'RA_FMT=%d' % r, 'DEC_FMT=%d' % d))
    for lo, hi in ((32, 44), (44, 57)):
        for c in range(4):
            t.append(T('any%d_%d' % (lo, c), 'any text in columns %d-%d (case %d of 4)' % (lo, hi - 1, c), 'ANY=1', 'LO=%d' % lo, 'HI=%d' % hi, 'CLASS=%d' % c))
    return t
