"""angles as text; search and replace"""
from vprun import Task
SRC = ['mpc_fmt2.cpp', 'snprintf.cpp']
FMTS = list(range(100, 117)) + list(range(200, 216)) + list(range(-7, 10)) + list(range(307, 313)) + [400, 401, 402]


def T(name, defs, note):
    return Task(name, 'angletext.cpp', SRC, 'sym', defs, timeout=300, note=note)


def tasks(tier):
    t = [T('fmt%d' % f, ['-DFMT=(%d)' % f], 'format %d, all angles' % f) for f in FMTS]
    t += [T('signed%d' % f, ['-DFMT=(%d)' % f, '-DSIGNED'], 'format %d, all angles, both signs' % f) for f in (0, 2, 5, -1, -3, 103, 112, 309)]
    t += [T('odd%d' % a, ['-DODD', '-DLO=(%d)' % a, '-DHI=(%d)' % b], 'formats %d to %d' % (a, b)) for a, b in ((-20, -8), (10, 30), (90, 99), (117, 125), (216, 220), (300, 306), (313, 320), (403, 410))]
    n = 6 if tier == 'quick' else 8
    t += [T('replace_%d%d%d' % (l, o, w), ['-DLEN=%d' % l, '-DOLDLEN=%d' % o, '-DNEWLEN=%d' % w], 'text of %d, old of %d, new of %d' % (l, o, w))
          for l in range(0, n) for o in (1, 2, 3) for w in (0, 1, 2, 3)]
    return t
