"""vectors, rotations, precession, interpolation"""
from vprun import Task


def T(name, mode, src, note, *d, **k):
    return Task(name, 'vectors.cpp', src, 'sym', ['-DMODE=%d' % mode] + ['-D' + x for x in d], timeout=k.pop('timeout', 300), note=note, **k)


def tasks(tier):
    m, p = ['miscell.cpp'], ['miscell.cpp', 'precess.cpp', 'obliquit.cpp']
    t = [T('rotate', 0, m, 'any angle, any vector'), T('spin', 1, m, 'any matrix and angle'), T('small', 2, m, 'any vectors and matrices'),
         T('normalize', 3, m, 'any vector'), T('matrix_vector', 4, p, 'any matrix and vector'), T('ecliptic', 5, p, 'any vector'),
         T('ecl_j2000', 6, p, 'years -8000 to 12000'), T('eq_j2000', 7, p, 'years -8000 to 12000'),
         T('frames', 9, p, 'years -7999 to 11999'), T('obliquity', 10, ['obliquit.cpp'], '300 centuries'),
         T('nutation', 11, p, 'years -7999 to 11999, nutation up to 20 arcseconds'), T('ra_dec', 12, p, 'any direction, any matrix'),
         T('spline', 13, ['spline.cpp'], 'any table of 4 to 7 values'), T('sidereal', 15, m, 'JD -1000000 to 6000000')]
    t += [T('steps_ecl_%d' % n, 8, p, 'any sequence of %d calls among three epochs' % n, 'N_CALLS=%d' % n) for n in ((1, 2, 3) if tier == 'quick' else (1, 2, 3, 4))]
    t += [T('steps_eq_%d' % n, 8, p, 'any sequence of %d calls among three epochs' % n, 'N_CALLS=%d' % n, 'EQUATORIAL') for n in ((1, 2) if tier == 'quick' else (1, 2, 3))]
    t += [T('lagrange_%d' % n, 14, ['spline.cpp'], 'any polynomial of degree %d, from -1 to 8 by 1/6' % (n - 1), 'NPTS=%d' % n, 'XLO=-1', 'XHI=8') for n in range(2, 9)]
    return t
