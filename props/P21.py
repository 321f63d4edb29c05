"""two-body orbits"""
from vprun import Task


def T(name, mode, note, src=('astfuncs.cpp', 'miscell.cpp'), timeout=280, weak=(), opts={}, **k):
    return Task(name, 'orbit.cpp', list(src), 'sym', ['-DMODE=%d' % mode] + ['-D%s=%s' % x for x in k.items()], weak=weak, opts=opts, timeout=timeout, note=note)


def tasks(tier):
    t = [T('vectors', 0, 'any orientation')]
    t += [T('ellipse', 1, 'position and velocity, any ellipse', weak=('_Z6keplerdd',)),
          T('hyperbola', 2, 'position and velocity, any hyperbola', weak=('_Z6keplerdd',))]
    t += [T('parabola', 3, 'position and velocity, any parabola')]
    t += [T('sizes_%d' % k, 4, ('ellipse', 'parabola', 'hyperbola')[k], KIND=k, weak=('_Z19setup_orbit_vectorsP8elements',)) for k in range(3)]
    t += [T('anomaly', 5, 'mean anomaly from the time', weak=('_Z18comet_posn_part_iiPK8elementsdPdS2_',))]
    t += [T('compressed_%d' % k, 6, 'compressed elements', KIND=k) for k in range(2)]
    for k in range(3):
        n = 2 + (tier == 'thorough')
        t.append(T('kepler_%d' % k, 7, "Kepler's equation, up to %d iterations" % n, KIND=k,
                   opts=dict(lipschitz=True, quotients=True, branch_ms=400, nlsat_ms=6000, recent=(8, 9, 10, 11, 12, 14), cut={'_Z6keplerdd': n})))
    for k in range(2):
        t.append(T('shape_%d' % k, 8, 'elements from position and velocity', src=('classel.cpp', 'miscell.cpp'), KIND=k, opts=dict(normal=True, merge=False)))
        for j in (1, -1):
            t.append(T('shape_%d_planar_%d' % (k, j), 8, 'an orbit in the reference plane', src=('classel.cpp', 'miscell.cpp'), KIND=k, PLANAR='%d.' % j, opts=dict(normal=True, merge=False)))
    return t
