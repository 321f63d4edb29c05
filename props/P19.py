"""Easter"""
from vprun import Task


def tasks(tier):
    t = []
    for g, name, a, b in ((1, 'gregorian', 15, 100 if tier == 'quick' else 400), (0, 'julian', 3, 30 if tier == 'quick' else 120)):
        step = 8
        for lo in range(a, b, step):
            hi = min(lo + step - 1, b - 1)
            t.append(Task('%s_%d' % (name, lo), 'easter.cpp', ['easter.cpp'], 'sym', ['-DGREGORIAN=%d' % g, '-DCLO=%d' % lo, '-DCHI=%d' % hi],
                          timeout=300, note='years %d-%d' % (lo * 100, hi * 100 + 99)))
    for m in range(3):
        # in the last, the equation of time itself is replaced by any slowly changing function
        t.append(Task('mars_%d' % m, 'mars.cpp', ['marstime.cpp'], 'sym', ['-DMODE=%d' % m], timeout=300, weak=('_Z37mars_true_solar_minus_mean_solar_timed',) if m == 2 else (),
                      note=('MTC', 'equation of time', 'inverse of true solar time')[m]))
    return t
