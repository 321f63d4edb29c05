"""catalogue names and codes"""
from vprun import Task
SRC = ['mpc_fmt.cpp']


def T(name, defs, note):
    return Task(name, 'netname.cpp', SRC, 'sym', defs, timeout=300, note=note)


def tasks(tier):
    t = [T('any_code', ['-DMODE=0'], 'all 256 byte values')]
    step = 2
    for lo in range(0, 52, step):
        t.append(T('spell_%d' % lo, ['-DMODE=1', '-DLO=%d' % lo, '-DHI=%d' % (lo + step - 1)], 'codes %d-%d: any case, separators dropped or one added, .0 added' % (lo, lo + step - 1)))
    for n in range(0, 4 if tier == 'quick' else 7):
        t.append(T('any_text_%d' % n, ['-DMODE=2', '-DLEN=%d' % n], 'any text of %d characters' % n))
    for n in (79, 80, 120):
        t.append(T('long_%d' % n, ['-DMODE=3', '-DLEN=%d' % n], 'names of %d characters' % n))
    return t
