"""pack -> unpack of every class of designation"""
from vprun import Task
SRC = ['mpc_fmt.cpp', 'unpack.cpp', 'snprintf.cpp']


def T(name, note, *d, **k):
    return Task(name, 'desig_rt.cpp', SRC, 'sym', ['-D' + x for x in d], timeout=k.pop('timeout', 250), note=note, **k)


def tasks(tier):
    t = []
    for nd in (1, 2, 3, 4, 5, 7, 8):
        t.append(T('number%d' % nd, 'every numbered asteroid with %d digits (below 620000 + 62^4)' % nd, 'SHAPE=1', 'NDIG=%d' % nd))
    for f in range(1, 10):
        t.append(T('number6_%d' % f, 'every numbered asteroid from %d00000 to %d99999' % (f, f), 'SHAPE=1', 'NDIG=6', 'FIRST=%d' % f))
    t.append(T('prov0', 'provisional designations 1600-2099 without a number', 'SHAPE=9'))
    for nd in (1, 2, 3):
        t.append(T('prov%d' % nd, 'provisional designations 1600-2099 with a %d-digit number below 620' % nd, 'SHAPE=2', 'NDIG=%d' % nd))
        t.append(T('comet%d' % nd, 'comet designations (P/ C/ X/ D/ A/) 1600-2099, %d-digit number below 620' % nd, 'SHAPE=4', 'NDIG=%d' % nd))
        t.append(T('cometfrag%d' % nd, 'the same with a fragment letter', 'SHAPE=4', 'NDIG=%d' % nd, 'FRAG=1'))
        t.append(T('natsat%d' % nd, 'provisional satellites 1901-2099, eight planets, %d-digit number below 620' % nd, 'SHAPE=7', 'NDIG=%d' % nd))
        t.append(T('artsat%d' % nd, 'artificial satellites 1957-2099 with %d letters' % nd, 'SHAPE=8', 'NDIG=%d' % nd))
    for nd in (1, 2, 3, 4):
        for f in range(3):
            t.append(T('cometno%d_%d' % (nd, f), 'numbered comets with %d digits and %d fragment letters' % (nd, f), 'SHAPE=5', 'NDIG=%d' % nd, 'FRAG=%d' % f))
    t.append(T('survey', 'the four survey designations, numbers 1000-8999', 'SHAPE=6'))
    for f in range(7, 10):
        t.append(T('ext3_%d' % f, 'extended provisional designations 2000-2061, numbers %d00-%d99' % (f, f), 'SHAPE=3', 'NDIG=3', 'FIRST=%d' % f))
    t.append(T('ext4', 'extended provisional designations, 4-digit numbers', 'SHAPE=3', 'NDIG=4', weight=3))
    t.append(T('ext5', 'extended provisional designations, 5-digit numbers', 'SHAPE=3', 'NDIG=5', weight=5))
    t.append(T('ext6_1', 'extended provisional designations, numbers 100000-199999', 'SHAPE=3', 'NDIG=6', 'FIRST=1', weight=3))
    t.append(T('ext3_6', 'extended provisional designations, numbers 620-699', 'SHAPE=3', 'NDIG=3', 'FIRST=6', weight=9))
    if tier != 'quick':
        for f in (2, 3, 4):
            t.append(T('ext6_%d' % f, 'extended provisional designations, numbers %d00000-%d99999' % (f, f), 'SHAPE=3', 'NDIG=6', 'FIRST=%d' % f, weight=3))
        t.append(T('ext6_edge', 'extended provisional designations around the largest one possible', 'SHAPE=3', 'NDIG=6', 'PREFIX="59167"', timeout=3000, weight=3))
        t.append(T('ext6_5', 'extended provisional designations, numbers from 500000', 'SHAPE=3', 'NDIG=6', 'FIRST=5', timeout=6000, weight=9))
    for p in range(8):
        lo, hi = (1, 999) if tier != 'quick' else (1 + p * 124, min(999, 124 + p * 124 + (7 if p == 7 else 0)))
        t.append(Task('natsatno_%d' % p, 'natsat.cpp', SRC, 'sym', ['-DPLANET=%d' % p, '-DLO=%d' % lo, '-DHI=%d' % hi], timeout=250,
                      note='planet %d, satellite numbers %d to %d: decimal -> packed -> Roman -> packed' % (p, lo, hi), weight=2))
    return t
