"""observer locations, RA and dec as text"""
from vprun import Task
SRC = ['mpc_code.cpp', 'snprintf.cpp']


def D(**kw):
    return ['-D%s%s' % (k, '' if v is True else '=%s' % v) for k, v in kw.items()]


def q(s):
    return '"%s"' % s


def T(name, note='', timeout=300, opts=None, **kw):
    return Task(name, 'obsloc.cpp', SRC, 'sym', D(**kw), timeout=timeout, note=note or name, opts=opts)


def tasks(tier):
    t = []
    k = 0
    for lat_first in (0, 1):
        for first in (0, 1):
            for fields in (1, 2, 3):
                for dec in ((-1, 3) if tier == 'quick' else (-1, 0, 1, 3, 6)):
                    if dec == -1 and fields == 1 and not first:
                        pass
                    alt = k % 3
                    k += 1
                    t.append(T('latlon_%d%d%d%d_%d' % (lat_first, first, fields, dec + 1, alt), LATLON=True, LAT_FIRST=lat_first, COMPASS_FIRST=first,
                               FIELDS=fields, DECIMALS=dec, UPPER=k & 1, ALT=alt, GAP=q(' ' if k & 2 else ''), BETWEEN=q([', ', ' ', ','][k % 3])))
    for first in (0, 1):
        for fields in (1, 2, 3):
            t.append(T('xxx_%d%d' % (first, fields), XXX=True, COMPASS_FIRST=first, FIELDS=fields, DECIMALS=2 if fields != 3 else -1, UPPER=1, GAP=q(' ')))
    for fields, lead, dec, tail, after in ((1, 3, 5, '', ''), (1, 2, -1, ' ', '+12'), (2, 2, 3, '', ','), (3, 2, 4, '  ', '-45 12 13'), (3, 2, -1, ' ', '+')):
        t.append(T('ra_%d%d%d' % (fields, lead, dec + 1), RA=True, FIELDS=fields, LEAD=lead, DECIMALS=dec, TAIL=q(tail), AFTER=q(after)))
    for fields, lead, dec, tail, after in ((1, 2, 5, '', ''), (1, 1, -1, ' ', ''), (2, 2, 3, '', ','), (3, 2, 4, '  ', 'x'), (3, 2, -1, '', '')):
        t.append(T('dec_%d%d%d' % (fields, lead, dec + 1), DEC=True, FIELDS=fields, LEAD=lead, DECIMALS=dec, TAIL=q(tail), AFTER=q(after)))
    for w, n in ((0, 5), (1, 6), (2, 6), (3, 6), (4, 4), (5, 5)):
        for m in range(0 if w not in (4,) else 0, n + 1 if tier == 'quick' else n + 3):
            t.append(T('any%d_%d' % (w, m), ANYTEXT=m, WHICH=w, note='any %d-character text' % m))
    for l, r in ((5, 6), (4, 5), (0, 0), (3, 4), (1, 6)):
        t.append(T('standard_%d%d' % (l, r), STANDARD=True, LON_DIGITS=l, RHO_DIGITS=r, opts=dict(abstract=('point_to_ellipse',))))
    t += [T('rover_1', ROVER=1), T('rover_2', ROVER=2), T('rover_planet', ROVER=1, PLANET=True), T('satellite', SATELLITE=True), T('pole', POLE=True, ELLIPSE=True)]
    for s1, s2, fl, fa, so in ((0, 0, 0, 0, 0), (1, 1, 1, 1, 1), (1, 0, 0, 1, 1)):
        t.append(T('region_%d%d%d%d%d' % (s1, s2, fl, fa, so), REGION=True, SIGN1=s1, SIGN2=s2, FLIP=fl, FLIPLAT=fa, SOUTH=so))
    return t
