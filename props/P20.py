"""text -> time"""
from vprun import Task


def T(name, mode, note, timeout=280, tier='quick', **k):
    d = dict(KIND=0, SEP=0, ORDER=0, MONTH=0, DAY=0, YEAR=0, FRAC=2, CALENDAR=0, WITH_TIME=0, DECIMALS=0, N_OFFSETS=1, LEN=3, START=0, MNAMES=2 if tier == 'quick' else 12)
    d.update(k)
    return Task(name, 'gettime.cpp', ['get_time.cpp', 'date.cpp'], 'sym', ['-DMODE=%d' % mode] + ['-D%s=%s' % x for x in d.items()],
                weak=('dmy_to_day', 'day_to_dmy') + (('find_nearest_lunar_phase_time',) if mode in (5, 8) else ()) if mode not in (6, 7) else (), timeout=timeout, note=note)


ORDERS = ('ymd', 'ydm', 'myd', 'dym', 'mdy', 'dmy')


def tasks(tier):
    t = []
    for k in range(12):
        t.append(T('count_%d' % k, 0, 'Julian Days and other running counts', KIND=k, FRAC=3 if tier == 'quick' else 7))
    for o in range(6):
        t.append(T('numbers_%s' % ORDERS[o], 1, 'three numbers', ORDER=o, SEP=-1, WITH_TIME=1))
        t.append(T('name_%s' % ORDERS[o], 1, 'month name', ORDER=o, SEP=-1, MONTH=1, WITH_TIME=1, tier=tier))
        t.append(T('all_names_%s' % ORDERS[o], 1, 'month name', ORDER=o, SEP=0, MONTH=1, MNAMES=12))
        t.append(T('decimal_%s' % ORDERS[o], 1, 'decimal day', ORDER=o, SEP=-1, DAY=1))
        t.append(T('name_decimal_%s' % ORDERS[o], 1, 'month name, decimal day', ORDER=o, SEP=-1, MONTH=1, DAY=1, tier=tier))
    for y in range(1, 8):
        for o in (range(6) if y == 5 else (-1,)):
            t.append(T('year%d_%d' % (y, o), 1, 'unusual years', ORDER=o, YEAR=y, SEP=2 if y >= 4 else 0, MONTH=int(y in (1, 7)), DAY=int(y == 7), tier=tier))
    t.append(T('hebrew', 1, '13 months', ORDER=-1, SEP=0, CALENDAR=2))
    t.append(T('gregorian', 1, 'another calendar', ORDER=-1, SEP=1, CALENDAR=1, MONTH=1, tier=tier))
    for k in range(10):
        t.append(T('part_%d' % k, 2, 'part of a date', KIND=k, SEP=-1 if k < 4 else 0, WITH_TIME=1 if k != 1 or tier != 'quick' else 0))
    t.append(T('part_1_decimal', 2, 'month, decimal day', KIND=1, SEP=1, DECIMALS=1))
    for k in range(7):
        t.append(T('time_%d' % k, 3, 'times of day', KIND=k, FRAC=3 if tier == 'quick' else 6))
    t.append(T('offset_days', 4, 'a number of days'))
    for k, i in ((1, 1), (2, 1), (3, 1), (1, 2)) + (((2, 2), (3, 2)) if tier != 'quick' else ()):
        t.append(T('offset_%d_%d' % (k, i), 4, '%d offsets' % i, KIND=k, N_OFFSETS=i))
    t.append(T('any_2', 5, 'any two bytes', LEN=2))
    for ln in (0, 4, 8, 9):
        t.append(T('pattern_%d' % ln, 5, 'long texts', KIND=1, LEN=ln))
    for s in range(4):
        for p in (0, 3):
            t.append(T('junk_%d%d' % (s, p), 5, 'like dates, but not quite', KIND=2, LEN=p, START=s))
    t.append(T('months', 6, 'any month number, calendars 0-9'))
    t.append(T('phase_text', 8, 'phases of the Moon, as text'))
    t.append(T('phase_time', 7, '60000 lunations'))
    return t
