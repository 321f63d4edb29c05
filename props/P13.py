"""full_ctime"""
from vprun import Task
SRC = ['miscell.cpp', 'snprintf.cpp']
YF, MD, DIG, TO, LZ, Y2, NY, DF, DL, NS, RO, NC, DOY = 0x800, 0x1000, 0x2000, 0x4000, 0x8000, 0x10000, 0x20000, 0x40000, 0x80000, 0x100000, 0x200000, 0x400000, 0x800000


def T(fmt, lo=0, hi=9999):
    return Task('f%06x_%d' % (fmt, lo), 'ctime.cpp', SRC, 'sym', ['-DFORMAT=0x%x' % fmt, '-DYLO=%d' % lo, '-DYHI=%d' % hi], timeout=300,
                note='format 0x%x: every date of years %d-%d, every time of day' % (fmt, lo, hi))


SEC, HM, HH, DAY, YEAR, JD, MJD = range(0, 0x700, 0x100)
P = 0x10


def tasks(tier):
    t = [T(SEC), T(SEC | 3 * P | YF | MD | DIG | LZ | RO), T(SEC | P | YF | DIG | LZ | RO), T(SEC | 6 * P | TO | LZ), T(SEC | NC | NS | YF | MD | DIG | LZ),
         T(SEC | Y2 | MD | LZ), T(SEC | NY | MD | 2 * P), T(SEC | DF | DIG), T(SEC | DL | YF | DIG | RO), T(SEC | DOY | YF | LZ | 1), T(SEC | DOY | 6),
         T(HM | YF | MD | DIG | LZ), T(HM | 3 * P | DIG | RO), T(HM | 6 * P | TO), T(HM | TO | LZ | NC),
         T(HH | YF | MD | DIG | LZ | RO), T(HH | 3 * P | YF | DIG), T(HH | 6 * P | TO | RO), T(HH | P | DIG | 2),
         T(DAY), T(DAY | YF | MD | DIG | LZ | RO), T(DAY | P | DIG | YF), T(DAY | 5 * P | YF | MD | DIG | LZ), T(DAY | 9 * P | YF | MD | LZ | DIG | RO), T(DAY | 12 * P | DIG),
         T(DAY | 15 * P | YF | MD | DIG | LZ), T(DAY | DOY | 6 * P | YF), T(DAY | DL | YF | MD | DIG | 6), T(DAY | NS | YF | MD | DIG | LZ | Y2),
         T(YEAR), T(YEAR | 3 * P), T(YEAR | RO | 2 * P), T(JD), T(JD | 5 * P), T(JD | RO | 2 * P), T(MJD | 6 * P), T(MJD | RO), T(MJD | 10 * P | LZ)]
    t += [T(f, lo, hi) for lo, hi in ((-99999, -1), (10000, 999999)) for f in
          (SEC, SEC | 3 * P | YF | MD | DIG | LZ | RO, DAY | 5 * P | YF | MD | DIG | LZ, HM | Y2, DAY | Y2 | YF | 2 * P | LZ | DIG, SEC | DOY | YF | LZ | NS | NC)]
    return t
