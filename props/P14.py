"""P14 calendar and clock arithmetic"""
from stsym.spec import *

BASE = 693960   # days from 1-Jan-1 to 1-Jan-1901, proleptic Gregorian
def before(y): y -= 1; return 365 * y + y // 4 - y // 100 + y // 400 - BASE
def leap(y): return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)
ML = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
def mlen(y, m): return 29 if m == 2 and leap(y) else ML[m - 1]
def md(y, doy):
    """month and day of a symbolic day of the concrete year y"""
    for m in range(1, 13):
        if m == 12 or bool(doy <= mlen(y, m)): return m, doy
        doy = doy - mlen(y, m)
MON = 'January February March April May June July August September October November December'.split()
DAY = 'Monday Tuesday Wednesday Thursday Friday Saturday Sunday'.split()
def full(y, k, doy):
    """everything a Date in year y + 400k answers; the day count is symbolic"""
    n = before(y) + doy - 1 + 146097 * k
    m, d = md(y, doy)
    ly = 366 if leap(y) else 365
    Y = y + 400 * k
    return [n, Y, m, d, doy, mlen(y, m), ly, mlen(y, m) - d, ly - doy, leap(y), n - d + 1, n - d + mlen(y, m), n * 86400]
ALL = '{d daysFromBaseDay. d year. d month. d day. d dayOfYear. d daysInMonth. d daysInYear. d daysLeftInMonth. d daysLeftInYear. d isLeapYear. d firstDayOfMonth daysFromBaseDay. d lastDayOfMonth daysFromBaseDay. d asSeconds}'


def hms(s): return [fdiv(s, 3600), fmod(fdiv(s, 60), 60), fmod(s, 60)]
def tq(a, b): return quorem(a, b)[0]
def tr(a, b): return quorem(a, b)[1]
def two(x): return [fdiv(x, 10) + 48, fmod(x, 10) + 48]
def dur(s):
    """components of a duration of s seconds (truncating)"""
    return [tq(s, 86400), fmod(tq(s, 3600), 24) if False else tr(tq(s, 3600), 24), tr(tq(s, 60), 60), tr(s, 60), s]
DUR = '{e days. e hours. e minutes. e seconds. e asSeconds}'
class Dates:
    """a few concrete days around every kind of month and year end"""
LEAPPRE = lambda y, k, doy: Or(doy <= 365, And(fmod(y, 4) == 0, Or(Not(fmod(y, 100) == 0), fmod(y, 400) == 0)))

def run(ctx):
    L = []
    def a(*x, **k): L.append(O(*x, **dict(dict(time=150, paths=40000), **k)))
    S = '| d | d := Date fromDays: %s. ' % '(Date yearAsDays: y) + doy + (k * 146097)'
    first = 1601
    for lo in range(1601, 2001, 20):
        a('days of %d-%d' % (lo, lo + 19), dict(y=F(lo, lo + 19), k=I(0, 0), doy=I(1, 366)), S + ALL, full, pre=LEAPPRE, bounds='every day of the years %d to %d' % (lo, lo + 19))
    for lo in range(1, 401, 10):
        for y in ([lo] if not ctx.thorough else range(lo, lo + 10)):
            y = {1: 1, 11: 4, 21: 100, 31: 400}.get(y, y) if not ctx.thorough else y
            a('days of %d modulo 400' % y, dict(y=F(y, y), k=I(-5, 25) if y != lo or y < 30 or ctx.thorough else I(0, 9), doy=I(1, 366)), S + '{d daysFromBaseDay. d year. d month. d day}', lambda y, k, doy: full(y, k, doy)[:4], pre=LEAPPRE, bounds='every day of the years congruent to %d modulo 400 from -2000 to 10000' % y)
    # from parts
    for lo in range(1901, 2101, 10):
        if not ctx.thorough and lo not in (1901, 1991, 2001, 2091): continue
        Y = F(lo, lo + 9)
        a('newDay:monthIndex:year: %d' % lo, dict(y=Y, m=F(1, 12), d=I(-40, 60)), '| d | d := Date newDay: d monthIndex: m year: y. {d daysFromBaseDay. d year. d month. d day. d = (Date fromDays: d daysFromBaseDay). (d storeString size > 10). d addDays: 0}'.replace('(d storeString size > 10). d addDays: 0', '(Date year: y month: m day: 1 hour: 0 minute: 0 second: 0) daysFromBaseDay') if False else
          '| t | t := Date newDay: d monthIndex: m year: y. {t daysFromBaseDay. t year. t month. t day. t = (Date fromDays: t daysFromBaseDay). t hash = (Date fromDays: t daysFromBaseDay) hash}', parts, bounds='every month of %d to %d and every day number from -40 to 60' % (lo, lo + 9))
        a('newDay:year: %d' % lo, dict(y=Y, doy=I(-400, 800)), '| t | t := Date newDay: doy year: y. {t daysFromBaseDay. (Date year: y day: doy hour: 0 minute: 0 second: 0) daysFromBaseDay. Date daysInYear: y}', lambda y, doy: [before(y) + doy - 1] * 2 + [366 if leap(y) else 365], bounds='%d to %d, every day number from -400 to 800' % (lo, lo + 9))
    W = I(-800000, 3000000)
    a('weekday', dict(n=W), '| d | d := Date fromDays: n. {d dayOfWeek. d dayOfWeekName size. d dayName == d dayOfWeekName}', lambda n: (lambda w: [w + 1, [len(x) for x in DAY][pick(w, 7)], True])(fmod(n + 1, 7)), bounds='every day from the year -290 to 10114')
    a('day names', dict(n=F(-14, 14)), '| d | d := Date fromDays: n. {d dayOfWeekName. d dayName. d dayOfWeekAbbreviation}', lambda n: [Sym(DAY[(n + 1) % 7])] * 2 + [Sym(DAY[(n + 1) % 7][:3])], bounds='29 consecutive days')
    a('month names', dict(m=F(1, 12), y=F(1899, 1905)), '| d | d := Date newDay: 3 monthIndex: m year: y. {d monthName. d monthAbbreviation. d shortMonthName. d printString. (Date readFrom: d printString readStream) = d. Date indexOfMonth: d monthName. Date indexOfMonth: d monthName asLowercase. Date daysInMonth: d monthName forYear: y. (Date newDay: 3 month: d monthName year: y) = d. d displayString}',
      lambda m, y: [Sym(MON[m - 1]), Sym(MON[m - 1][:3]), Sym(MON[m - 1][:3]), Str(codes('3-%s-%d' % (MON[m - 1][:3], y))), True, m, m, mlen(y, m), True, Str(codes('3-%s-%d' % (MON[m - 1][:3], y)))], bounds='every month of 1899 to 1905')
    a('print and read', dict(m=F(1, 12), d=I(1, 31), y=I(1970, 2039)), '| t s | t := Date newDay: d monthIndex: m year: y. {t printString. (Date readFrom: t printString readStream) = t. (Behavior evaluate: t storeString) = t}' if False else '| t | t := Date newDay: d monthIndex: m year: y. {t printString. (Date readFrom: t printString readStream) = t}',
      lambda m, d, y: [Str(numeral(d, 10) + [45] + codes(MON[m - 1][:3]) + [45] + numeral(y, 10)), True], pre=lambda m, d, y: d <= 28, bounds='days 1 to 28 of every month of 1970 to 2039')
    a('comparing dates', dict(n=W, m=W), '| d e | d := Date fromDays: n. e := Date fromDays: m. {d < e. d > e. d <= e. d >= e. d = e. (d max: e) daysFromBaseDay. (d - e) days. d subtractDate: e. (d addDays: m) daysFromBaseDay. (d subtractDays: m) daysFromBaseDay. d = e == (d hash = e hash) | (d hash = e hash)}',
      lambda n, m: [n < m, n > m, n <= m, n >= m, n == m, Max(n, m), n - m, n - m, n + m, n - m, ANY], bounds='every pair of days from -800000 to 3000000')
    a('seconds to dates', dict(s=I(-10 ** 12, 10 ** 12)), '(Date fromSeconds: s) daysFromBaseDay', lambda s: fdiv(s, 86400), bounds='every second count within 10^12')
    a('date plus duration', dict(n=I(-10 ** 5, 10 ** 5), s=I(-10 ** 6, 10 ** 6)), '| d | d := (Date fromDays: n) + (Duration seconds: s). {d daysFromBaseDay. d asSeconds}', lambda n, s: [n + fdiv(s, 86400), n * 86400 + s], bounds='days within 10^5, seconds within 10^6')
    # times of day
    T = I(-200000, 200000)
    a('time of day', dict(s=T), '| t | t := Time fromSeconds: s. {t asSeconds. t hours. t minutes. t seconds. t hour. t minute. t second. t hour24. t hour12. t asMilliseconds. t asNanoseconds. t = (Time fromSeconds: t asSeconds)}',
      lambda s: (lambda u: (lambda h: [u] + h + h + [h[0], fmod(h[0] + 11, 12) + 1, u * 1000, u * 10 ** 9, True])(hms(u)))(fmod(s, 86400)), bounds='every second count from -200000 to 200000')
    a('time from parts', dict(h=I(-30, 50), m=I(-100, 100), s=I(-100, 100)), '{(Time hour: h minute: m second: s) asSeconds. (Time hours: h minutes: m seconds: s) asSeconds. (Time hour: h) asSeconds. (Time minutes: m) asSeconds. (Time minute: m) asSeconds. (Time second: s) asSeconds}',
      lambda h, m, s: [fmod(h * 3600 + m * 60 + s, 86400)] * 2 + [fmod(h * 3600, 86400), fmod(m * 60, 86400), fmod(m * 60, 86400), fmod(s, 86400)], bounds='hours -30..50, minutes and seconds -100..100')
    a('time arithmetic', dict(s=I(0, 86399), t=I(0, 86399), n=T), '| a b | a := Time fromSeconds: s. b := Time fromSeconds: t. {a < b. a = b. a <= b. a > b. (a addTime: b) asSeconds. (a subtractTime: b) asSeconds. (a addSeconds: n) asSeconds. a hash = b hash | (a ~= b)}',
      lambda s, t, n: [s < t, s == t, s <= t, s > t, fmod(s + t, 86400), fmod(s - t, 86400), fmod(s + n, 86400), True], bounds='every two times of day')
    a('time printing', dict(s=I(0, 86399)), '| t p | t := Time fromSeconds: s. p := t printString. {p. (Time readFrom: p readStream) = t}',
      lambda s: (lambda h: [Str(numeral(h[0], 10) + [58] + two(h[1]) + [58] + two(h[2])), True])(hms(s)), bounds='every time of day')
    # durations
    D = I(-10 ** 9, 10 ** 9)
    a('duration parts', dict(s=D), '| e | e := Duration seconds: s. ' + DUR, lambda s: dur(s), bounds='every duration within 10^9 seconds')
    a('duration arithmetic', dict(s=D, t=D), '| a b | a := Duration seconds: s. b := Duration seconds: t. {(a + b) asSeconds. (a - b) asSeconds. a negated asSeconds. a abs asSeconds. a isZero. a negative. a positive. a < b. a = b. a > b. (a max: b) asSeconds. (a hash = b hash) | (a ~= b)}',
      lambda s, t: [s + t, s - t, 0 - s, If(s < 0, 0 - s, s), s == 0, s < 0, s >= 0, s < t, s == t, s > t, Max(s, t), True], bounds='every two durations within 10^9 seconds')
    a('duration constructors', dict(d=I(-100, 100), h=I(-30, 30), m=I(-100, 100), s=I(-100, 100)), '{(Duration days: d hours: h minutes: m seconds: s) asSeconds. (Duration days: d) asSeconds. (Duration weeks: d) asSeconds. (Duration milliseconds: s * 1000) asSeconds. (Duration seconds: s) * 5 = (Duration seconds: s * 5). ((Duration seconds: s * 5) / 5) asSeconds. (Duration fromDays: d seconds: s offset: nil) asSeconds}',
      lambda d, h, m, s: [((d * 24 + h) * 60 + m) * 60 + s, d * 86400, d * 604800, s, True, s, d * 86400 + s], bounds='every part within 100')
    a('duration printing', dict(d=F(0, 11), r=I(0, 86399), n=F(0, 1)), '| e p | e := Duration seconds: d * 86400 + r. n = 1 ifTrue: [e := e negated]. p := e printString. {p. (Duration readFrom: p readStream) = e}',
      lambda d, r, n: (lambda h: [Str(([45] if n and bool(d * 86400 + r > 0) else []) + numeral(d, 10) + [58] + two(h[0]) + [58] + two(h[1]) + [58] + two(h[2])), True])(hms(r)), bounds='durations from -12 to 12 days')
    # timestamps
    n0 = I(-30000, 60000)
    X = '| x y | x := DateTime fromDays: n seconds: s offset: (Duration seconds: o). '
    OFF = PF([0, 3600, -3600, 19800, -34200, 45900, -43200])
    a('timestamp parts', dict(n=n0, s=I(-10 ** 6, 10 ** 6), o=OFF), X + 'y := x asUTC. {x asSeconds. x daysFromBaseDay. x seconds. x hour. x minute. x second. x hour24. x hour12. x meridianAbbreviation. x offset asSeconds. y asSeconds. y daysFromBaseDay. y offset asSeconds. x asDate daysFromBaseDay. x asTime asSeconds. x = y. y = x. x < y. x hash = y hash. x dayOfWeek}',
      lambda n, s, o: (lambda u, t: (lambda h: [n * 86400 + s, u, t] + h + [h[0], fmod(h[0] + 11, 12) + 1, Sym('AM') if bool(t < 43200) else Sym('PM'), o, n * 86400 + s - o, fdiv(n * 86400 + s - o, 86400), 0, u, t, True, True, False, True, fmod(u + 2, 7) + 1])(hms(t)))(n + fdiv(s, 86400), fmod(s, 86400)), bounds='days -30000..60000, seconds within 10^6, seven offsets')
    P2 = dict(n=n0, s=I(0, 86399), m=n0, t=I(0, 86399), o=OFF, p=PF([0, -18000, 20700]))
    a('comparing timestamps', dict(P2), X + 'y := DateTime fromDays: m seconds: t offset: (Duration seconds: p). {x < y. x > y. x = y. x <= y. y < x. (x - y) asSeconds. (y - x) asSeconds. (x = y) not | (x hash = y hash)}',
      lambda n, s, m, t, o, p: (lambda u, v: [u < v, u > v, u == v, u <= v, v < u, u - v, v - u, True])(n * 86400 + s - o, m * 86400 + t - p), bounds='every two timestamps between 1818 and 2065, 7 times 3 offsets')
    a('timestamp plus duration', dict(n=n0, s=I(0, 86399), q=I(-10 ** 7, 10 ** 7), o=PF([0, 19800, -34200])), X + '| e | e := Duration seconds: q. y := x + e. {y asSeconds. y offset asSeconds. y seconds. (x - e) asSeconds. (y - e) = x. (y - x) = e. y daysFromBaseDay. (x - e) seconds}'.replace('| e |', '') .replace('e := D', 'y := D').replace('y := x + e', 'y := x + e') if False else
      '| x y e | x := DateTime fromDays: n seconds: s offset: (Duration seconds: o). e := Duration seconds: q. y := x + e. {y asSeconds. y offset asSeconds. y seconds. (x - e) asSeconds. (y - e) = x. (y - x) = e. y daysFromBaseDay. (x - e) seconds}',
      lambda n, s, q, o: (lambda u, w: [u, o, fmod(u, 86400), w, True, True, fdiv(u, 86400), fmod(w, 86400)])(n * 86400 + s + q, n * 86400 + s - q), bounds='timestamps between 1818 and 2065, durations within 10^7 seconds')
    a('timestamp from parts', dict(y=F(1999, 2001), m=F(1, 12), d=F(1, 28), h=I(0, 23), i=I(0, 59), s=I(0, 59), o=PF([0, 19800])), '| x | x := DateTime year: y month: m day: d hour: h minute: i second: s offset: (Duration seconds: o). {x asSeconds. x year. x month. x day. x hour. x minute. x second. x asUTC asSeconds. (DateTime date: x asDate time: x asTime offset: x offset) = x. (DateTime year: y month: m day: d hour: h minute: i second: s) asSeconds}',
      lambda y, m, d, h, i, s, o: (lambda u: [u, y, m, d, h, i, s, u - o, True, u])((before(y) + sum(mlen(y, j) for j in range(1, m)) + d - 1) * 86400 + h * 3600 + i * 60 + s), bounds='every second of days 1 to 28 of the months of 1999 to 2001')
    a('timestamp printing', dict(y=PF([32, 99, 987, 1000, 1970, 2010, 9999]), m=PF([1, 9, 12]), d=PF([1, 28]), h=I(0, 23), i=PF([0, 5, 59]), s=PF([0, 9, 59]), o=PF([0, 19800, -34200])), '| x p | x := DateTime year: y month: m day: d hour: h minute: i second: s offset: (Duration seconds: o). p := x printString. {p. (DateTime readFrom: p readStream) = x}',
      lambda y, m, d, h, i, s, o: [Str(codes(' %04d-%02d-%02dT' % (y, m, d)) + two(h) + codes(':%02d:%02d%s%02d:%02d' % (i, s, '-' if o < 0 else '+', abs(o) // 3600, abs(o) // 60 % 60))), True], bounds='seven years, 3 offsets')
    a('timestamp years', dict(y=I(0, 12000)), '| p | p := (DateTime year: y month: 2 day: 3 hour: 4 minute: 5 second: 6) printString. {p. y < 32 or: [(DateTime readFrom: p readStream) year = y]}',
      lambda y: [Str([32] + [48] * (4 - len(numeral(y, 10))) + numeral(y, 10) + codes('-02-03T04:05:06+00:00')), True], bounds='every year from 0 to 12000')
    a('time zone abbreviation', dict(q=I(-14 * 4, 14 * 4)), '| x | x := DateTime year: 2010 month: 2 day: 3 hour: 4 minute: 5 second: 6 offset: (Duration seconds: q * 900). {x timeZoneAbbreviation. x timeZoneName. x offset asSeconds}',
      lambda q: (lambda u, sg: [Str([sg] + two(fdiv(u, 4)) + two(fmod(u, 4) * 15)), Str(codes('GMT ') + [sg] + two(fdiv(u, 4)) + two(fmod(u, 4) * 15)), q * 900])(If(q < 0, 0 - q, q), If(q < 0, 45, 43)), bounds='every multiple of 15 minutes from -14 to 14 hours')
    std(ctx, L)
def pick(w, n):
    for i in range(n - 1):
        if bool(w == i): return i
    return n - 1
def parts(y, m, d):
    n = before(y) + sum(mlen(y, j) for j in range(1, m)) + d - 1
    yy, mm, dd = y, m, d
    while bool(dd < 1):
        yy, mm = (yy - 1, 12) if mm == 1 else (yy, mm - 1)
        dd = dd + mlen(yy, mm)
    while bool(dd > mlen(yy, mm)):
        dd = dd - mlen(yy, mm)
        yy, mm = (yy + 1, 1) if mm == 12 else (yy, mm + 1)
    return [n, yy, mm, dd, True, True]
