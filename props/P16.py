"""P16 points and rectangles"""
from stsym.spec import *
ab = lambda v: If(v < 0, 0 - v, v)
def half(n, d): return If(n >= 0, fdiv(2 * n + d, 2 * d), 0 - fdiv(d - 2 * n, 2 * d))
def run(ctx):
    L = []
    def a(*x, **k): L.append(O(*x, **dict(dict(time=80, paths=40000), **k)))
    W = I(-10 ** 6, 10 ** 6)
    bd = 'every coordinate within 10^6'
    Q = dict(a=W, b=W, c=W, d=W)
    P = '| p q f | p := a @ b. q := c @ d. f := [:z | {z x. z y}]. '
    a('point arithmetic', dict(Q, k=I(-1000, 1000)), P + '{f value: p + q. f value: p - q. f value: p + k. f value: p - k. f value: (p max: q). f value: (p min: q). f value: p abs. f value: p transpose. f value: p asPoint. f value: k asPoint. f value: p rounded}',
      lambda a, b, c, d, k: [[a + c, b + d], [a - c, b - d], [a + k, b + k], [a - k, b - k], [Max(a, c), Max(b, d)], [Min(a, c), Min(b, d)], [ab(a), ab(b)], [b, a], [a, b], [k, k], [a, b]], bounds=bd)
    a('point comparing', Q, P + '{p < q. p <= q. p > q. p >= q. p = q. p ~= q. p = nil. p = 3. p copy = p}', lambda a, b, c, d: [And(a < c, b < d), And(a <= c, b <= d), And(a > c, b > d), And(a >= c, b >= d), And(a == c, b == d), Not(And(a == c, b == d)), False, False, True], bounds=bd)
    a('point products', dict(a=I(-1000, 1000), b=I(-1000, 1000), c=PF([-7, -1, 2, 5]), d=PF([-3, 1, 4])), P + '{f value: p * q. f value: p // q. f value: p * c. p dotProduct: q. f value: (p grid: q abs). f value: (p truncatedGrid: q). f value: (p truncateTo: d). f value: p * d / d. ((3 @ 4) dist: 0 @ 0) = 5}',
      lambda a, b, c, d: (lambda t: [[a * c, b * d], [fl(a, c), fl(b, d)], [a * c, b * c], a * c + b * d, [half(a, abs(c)) * abs(c), half(b, abs(d)) * abs(d)], [t(a, c), t(b, d)], [t(a, d), t(b, d)], [a, b], True])(lambda u, v: quorem(u, v)[0] * v), bounds='coordinates within 1000, 12 second points')
    def fl(u, v): return fdiv(u, v) if v > 0 else fdiv(0 - u, 0 - v)
    T = dict(l=W, t=W, r=W, b=W)
    S = '| k f g | k := l @ t corner: r @ b. f := [:z | {z x. z y}]. g := [:z | {z left. z top. z right. z bottom}]. '
    mid = lambda u, v: None
    a('rectangle accessors', T, S + '{g value: k. f value: k origin. f value: k corner. f value: k extent. k width. k height. k area. f value: k topLeft. f value: k topRight. f value: k bottomLeft. f value: k bottomRight. k xCenter * 2. k yCenter * 2. k center x * 2. k center y * 2. k leftCenter x. k rightCenter x. k topCenter y. k bottomCenter y. k leftCenter y * 2. k topCenter x * 2}' .replace('k xCenter * 2', '(k xCenter * 2) truncated').replace('k yCenter * 2', '(k yCenter * 2) truncated').replace('k center x * 2', '(k center x * 2) truncated').replace('k center y * 2', '(k center y * 2) truncated').replace('k leftCenter y * 2', '(k leftCenter y * 2) truncated').replace('k topCenter x * 2', '(k topCenter x * 2) truncated').replace(' k area.', ''),
      lambda l, t, r, b: [[l, t, r, b], [l, t], [r, b], [r - l, b - t], r - l, b - t, [l, t], [r, t], [l, b], [r, b], l + r, t + b, l + r, t + b, l, r, t, b, t + b, l + r], bounds=bd)
    a('area', dict(l=I(0, 0), t=I(0, 0), r=I(-1000, 1000), b=PF([-9, 0, 1, 7])), S + 'k area', lambda l, t, r, b: r * b, bounds='widths within 1000, 4 heights')
    a('rectangle constructors', T, S + '{g value: (Rectangle origin: l @ t corner: r @ b). g value: (Rectangle origin: l @ t extent: r @ b). g value: (l @ t extent: r @ b). g value: (Rectangle left: l right: r top: t bottom: b). g value: (Rectangle left: l top: t right: r bottom: b). g value: (l @ t) asRectangle. g value: l asRectangle. g value: Rectangle new. k = (Rectangle left: l top: t right: r bottom: b). k = (l @ t)}',
      lambda l, t, r, b: [[l, t, r, b], [l, t, l + r, t + b], [l, t, l + r, t + b], [l, t, r, b], [l, t, r, b], [l, t, l, t], [l] * 4, [0] * 4, True, False], bounds=bd)
    sets = [('left: v', 'left', 0), ('top: v', 'top', 1), ('right: v', 'right', 2), ('bottom: v', 'bottom', 3)]
    full = lambda f: (lambda l, t, r, b, v, w: [f(l, t, r, b, v, w), [l, t, r, b]])
    for e, f in (('left: v', lambda l, t, r, b, v, w: [v, t, r, b]), ('top: v', lambda l, t, r, b, v, w: [l, v, r, b]), ('right: v', lambda l, t, r, b, v, w: [l, t, v, b]), ('bottom: v', lambda l, t, r, b, v, w: [l, t, r, v]),
                 ('width: v', lambda l, t, r, b, v, w: [l, t, l + v, b]), ('height: v', lambda l, t, r, b, v, w: [l, t, r, t + v]), ('origin: v @ w', lambda l, t, r, b, v, w: [v, w, r, b]), ('corner: v @ w', lambda l, t, r, b, v, w: [l, t, v, w]), ('extent: v @ w', lambda l, t, r, b, v, w: [l, t, l + v, t + w]),
                 ('topLeft: v @ w', lambda l, t, r, b, v, w: [v, w, r, b]), ('topRight: v @ w', lambda l, t, r, b, v, w: [l, w, v, b]), ('bottomLeft: v @ w', lambda l, t, r, b, v, w: [v, t, r, w]), ('bottomRight: v @ w', lambda l, t, r, b, v, w: [l, t, v, w]), ('moveBy: v @ w', lambda l, t, r, b, v, w: [l + v, t + w, r + v, b + w]),
                 ('moveTo: v @ w', lambda l, t, r, b, v, w: [v, w, r + v - l, b + w - t]), ('left: v top: w right: r bottom: b', lambda l, t, r, b, v, w: [v, w, r, b])):
        a('rectangle ' + e, dict(T, v=W, w=W), S + 'k copy %s. f := k copy. k %s. {g value: k. g value: f}' % (e, e), full(f), bounds=bd)
    for e, f in (('translateBy: v @ w', lambda l, t, r, b, v, w: [l + v, t + w, r + v, b + w]), ('translateBy: v', lambda l, t, r, b, v, w: [l + v, t + v, r + v, b + v]), ('expandBy: v', lambda l, t, r, b, v, w: [l - v, t - v, r + v, b + v]), ('insetBy: v', lambda l, t, r, b, v, w: [l + v, t + v, r - v, b - v]), ('expandBy: v @ w', lambda l, t, r, b, v, w: [l - v, t - w, r + v, b + w]), ('insetBy: v @ w', lambda l, t, r, b, v, w: [l + v, t + w, r - v, b - w]),
                 ('expandBy: (v @ w corner: w @ v)', lambda l, t, r, b, v, w: [l - v, t - w, r + w, b + v]), ('insetBy: (v @ w corner: w @ v)', lambda l, t, r, b, v, w: [l + v, t + w, r - w, b - v]), ('insetOriginBy: v corner: w', lambda l, t, r, b, v, w: [l + v, t + v, r - w, b - w]), ('rounded', lambda l, t, r, b, v, w: [l, t, r, b]), ('scaleBy: 3', lambda l, t, r, b, v, w: [l * 3, t * 3, r * 3, b * 3]), ('scaleBy: -2 @ 5', lambda l, t, r, b, v, w: [l * -2, t * 5, r * -2, b * 5]),
                 ('normalized', lambda l, t, r, b, v, w: [Min(l, r), Min(t, b), Max(l, r), Max(t, b)]), ('copy normalize; yourself', lambda l, t, r, b, v, w: [Min(l, r), Min(t, b), Max(l, r), Max(t, b)])):
        a('rectangle ' + e, dict(T, v=W, w=W), S + '{g value: (k %s). g value: k}' % e, full(f), bounds=bd)
    T2 = dict(T, l2=W, t2=W, r2=W, b2=W, x=W, y=W)
    S2 = S.replace('| k f g |', '| k m p f g |') + 'm := l2 @ t2 corner: r2 @ b2. p := x @ y. '
    pre = lambda l, t, r, b, l2, t2, r2, b2, x, y: And(l < r, t < b, l2 < r2, t2 < b2)
    inn = lambda l, t, r, b, x, y: And(l <= x, x < r, t <= y, y < b)
    a('containing', T2, S2 + '{k containsPoint: p. k contains: m. k = m. k intersects: m}',
      lambda l, t, r, b, l2, t2, r2, b2, x, y: (lambda ov: [inn(l, t, r, b, x, y), And(inn(l, t, r, b, l2, t2), inn(l, t, r, b, r2, b2)), And(l == l2, t == t2, r == r2, b == b2), ov])(And(Max(l, l2) < Min(r, r2), Max(t, t2) < Min(b, b2))), pre=pre, bounds=bd + ', normalised rectangles')
    a('intersects is symmetric', T2, S2 + '{m intersects: k. (k intersect: m) isNil}', lambda l, t, r, b, l2, t2, r2, b2, x, y: (lambda ov: [ov, Not(ov)])(And(Max(l, l2) < Min(r, r2), Max(t, t2) < Min(b, b2))), pre=pre, bounds=bd + ', normalised rectangles')
    a('intersection', T2, S2 + 'm := k intersect: m. m isNil ifTrue: [nil] ifFalse: [{g value: m. m containsPoint: p}]', lambda l, t, r, b, l2, t2, r2, b2, x, y: [[Max(l, l2), Max(t, t2), Min(r, r2), Min(b, b2)], And(inn(l, t, r, b, x, y), inn(l2, t2, r2, b2, x, y))] if bool(And(Max(l, l2) < Min(r, r2), Max(t, t2) < Min(b, b2))) else None, pre=pre, bounds=bd)
    a('intersection of unnormalised rectangles', T2, S2 + 'm := k intersect: m. m isNil ifTrue: [nil] ifFalse: [g value: m]', lambda l, t, r, b, l2, t2, r2, b2, x, y: (lambda u: u if bool(And(u[0] < u[2], u[1] < u[3])) else None)([Max(Min(l, r), Min(l2, r2)), Max(Min(t, b), Min(t2, b2)), Min(Max(l, r), Max(l2, r2)), Min(Max(t, b), Max(t2, b2))]), bounds=bd)
    a('merge', T2, S2 + '{g value: (k merge: m). ((k containsPoint: p) or: [m containsPoint: p]) not or: [(k merge: m) containsPoint: p]}', lambda l, t, r, b, l2, t2, r2, b2, x, y: [[Min(l, l2), Min(t, t2), Max(r, r2), Max(b, b2)], True], pre=pre, bounds=bd)
    a('translating within', T2, S2 + '{f value: (k amountToTranslateWithin: m). g value: (k translatedToBeWithin: m)}', lambda l, t, r, b, l2, t2, r2, b2, x, y: (lambda dx, dy: [[dx, dy], [l + dx, t + dy, r + dx, b + dy]])(*((0, 0) if bool(And(inn(l2, t2, r2, b2, l, t), inn(l2, t2, r2, b2, r, b))) else (l2 - l, t2 - t))), pre=pre, bounds=bd)
    a('equal points and rectangles have equal hashes', dict(l=I(-8, 8), t=I(-8, 8), r=I(0, 8), b=I(0, 8)), '{(l @ t) hash = (l @ t) hash. (l @ t corner: r @ b) hash = (l @ t corner: r @ b) hash}', lambda l, t, r, b: [True, True], bounds='coordinates within 8')
    a('printing', dict(l=I(-20, 20), t=I(-20, 20), r=PF([-3, 12]), b=PF([0, 7])), S + '{k printString. k storeString. (l @ t) printString. (l @ t) storeString}', lambda l, t, r, b: [Str(numeral(l, 10) + [64] + numeral(t, 10) + codes(' corner: %d@%d' % (r, b))), Str(codes('(Rectangle origin: (') + numeral(l, 10) + codes(' @ ') + numeral(t, 10) + codes(') corner: (%d @ %d))' % (r, b))), Str(numeral(l, 10) + [64] + numeral(t, 10)), Str([40] + numeral(l, 10) + codes(' @ ') + numeral(t, 10) + [41])], bounds='coordinates within 20')
    std(ctx, L)
