# -*- coding: utf-8 -*-
"""The exact price of a conversion, from the numbers a converter reports about itself (130 decimal digits)."""
from core import require
from mpmath import mp, mpf

mp.dps = 130
PPM = 10 ** 6
MAX_NUM = 2 ** 129


def series_low(x):
    """the documented series has 33 terms: beyond exponents of 16 e^x is only required to be as good as that"""
    xq = x - mpf(2) ** -20 if x < 56 else mp.floor(x) - 1
    if xq <= 0:
        return mpf(1)
    total = term = mpf(1)
    for i in range(1, 34):
        term = term * xq / i
        total += term
    return total * (1 - mpf(2) ** -20) - 40


def bounds(kind, a):
    """-> (lowest, highest) allowed result before the fee, or None outside of the domain"""
    if kind == 'purchase':
        S, b, w, d = a
        if S <= 0 or b <= 0:
            return None
        if d == 0:
            return 0, 0
        if w == PPM:
            return S * d // b, S * d // b
        if b + d >= MAX_NUM:
            return None
        x = mp.log1p(mpf(d) / b) * w / PPM
        exact, scale, ratio = S * mp.expm1(x), S * mp.exp(x), mpf(1)
        low = S * (series_low(x) - 1) if x >= 16 else 0
    elif kind == 'sale':
        S, b, w, s = a
        if S <= 0 or b <= 0 or s > S:
            return None
        if s == 0 or s == S:
            return (b, b) if s else (0, 0)
        if w == PPM:
            return b * s // S, b * s // S
        if S >= MAX_NUM:
            return None
        x = -mp.log1p(-mpf(s) / S) * PPM / w
        exact, scale, ratio = -b * mp.expm1(-x), b, mpf(PPM) / w
        low = b * (1 - 1 / series_low(x)) if x >= 16 else 0
    else:
        b1, w1, b2, w2, d = a
        if b1 <= 0 or b2 <= 0:
            return None
        if w1 == w2:
            return b2 * d // (b1 + d), b2 * d // (b1 + d)
        if b1 + d >= MAX_NUM:
            return None
        if d == 0:
            return 0, 0
        x = mp.log1p(mpf(d) / b1) * w1 / w2
        exact, scale, ratio = -b2 * mp.expm1(-x), b2, mpf(w1) / w2
        low = b2 * (1 - 1 / series_low(x)) if x >= 16 else 0
    if x < 16:
        low = exact - scale * mpf(2) ** -110 * max(1, ratio) - 1
    else:
        low -= 1
    return max(0, int(mp.ceil(low))), int(mp.floor(exact))


def price(what, supply, conns, fee, frm, to, n, flex, quoted):
    """judge an answer (amount, fee) or None to the question what n frm are worth in to, asked to a converter
    that may convert them.  conns: {token: (balance, weight)}.  -> was there a price?"""
    if to == flex:
        kind, m, a = 'purchase', 1, (supply, *conns[frm], n)
    elif frm == flex:
        kind, m, a = 'sale', 1, (supply, *conns[to], n)
    else:
        kind, m, a = 'cross', 2, (*conns[frm], *conns[to], n)
    limit = bounds(kind, a)
    if limit is None:
        require(quoted is None, '{}: quoted {} although {}{} is out of range', what, quoted, kind, a)
        return False
    require(quoted is not None, '{}: no price, although {}{} has one', what, kind, a)
    got, charged = quoted
    gross = got + charged
    require(limit[0] <= gross <= limit[1], '{}: {} and a fee of {} is not the price of {}{}, which is between {} and {}', what, got,
            charged, kind, a, *limit)
    require(got == gross * (PPM - fee) ** m // PPM ** m, '{}: {} of {} at a fee of {} ppm', what, got, gross, fee)
    return gross > 0
