"""despeckling settings whose outcome does not hang on single precision"""
from fractions import Fraction


def used_level(w, h, level):
    l = 0
    while l < 14 and 2 ** (2 * (l + 1) + 1) <= (w * h) ** 2:
        l += 1
    return min(l, level)


def clear_cut(w, h, level, tight, noise):
    """the settings whose per-pass limits single precision cannot push over an integer"""
    L = used_level(w, h, level)
    for i in range(1, L):
        v = Fraction(255 * noise * L * 100, L * 10000 + i * (noise * (100 + tight * L) - 10000))
        if v != 255 and abs(v - round(v)) < Fraction(1, 500):
            return False
        if v == 255 and noise != 100:
            return False
    return True
