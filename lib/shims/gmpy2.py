"""Offline stand-in for the few gmpy2 functions the repository calls (documented gmpy2 semantics)."""
import math
def mpz(x=0): return int(x)
def powmod(a, b, c): return pow(int(a), int(b), int(c))
def invert(a, b):
    try: return pow(int(a), -1, int(b))
    except ValueError:
        raise ZeroDivisionError("invert() no inverse exists")
def bit_set(x, n): return int(x) | (1 << n)
def isqrt(n): return math.isqrt(int(n))
_SMALL = [2,3,5,7,11,13,17,19,23,29,31,37,41,43,47,53,59,61,67,71,73,79,83,89,97]
def is_prime(n):
    n = int(n)
    if n < 2: return False
    for p in _SMALL:
        if n == p: return True
        if n % p == 0: return False
    d, s = n - 1, 0
    while d % 2 == 0: d //= 2; s += 1
    for a in _SMALL[:16]:
        x = pow(a, d, n)
        if x in (1, n - 1): continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1: break
        else: return False
    return True
def next_prime(n):
    n = int(n) + 1
    if n <= 2: return 2
    n |= 1
    while not is_prime(n): n += 2
    return n
