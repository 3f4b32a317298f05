#!/usr/bin/env python3
"""Computes harness/ref_tables.h from the definitions in the standards (nothing is copied from libpgfe).

MD5 K: floor(2^32 |sin i|). SHA-2 K: cube roots of primes; IVs: square roots of primes (SHA-512/t IVs come from
the FIPS 180-4 generation function at run time). Keccak RC: LFSR of FIPS 202. Blowfish: fraction of pi.
"""
import os, sys
from math import isqrt
from decimal import Decimal, getcontext

def primes(n):
    r, k = [], 2
    while len(r) < n:
        if all(k % q for q in r if q * q <= k): r.append(k)
        k += 1
    return r
def icbrt(n):
    x = 1 << ((n.bit_length() + 2) // 3)
    while True:
        y = (2 * x + n // (x * x)) // 3
        if y >= x: return x
        x = y
def frac_sqrt(p, bits): return isqrt(p << (2 * bits)) & ((1 << bits) - 1)
def frac_cbrt(p, bits): return icbrt(p << (3 * bits)) & ((1 << bits) - 1)

def pi_frac_bits(bits):
    """floor(frac(pi) * 2^bits) by Machin's formula with guard bits."""
    g = bits + 64
    one = 1 << g
    def arctan_inv(x):
        t = one // x; s = t; n = 3; sign = -1; x2 = x * x
        while t:
            t //= x2; s += sign * (t // n); n += 2; sign = -sign
        return s
    pi = 4 * (4 * arctan_inv(5) - arctan_inv(239))
    return (pi - (3 << g)) >> 64

def sin_table():
    getcontext().prec = 60
    out = []
    for i in range(1, 65):
        x = Decimal(i); t = x; s = x; n = 1
        while abs(t) > Decimal(10) ** -50:
            t = -t * x * x / ((n + 1) * (n + 2)); s += t; n += 2
        out.append(int(abs(s) * (1 << 32)))
    return out

def keccak_rc():
    def rc(t):
        if t % 255 == 0: return 1
        R = [1, 0, 0, 0, 0, 0, 0, 0]
        for _ in range(t % 255):
            R = [0] + R
            R[0] ^= R[8]; R[4] ^= R[8]; R[5] ^= R[8]; R[6] ^= R[8]
            R = R[:8]
        return R[0]
    return [sum(rc(j + 7 * ir) << ((1 << j) - 1) for j in range(7)) for ir in range(24)]

def emit(name, ty, vals, per, fmt):
    s = "static const %s %s[%d] = {\n" % (ty, name, len(vals))
    for i in range(0, len(vals), per):
        s += "    " + ", ".join(fmt % v for v in vals[i:i + per]) + ",\n"
    return s + "};\n"

def main():
    pr = primes(80)
    o = "// Generated by tools/gen_tables.py; do not edit.\n#pragma once\n#include <stdint.h>\n"
    o += emit("RT_MD5_K", "uint32_t", sin_table(), 8, "0x%08x")
    o += emit("RT_SHA256_K", "uint32_t", [frac_cbrt(p, 32) for p in pr[:64]], 8, "0x%08x")
    o += emit("RT_SHA512_K", "uint64_t", [frac_cbrt(p, 64) for p in pr], 4, "0x%016xULL")
    o += emit("RT_SHA256_IV", "uint32_t", [frac_sqrt(p, 32) for p in pr[:8]], 8, "0x%08x")
    o += emit("RT_SHA512_IV", "uint64_t", [frac_sqrt(p, 64) for p in pr[:8]], 4, "0x%016xULL")
    o += emit("RT_SHA384_IV", "uint64_t", [frac_sqrt(p, 64) for p in pr[8:16]], 4, "0x%016xULL")
    o += emit("RT_SHA224_IV", "uint32_t", [frac_sqrt(p, 64) & 0xffffffff for p in pr[8:16]], 8, "0x%08x")
    o += emit("RT_KECCAK_RC", "uint64_t", keccak_rc(), 4, "0x%016xULL")
    nw = 18 + 1024
    v = pi_frac_bits(32 * nw)
    o += emit("RT_PI", "uint32_t", [(v >> (32 * (nw - 1 - i))) & 0xffffffff for i in range(nw)], 8, "0x%08x")
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness", "ref_tables.h")
    if "--check" in sys.argv:
        sys.exit(0 if open(path).read() == o else 1)
    open(path, "w").write(o)
if __name__ == "__main__": main()
