#!/usr/bin/env python3
"""Compares the reference implementations of the harness with Python's hashlib, hmac and base64, and with
published vectors. usage: selftest.py [BINARY] (compiles one into /verif/build if not given); selftest.py --long
compares the whole table of long messages (about 15 minutes)."""
import base64, hashlib, hmac, os, random, struct, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NAMES = ["md5", "sha1", "sha224", "sha256", "sha384", "sha512", "sha512_224", "sha512_256", "sha3_224", "sha3_256",
         "sha3_384", "sha3_512", None, "shake_128", None, "shake_256"]
def main():
    full = "--long" in sys.argv
    if full: sys.argv.remove("--long")
    if len(sys.argv) > 1: exe = sys.argv[1]
    else:
        os.makedirs(ROOT + "/build", exist_ok=True)
        exe = ROOT + "/build/selftest"
        subprocess.check_call(["/usr/bin/clang++", "-std=c++17", "-O2", "-o", exe, ROOT + "/harness/selftest.cpp", ROOT + "/harness/ref.cpp"])
    if subprocess.call([sys.executable, ROOT + "/tools/gen_tables.py", "--check"]): sys.exit("ref_tables.h is stale")
    rnd = random.Random(1); q = []; exp = []
    hx = lambda b: b.hex() or "-"
    def new(nm, d=b""):
        return hashlib.new(nm.replace("sha512_", "sha512-") if nm.startswith("sha512_") else nm, d)
    def H(a, d, bits):
        h = new(NAMES[a], d)
        if a >= 12:
            n = (bits + 7) // 8; o = bytearray(h.digest(n))
            if bits % 8 and n: o[-1] &= (1 << bits % 8) - 1
            return bytes(o).hex()
        return h.hexdigest()
    for a in range(16):
        if not NAMES[a]: continue
        try: new(NAMES[a])
        except ValueError: print("no", NAMES[a], "in hashlib"); continue
        for n in list(range(0, 300)) + [rnd.randrange(300, 5000) for _ in range(30)]:
            d = rnd.randbytes(n); bits = rnd.choice([8, 256, 7, 1, 1344, 1088, 2000 + n, 1345])
            q.append("hash %d %d %s" % (a, bits if a >= 12 else 0, hx(d))); exp.append(H(a, d, bits))
            q.append("split %d %d %s" % (a, rnd.randrange(5000), hx(d))); exp.append(H(a, d, 256))
            if a < 12:
                k = rnd.randbytes(rnd.choice([0, 1, n, 63, 64, 65, 127, 128, 129, 143, 144, 145, 72, 73, 104, 105, 136, 137]))
                mac = hmac.new(k, d, lambda x=b"", nm=NAMES[a]: new(nm, x)).digest()
                q.append("hmac %d %s %s" % (a, hx(k), hx(d))); exp.append(mac.hex())
                c = rnd.choice([n, rnd.getrandbits(64), 2**32 + n]); dg = rnd.randrange(1, 12)
                m = hmac.new(k, struct.pack(">Q", c), lambda x=b"", nm=NAMES[a]: new(nm, x)).digest(); o = m[-1] & 15
                q.append("hotp %d %s %d %d" % (a, hx(k), c, dg))
                if o + 4 > len(m): exp.append("undef")
                else:
                    v = struct.unpack(">I", m[o:o + 4])[0] & 0x7fffffff
                    exp.append(str(v % 10**dg if dg < 10 else v).zfill(dg))
    for n in range(0, 400):
        d = rnd.choice([rnd.randbytes(n), bytes(n), rnd.randbytes(n // 2) + bytes(n - n // 2)])
        for b, f in enumerate([base64.b16encode, base64.b32encode, base64.b32hexencode, base64.b64encode, base64.urlsafe_b64encode]):
            q.append("enc %d %s" % (b, hx(d))); exp.append(f(d).decode())
    # RawSHAKE: SHAKE(M) = RawSHAKE(M || 11), so on bytes only known answers; FIPS 202 example-free: the empty-message
    # values below were computed with the sponge definition by an independent Python Keccak in this file.
    for a, rate in ((12, 168), (14, 136), (13, 168), (15, 136)):
        for n in (0, 1, 7, rate - 1, rate, rate + 1, 3 * rate + 5):
            d = rnd.randbytes(n)
            q.append("hash %d %d %s" % (a, 2000, hx(d))); exp.append(keccak(rate, d, 0x07 if a in (12, 14) else 0x1f, 250).hex())
    # Blowfish: Schneier's vectors
    for k, p, c in (("0000000000000000", "0000000000000000", "4ef997456198dd78"), ("ffffffffffffffff", "ffffffffffffffff", "51866fd5b85ecb8a"),
                    ("3000000000000000", "1000000000000001", "7d856f9a613063f2"), ("0123456789abcdef", "1111111111111111", "61f9c3802281b096"),
                    ("fedcba9876543210", "0123456789abcdef", "0aceab0fc6a0a28d"), ("f0e1d2c3b4a5968778695a4b3c2d1e0f0011223344556677", "fedcba9876543210", "05044b62fa52d080"),
                    ("f0", "fedcba9876543210", "f9ad597c49db005e")):
        q.append("bf 1 %s %s" % (k, p)); exp.append(c)
        q.append("bf 0 %s %s" % (k, c)); exp.append(p)
    # the long message: digests around the marks
    pat = bytearray(); x = 0x2545F4914F6CDD1D; M = (1 << 64) - 1
    for _ in range(257 * 4096):
        x ^= (x << 13) & M; x ^= x >> 7; x ^= (x << 17) & M
        pat.append(1 + (x >> 20) % 255)
    pat = bytes(pat)
    marks = [1 << 29, 1 << 30, 1 << 31, 3 << 30, 1 << 32]
    bs = [64, 64, 64, 64, 128, 128, 128, 128, 144, 136, 104, 72, 168, 168, 136, 136]
    def long_one(job):
        a, mac = job
        if mac:
            k = bytes((i * 7 + a * 13) & 255 for i in range(bs[a] + 9 if a & 1 else 21 + a))
            h = hmac.new(k, b"", lambda x=b"": new(NAMES[a], x))
        else: h = new(NAMES[a])
        at = 0; res = []
        for m in marks if full else marks[:1]:
            to = m + 12345 * a % 777 - 300
            while at < to:
                o = at % len(pat); n = min(len(pat) - o, to - at); h.update(memoryview(pat)[o:o + n]); at += n
            c = h.copy()
            res.append(("long %d %d %d" % (a, mac, to), c.digest(64).hex() if a >= 12 else c.hexdigest()))
        return res
    jobs = [(a, m) for m in (0, 1) for a in range(16) if NAMES[a] and not (m and a >= 12)]
    if not full: jobs = [j for j in jobs if j in ((0, 0), (1, 1), (3, 0), (5, 1), (9, 0), (13, 0))]
    import concurrent.futures
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for r in ex.map(long_one, jobs):
            for a, b in r: q.append(a); exp.append(b)
    out = subprocess.run([exe], input="\n".join(q) + "\n", capture_output=True, text=True).stdout.split("\n")
    bad = [(a, b, c) for a, b, c in zip(q, exp, out) if b != c]
    if len(out) < len(q) or bad:
        for x in bad[:5]: print("MISMATCH", x)
        sys.exit("selftest failed: %d of %d" % (len(bad), len(q)))
    print("selftest: %d comparisons agree" % len(q))

def keccak(rate, d, suf, n):
    M = (1 << 64) - 1
    A = [[0] * 5 for _ in range(5)]
    rol = lambda v, k: ((v << k) | (v >> (64 - k))) & M if k else v
    def f():
        nonlocal A
        R = 1
        for _ in range(24):
            C = [A[x][0] ^ A[x][1] ^ A[x][2] ^ A[x][3] ^ A[x][4] for x in range(5)]
            D = [C[(x + 4) % 5] ^ rol(C[(x + 1) % 5], 1) for x in range(5)]
            A = [[A[x][y] ^ D[x] for y in range(5)] for x in range(5)]
            x, y = 1, 0; cur = A[x][y]
            for t in range(24):
                x, y = y, (2 * x + 3 * y) % 5
                cur, A[x][y] = A[x][y], rol(cur, (t + 1) * (t + 2) // 2 % 64)
            for y in range(5):
                T = [A[x][y] for x in range(5)]
                for x in range(5): A[x][y] = T[x] ^ (~T[(x + 1) % 5] & M & T[(x + 2) % 5])
            for j in range(7):
                R = ((R << 1) ^ ((R >> 7) * 0x71)) % 256
                if R & 2: A[0][0] ^= 1 << ((1 << j) - 1)
    p = bytearray(d) + bytes([suf]); p += bytes(-len(p) % rate); p[-1] |= 0x80
    for o in range(0, len(p), rate):
        for i in range(rate // 8): A[i % 5][i // 5] ^= int.from_bytes(p[o + 8 * i:o + 8 * i + 8], "little")
        f()
    out = b""
    while len(out) < n:
        out += b"".join(A[i % 5][i // 5].to_bytes(8, "little") for i in range(rate // 8)); f()
    return out[:n]
main()
