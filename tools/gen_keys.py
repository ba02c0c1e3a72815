#!/usr/bin/env python3
"""Makes harness/keys.json, the fixed key corpus of the drivers (test keys, made
without psion).  Run once with /opt/venv/bin/python; the result is committed."""
import hashlib, json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
from common import b64u, COORD, curve, _be
from cryptography.hazmat.primitives.asymmetric import ec, rsa

def i2b(i, n=None):
    return b64u(i.to_bytes(n or (i.bit_length() + 7) // 8, "big"))
K = {}
for n in (32, 33, 48, 64, 100):
    K["oct%d" % n] = {"kty": "oct", "k": b64u(os.urandom(n))}
K["oct32b"] = {"kty": "oct", "k": b64u(os.urandom(32))}
K["octz"] = {"kty": "oct", "k": b64u(b"\0\0" + os.urandom(30))}
K["octn"] = {"kty": "oct", "k": b64u(b"\xff\n\r -----" + os.urandom(30))}
def rsak(size, e=65537):
    p = rsa.generate_private_key(e, size, _be()).private_numbers()
    q = p.public_numbers
    return {"kty": "RSA", "n": i2b(q.n), "e": i2b(q.e), "d": i2b(p.d), "p": i2b(p.p), "q": i2b(p.q),
            "dp": i2b(p.dmp1), "dq": i2b(p.dmq1), "qi": i2b(p.iqmp)}
K["oct200"] = {"kty": "oct", "k": b64u(b"".join(hashlib.sha256(b"oct200-%d" % i).digest() for i in range(7))[:200])}
K["rsa2048"] = rsak(2048)
K["rsa2048b"] = rsak(2048)
K["rsa3072"] = rsak(3072)
K["rsa4096"] = rsak(4096)
K["rsa2048e3"] = rsak(2048, 3)
K["rsa1024"] = rsak(1024)
K["rsanocrt"] = {k: v for k, v in K["rsa2048b"].items() if k in ("kty", "n", "e", "d")}
def eck(crv, want=lambda x, y, d, n: True):
    n = COORD[crv]
    while True:
        p = ec.generate_private_key(curve(crv), _be()).private_numbers()
        x, y, d = p.public_numbers.x, p.public_numbers.y, p.private_value
        if want(x, y, d, n):
            return {"kty": "EC", "crv": crv, "x": i2b(x, n), "y": i2b(y, n), "d": i2b(d, n)}
for c in COORD:
    K["ec" + c[2:]] = eck(c)
    K["ec" + c[2:] + "b"] = eck(c)
    lim = lambda v, n, c=c: v < 1 << ((8 * n - 8) if c != "P-521" else (8 * n - 16))
    K["ec" + c[2:] + "x"] = eck(c, lambda x, y, d, n: lim(x, n))
    K["ec" + c[2:] + "y"] = eck(c, lambda x, y, d, n: lim(y, n))
    K["ec" + c[2:] + "d"] = eck(c, lambda x, y, d, n: lim(d, n))
json.dump(K, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness", "keys.json"), "w"), indent=1, sort_keys=True)
print(len(K))
