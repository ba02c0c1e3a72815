"""Helpers shared by the drivers.  Nothing here uses psion."""
import base64
import hashlib
import hmac
import json
import re

SAFE = re.compile(r'\A[ !#-\[\]-}]{0,160}\Z')


def esc(x):
    """An ASCII stand-in for a string, equal iff the strings are equal."""
    if x is None:
        return ""
    if not isinstance(x, str):
        x = "<%s>%r" % (type(x).__name__, x)
    if SAFE.match(x):
        return x
    return "~" + hashlib.sha256(x.encode("utf-8", "surrogatepass")).hexdigest()[:32]


def b64u(b):
    return base64.urlsafe_b64encode(b).rstrip(b"=").decode()


def unb64u(s):
    if isinstance(s, str):
        s = s.encode()
    return base64.urlsafe_b64decode(s + b"=" * (-len(s) % 4))


def s256(verifier):
    return b64u(hashlib.sha256(verifier.encode("utf-8", "surrogatepass")).digest())


_UNRES = frozenset(b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-._~")
_URI = _UNRES | frozenset(b":/?#[]@!$&'()*+,;=%")


def pct(s, space="%20", keep=_UNRES):
    out = []
    for b in s.encode("utf-8", "surrogatepass"):
        out.append(chr(b) if b in keep else (space if b == 32 else "%%%02X" % b))
    return "".join(out)


def formenc(pairs, style=0):
    sp = "+" if style == 0 else "%20"
    return "&".join(pct(k, sp) + "=" + pct(v, sp) for k, v in pairs)


def unpct(s, plus=True):
    if plus:
        s = s.replace("+", " ")
    b = s.encode("utf-8", "surrogatepass")
    out = bytearray()
    i = 0
    while i < len(b):
        if b[i] == 37 and re.match(rb"[0-9A-Fa-f]{2}", b[i + 1:i + 3]):
            out.append(int(b[i + 1:i + 3], 16))
            i += 3
        else:
            out.append(b[i])
            i += 1
    return bytes(out).decode("utf-8", "replace")


def parse_pairs(q):
    """All name=value pairs of a query or form, blank values included."""
    out = []
    for part in q.split("&"):
        if not part:
            continue
        k, _, v = part.partition("=")
        out.append([unpct(k), unpct(v)])
    return out


def norm_uri(u):
    """Percent-encode what may not appear literally in a URI; upper-case hex."""
    u = pct(u, keep=_URI)
    return re.sub(r"%[0-9a-fA-F]{2}", lambda m: m.group(0).upper(), u)


def split_uri(u):
    rest, _, frag = u.partition("#")
    base, q, query = rest.partition("?")
    return {"base": esc(norm_uri(base) + ("#" + frag if frag else "")),
            "pairs": [[esc(k), esc(v)] for k, v in parse_pairs(query)]}


# --------------------------------------------------------------------------
# independent JOSE verification (RFC 7515, 7518) on top of cryptography

def _hash(alg):
    from cryptography.hazmat.primitives import hashes
    return {"256": hashes.SHA256, "384": hashes.SHA384, "512": hashes.SHA512}[alg[2:]]()


def _int(s):
    return int.from_bytes(unb64u(s), "big")


COORD = {"P-256": 32, "P-384": 48, "P-521": 66}
ALGCRV = {"ES256": "P-256", "ES384": "P-384", "ES512": "P-521"}


def curve(crv):
    from cryptography.hazmat.primitives.asymmetric import ec
    return {"P-256": ec.SECP256R1, "P-384": ec.SECP384R1, "P-521": ec.SECP521R1}[crv]()


def rsa_public(jwk):
    from cryptography.hazmat.primitives.asymmetric import rsa
    return rsa.RSAPublicNumbers(_int(jwk["e"]), _int(jwk["n"])).public_key(_be())


def _be():
    from cryptography.hazmat.backends import default_backend
    return default_backend()


def rsa_private(jwk):
    from cryptography.hazmat.primitives.asymmetric import rsa
    n, e, d = _int(jwk["n"]), _int(jwk["e"]), _int(jwk["d"])
    if "p" in jwk:
        p, q = _int(jwk["p"]), _int(jwk["q"])
    else:
        p, q = rsa.rsa_recover_prime_factors(n, e, d)
    return rsa.RSAPrivateNumbers(p, q, d, d % (p - 1), d % (q - 1), pow(q, -1, p),
                                 rsa.RSAPublicNumbers(e, n)).private_key(_be())


def ec_public(jwk):
    from cryptography.hazmat.primitives.asymmetric import ec
    return ec.EllipticCurvePublicNumbers(_int(jwk["x"]), _int(jwk["y"]), curve(jwk["crv"])).public_key(_be())


def ec_private(jwk):
    from cryptography.hazmat.primitives.asymmetric import ec
    return ec.EllipticCurvePrivateNumbers(
        _int(jwk["d"]),
        ec.EllipticCurvePublicNumbers(_int(jwk["x"]), _int(jwk["y"]), curve(jwk["crv"]))).private_key(_be())


def raw_sign(alg, jwk, msg):
    from cryptography.hazmat.primitives.asymmetric import ec, padding
    from cryptography.hazmat.primitives.asymmetric.utils import decode_dss_signature
    if alg == "none":
        return b""
    if alg[0] == "H":
        return hmac.new(unb64u(jwk["k"]), msg, "sha" + alg[2:]).digest()
    h = _hash(alg)
    if alg[0] == "R":
        return rsa_private(jwk).sign(msg, padding.PKCS1v15(), h)
    if alg[0] == "P":
        return rsa_private(jwk).sign(msg, padding.PSS(padding.MGF1(h), h.digest_size), h)
    r, s = decode_dss_signature(ec_private(jwk).sign(msg, ec.ECDSA(h)))
    n = COORD[ALGCRV[alg]]
    return r.to_bytes(n, "big") + s.to_bytes(n, "big")


def raw_verify(alg, jwk, msg, sig):
    """Whether sig is a valid signature of msg; never raises."""
    from cryptography.exceptions import InvalidSignature
    from cryptography.hazmat.primitives.asymmetric import ec, padding
    from cryptography.hazmat.primitives.asymmetric.utils import encode_dss_signature
    try:
        if alg == "none":
            return sig == b""
        if alg[0] == "H":
            if jwk.get("kty") != "oct":
                return False
            return hmac.compare_digest(hmac.new(unb64u(jwk["k"]), msg, "sha" + alg[2:]).digest(), sig)
        h = _hash(alg)
        if alg[0] in "RP":
            if jwk.get("kty") != "RSA":
                return False
            pad = padding.PKCS1v15() if alg[0] == "R" else padding.PSS(padding.MGF1(h), h.digest_size)
            rsa_public(jwk).verify(sig, msg, pad, h)
            return True
        if jwk.get("kty") != "EC" or jwk.get("crv") != ALGCRV[alg]:
            return False
        n = COORD[ALGCRV[alg]]
        if len(sig) != 2 * n:
            return False
        r, s = int.from_bytes(sig[:n], "big"), int.from_bytes(sig[n:], "big")
        ec_public(jwk).verify(encode_dss_signature(r, s), msg, ec.ECDSA(h))
        return True
    except (InvalidSignature, ValueError):
        return False


def ext_token(alg, jwk, header, payload):
    """A compact JWS made without psion; header: dict or bytes, payload: bytes."""
    h = header if isinstance(header, bytes) else json.dumps(header, ensure_ascii=False).encode()
    msg = (b64u(h) + "." + b64u(payload)).encode()
    return msg + b"." + b64u(raw_sign(alg, jwk, msg)).encode()
