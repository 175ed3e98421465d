"""Independent BER / SNMP / USM implementation (oracle). Written from X.690, RFC 1157/3416/3412/3414/3826."""
import hashlib, struct
from fractions import Fraction


class BerError(Exception):
    pass


# ------------------------------------------------------------------ encoding
def elen(n, form=0):
    """minimal length octets; form=k forces a k-octet long form"""
    if form:
        form = max(form, (n.bit_length() + 7) // 8)
        return bytes([0x80 | form]) + n.to_bytes(form, "big")
    if n < 128:
        return bytes([n])
    k = (n.bit_length() + 7) // 8
    return bytes([0x80 | k]) + n.to_bytes(k, "big")


def tlv(tag, content=b"", form=0):
    t = bytes([tag]) if isinstance(tag, int) else tag
    return t + elen(len(content), form) + content


def int_content(v):
    n = 1
    while not -(1 << (8 * n - 1)) <= v < (1 << (8 * n - 1)):
        n += 1
    return v.to_bytes(n, "big", signed=True)


def eint(v, tag=2, form=0):
    return tlv(tag, int_content(v), form)


def arc(n):
    out = [n & 0x7F]
    n >>= 7
    while n:
        out.append(0x80 | (n & 0x7F))
        n >>= 7
    return bytes(reversed(out))


def oid_content(arcs):
    return arc(arcs[0] * 40 + arcs[1]) + b"".join(arc(a) for a in arcs[2:])


def arcs_of(text):
    return [int(x) for x in text.split(".")]


def eoid(o, form=0):
    return tlv(6, oid_content(arcs_of(o) if isinstance(o, str) else o), form)


def seq(*parts, form=0):
    return tlv(0x30, b"".join(parts), form)


def octs(b, form=0):
    return tlv(4, b, form)


# ------------------------------------------------------------------ decoding
def hdr(b, p=0):
    """-> (class, constructed, tag, content start, content end); strict definite-length, in bounds"""
    if p >= len(b):
        raise BerError("empty")
    f = b[p]
    cls, cons, tag = f >> 6, bool(f & 0x20), f & 0x1F
    p += 1
    if tag == 0x1F:
        tag = 0
        while True:
            if p >= len(b):
                raise BerError("tag")
            tag = tag << 7 | b[p] & 0x7F
            p += 1
            if not b[p - 1] & 0x80:
                break
    if p >= len(b):
        raise BerError("length")
    l = b[p]
    p += 1
    if l & 0x80:
        k = l & 0x7F
        if k == 0 or p + k > len(b):
            raise BerError("length")
        l = int.from_bytes(b[p:p + k], "big")
        p += k
    if p + l > len(b):
        raise BerError("content")
    return cls, cons, tag, p, p + l


class Rd:
    """minimal-form reader: rejects non-minimal lengths / integers"""

    def __init__(self, b, strict=True):
        self.b, self.p, self.strict = b, 0, strict

    def take(self, ident):
        cls, cons, tag, a, e = hdr(self.b, self.p)
        got = self.b[self.p]
        if got != ident:
            raise BerError(f"identifier {got:#x}, expected {ident:#x}")
        c = self.b[a:e]
        if self.strict and self.b[self.p:a] != bytes([ident]) + elen(len(c)):
            raise BerError("length is not minimal")
        self.p = e
        return c

    def any(self):
        ident = self.b[self.p] if self.p < len(self.b) else -1
        cls, cons, tag, a, e = hdr(self.b, self.p)
        return ident, self.take(ident)

    def int(self):
        c = self.take(2)
        if not c:
            raise BerError("empty integer")
        v = int.from_bytes(c, "big", signed=True)
        if self.strict and int_content(v) != c:
            raise BerError("integer is not minimal")
        return v

    def end(self):
        if self.p != len(self.b):
            raise BerError("trailing octets")

    def more(self):
        return self.p < len(self.b)


def dec_oid(c):
    subs, n, i = [], 0, 0
    if not c:
        raise BerError("empty oid")
    st = True
    for x in c:
        if st and x == 0x80:
            raise BerError("oid sub-identifier is not minimal")
        n = n << 7 | x & 0x7F
        st = False
        if not x & 0x80:
            subs.append(n)
            n, st = 0, True
    if not st:
        raise BerError("oid truncated")
    f = min(subs[0] // 40, 2)
    return [f, subs[0] - 40 * f] + subs[1:]


def dots(a):
    return ".".join(map(str, a))


# ------------------------------------------------------------------ SNMP messages
def dec_pdu(c):
    """request PDU -> dict"""
    r = Rd(c)
    ident, body = r.any()
    r.end()
    d = {"pdu": ident & 0x1F, "ident": ident}
    q = Rd(body)
    d["id"] = q.int()
    d["f1"], d["f2"] = q.int(), q.int()
    v = Rd(q.take(0x30))
    q.end()
    d["vars"] = []
    while v.more():
        x = Rd(v.take(0x30))
        o = dots(dec_oid(x.take(6)))
        i2, val = x.any()
        x.end()
        d["vars"].append((o, i2, val))
    return d


def dec_msg(b):
    r = Rd(b)
    m = Rd(r.take(0x30))
    r.end()
    ver = m.int()
    d = {"version": ver}
    if ver in (0, 1):
        d["community"] = m.take(4)
        d["pdu_raw"] = m.b[m.p:]
        d.update(dec_pdu(m.b[m.p:]))
        return d
    if ver != 3:
        raise BerError("version")
    g = Rd(m.take(0x30))
    d["msg_id"], d["max_size"] = g.int(), g.int()
    f = g.take(4)
    if len(f) != 1:
        raise BerError("flags")
    d["flags"] = f[0]
    d["sm"] = g.int()
    g.end()
    sp = m.take(4)
    s = Rd(sp)
    u = Rd(s.take(0x30))
    s.end()
    d["engine"], d["boots"], d["time"], d["user"] = u.take(4), u.int(), u.int(), u.take(4)
    d["auth"], d["priv"] = u.take(4), u.take(4)
    u.end()
    rest = m.b[m.p:]
    # offset of the authentication parameters in the whole message
    if rest[:1] == b"\x04":
        d["enc"] = m.take(4)
        m.end()
    else:
        d["scoped_raw"] = rest
        d.update(dec_scoped(rest))
    d["auth_off"] = auth_offset(b)
    return d


def dec_scoped(b, pad=None):
    """scoped PDU; pad=None: nothing may follow"""
    r = Rd(b)
    s = Rd(r.take(0x30))
    if pad is None:
        r.end()
    elif len(b) - r.p >= pad:
        raise BerError("too much padding")
    d = {"ctx_engine": s.take(4), "ctx_name": s.take(4), "pdu_raw": s.b[s.p:]}
    d.update(dec_pdu(s.b[s.p:]))
    return d


def auth_offset(b):
    _, _, _, p, e = hdr(b, 0)
    for _ in range(2):
        p = hdr(b, p)[4]
    p = hdr(b, p)[3]           # octet string contents
    p = hdr(b, p)[3]           # usm sequence contents
    for _ in range(4):
        p = hdr(b, p)[4]
    return hdr(b, p)[3]


def varbind(oid, val, form=0):
    return tlv(0x30, (eoid(oid) if not isinstance(oid, bytes) else oid) + val, form)


def pdu(ident, rid, vbs, f1=0, f2=0, forms=(0, 0)):
    return tlv(ident, eint(rid) + eint(f1) + eint(f2) + tlv(0x30, b"".join(vbs), forms[1]), forms[0])


RESP, REPORT = 0xA2, 0xA8


def community_msg(ver, community, p, form=0):
    return tlv(0x30, eint(ver) + octs(community) + p, form)


def scoped(engine, p, name=b"", form=0):
    return tlv(0x30, octs(engine) + octs(name) + p, form)


def v3_msg(msg_id, flags, engine, boots, time, user, data, auth=b"", priv=b"", form=0, max_size=65507, sm=3, uform=0):
    usm = tlv(0x30, octs(engine) + eint(boots) + eint(time) + octs(user) + octs(auth) + octs(priv), uform)
    return tlv(0x30, eint(3) + seq(eint(msg_id), eint(max_size), octs(bytes([flags])), eint(sm)) + octs(usm) + data, form)


# ------------------------------------------------------------------ USM keys
HASH = {"md5": hashlib.md5, "sha1": hashlib.sha1}
ALG = {"md5": 1, "sha1": 2}
KLEN = {"md5": 16, "sha1": 20}


def password_to_key(alg, pw):
    n = 1048576
    return HASH[alg]((pw * (n // len(pw) + 1))[:n]).digest()


def localize(alg, ku, engine):
    return HASH[alg](ku + engine + ku).digest()


def hmac96(alg, key, msg):
    k = key + bytes(64 - len(key))
    h = HASH[alg]
    inner = h(bytes(x ^ 0x36 for x in k) + msg).digest()
    return h(bytes(x ^ 0x5C for x in k) + inner).digest()[:12]


def sign(alg, key, msg, off=None):
    off = auth_offset(msg) if off is None else off
    z = msg[:off] + bytes(12) + msg[off + 12:]
    return msg[:off] + hmac96(alg, key, z) + msg[off + 12:]


def mac_ok(alg, key, msg, d):
    off = d["auth_off"]
    return len(d["auth"]) == 12 and sign(alg, key, msg, off) == msg


# ------------------------------------------------------------------ DES (FIPS 46-3)
_IP = [58,50,42,34,26,18,10,2,60,52,44,36,28,20,12,4,62,54,46,38,30,22,14,6,64,56,48,40,32,24,16,8,57,49,41,33,25,17,9,1,59,51,43,35,27,19,11,3,61,53,45,37,29,21,13,5,63,55,47,39,31,23,15,7]
_FP = [40,8,48,16,56,24,64,32,39,7,47,15,55,23,63,31,38,6,46,14,54,22,62,30,37,5,45,13,53,21,61,29,36,4,44,12,52,20,60,28,35,3,43,11,51,19,59,27,34,2,42,10,50,18,58,26,33,1,41,9,49,17,57,25]
_E = [32,1,2,3,4,5,4,5,6,7,8,9,8,9,10,11,12,13,12,13,14,15,16,17,16,17,18,19,20,21,20,21,22,23,24,25,24,25,26,27,28,29,28,29,30,31,32,1]
_P = [16,7,20,21,29,12,28,17,1,15,23,26,5,18,31,10,2,8,24,14,32,27,3,9,19,13,30,6,22,11,4,25]
_PC1 = [57,49,41,33,25,17,9,1,58,50,42,34,26,18,10,2,59,51,43,35,27,19,11,3,60,52,44,36,63,55,47,39,31,23,15,7,62,54,46,38,30,22,14,6,61,53,45,37,29,21,13,5,28,20,12,4]
_PC2 = [14,17,11,24,1,5,3,28,15,6,21,10,23,19,12,4,26,8,16,7,27,20,13,2,41,52,31,37,47,55,30,40,51,45,33,48,44,49,39,56,34,53,46,42,50,36,29,32]
_SH = [1,1,2,2,2,2,2,2,1,2,2,2,2,2,2,1]
_S = [
[14,4,13,1,2,15,11,8,3,10,6,12,5,9,0,7,0,15,7,4,14,2,13,1,10,6,12,11,9,5,3,8,4,1,14,8,13,6,2,11,15,12,9,7,3,10,5,0,15,12,8,2,4,9,1,7,5,11,3,14,10,0,6,13],
[15,1,8,14,6,11,3,4,9,7,2,13,12,0,5,10,3,13,4,7,15,2,8,14,12,0,1,10,6,9,11,5,0,14,7,11,10,4,13,1,5,8,12,6,9,3,2,15,13,8,10,1,3,15,4,2,11,6,7,12,0,5,14,9],
[10,0,9,14,6,3,15,5,1,13,12,7,11,4,2,8,13,7,0,9,3,4,6,10,2,8,5,14,12,11,15,1,13,6,4,9,8,15,3,0,11,1,2,12,5,10,14,7,1,10,13,0,6,9,8,7,4,15,14,3,11,5,2,12],
[7,13,14,3,0,6,9,10,1,2,8,5,11,12,4,15,13,8,11,5,6,15,0,3,4,7,2,12,1,10,14,9,10,6,9,0,12,11,7,13,15,1,3,14,5,2,8,4,3,15,0,6,10,1,13,8,9,4,5,11,12,7,2,14],
[2,12,4,1,7,10,11,6,8,5,3,15,13,0,14,9,14,11,2,12,4,7,13,1,5,0,15,10,3,9,8,6,4,2,1,11,10,13,7,8,15,9,12,5,6,3,0,14,11,8,12,7,1,14,2,13,6,15,0,9,10,4,5,3],
[12,1,10,15,9,2,6,8,0,13,3,4,14,7,5,11,10,15,4,2,7,12,9,5,6,1,13,14,0,11,3,8,9,14,15,5,2,8,12,3,7,0,4,10,1,13,11,6,4,3,2,12,9,5,15,10,11,14,1,7,6,0,8,13],
[4,11,2,14,15,0,8,13,3,12,9,7,5,10,6,1,13,0,11,7,4,9,1,10,14,3,5,12,2,15,8,6,1,4,11,13,12,3,7,14,10,15,6,8,0,5,9,2,6,11,13,8,1,4,10,7,9,5,0,15,14,2,3,12],
[13,2,8,4,6,15,11,1,10,9,3,14,5,0,12,7,1,15,13,8,10,3,7,4,12,5,6,11,0,14,9,2,7,11,4,1,9,12,14,2,0,6,10,13,15,3,5,8,2,1,14,7,4,10,8,13,15,12,9,0,3,5,6,11]]


def _perm(v, n, tab):
    r = 0
    for t in tab:
        r = r << 1 | (v >> (n - t)) & 1
    return r


_SP = None


def _sp():
    global _SP
    if _SP is None:
        _SP = []
        for b in range(8):
            row = []
            for x in range(64):
                s = _S[b][((x >> 4 & 2) | (x & 1)) * 16 + (x >> 1 & 15)]
                row.append(_perm(s << (28 - 4 * b), 32, _P))
            _SP.append(row)
    return _SP


_KS = {}


def _des_keys(key):
    if key not in _KS:
        k = _perm(int.from_bytes(key, "big"), 64, _PC1)
        c, d, out = k >> 28, k & 0xFFFFFFF, []
        for s in _SH:
            c = (c << s | c >> (28 - s)) & 0xFFFFFFF
            d = (d << s | d >> (28 - s)) & 0xFFFFFFF
            out.append(_perm(c << 28 | d, 56, _PC2))
        _KS[key] = out
    return _KS[key]


def _bytes_tab(tab):
    return [[_perm(x << (56 - 8 * i), 64, tab) for x in range(256)] for i in range(8)]


_IPT, _FPT = _bytes_tab(_IP), _bytes_tab(_FP)


def _by(T, b):
    return T[0][b[0]] | T[1][b[1]] | T[2][b[2]] | T[3][b[3]] | T[4][b[4]] | T[5][b[5]] | T[6][b[6]] | T[7][b[7]]


def des_block(key, blk, dec=False):
    ks = _des_keys(key)
    s0, s1, s2, s3, s4, s5, s6, s7 = _sp()
    v = _by(_IPT, blk)
    l, r = v >> 32, v & 0xFFFFFFFF
    for k in (ks[::-1] if dec else ks):
        e = (r & 1) << 33 | r << 1 | r >> 31        # the expansion E, six bits at a time
        l, r = r, l ^ (s0[e >> 28 & 63 ^ k >> 42] | s1[e >> 24 & 63 ^ k >> 36 & 63] | s2[e >> 20 & 63 ^ k >> 30 & 63] |
                       s3[e >> 16 & 63 ^ k >> 24 & 63] | s4[e >> 12 & 63 ^ k >> 18 & 63] | s5[e >> 8 & 63 ^ k >> 12 & 63] |
                       s6[e >> 4 & 63 ^ k >> 6 & 63] | s7[e & 63 ^ k & 63])
    return _by(_FPT, (r << 32 | l).to_bytes(8, "big")).to_bytes(8, "big")


def xor(a, b):
    n = min(len(a), len(b))
    return (int.from_bytes(a[:n], "big") ^ int.from_bytes(b[:n], "big")).to_bytes(n, "big")


def des_cbc(key, iv, data, dec=False):
    out, p = b"", iv
    for i in range(0, len(data), 8):
        b = data[i:i + 8]
        if dec:
            out += xor(des_block(key, b, True), p)
            p = b
        else:
            p = des_block(key, xor(b, p))
            out += p
    return out


# ------------------------------------------------------------------ AES-128 (FIPS 197)
def _mk_sbox():
    p = q = 1
    s = [0] * 256
    while True:
        p = p ^ (p << 1) & 0xFF ^ (0x1B if p & 0x80 else 0)
        q ^= q << 1
        q ^= q << 2
        q ^= q << 4
        q &= 0xFF
        if q & 0x80:
            q ^= 0x09
        x = q ^ (q << 1 | q >> 7) & 0xFF ^ (q << 2 | q >> 6) & 0xFF ^ (q << 3 | q >> 5) & 0xFF ^ (q << 4 | q >> 4) & 0xFF
        s[p] = (x ^ 0x63) & 0xFF
        if p == 1:
            break
    s[0] = 0x63
    return s


_SB = _mk_sbox()
_AK = {}


def _aes_keys(key):
    if key not in _AK:
        w = [list(key[i:i + 4]) for i in range(0, 16, 4)]
        rc = 1
        for i in range(4, 44):
            t = list(w[i - 1])
            if i % 4 == 0:
                t = [_SB[x] for x in t[1:] + t[:1]]
                t[0] ^= rc
                rc = rc << 1 ^ (0x11B if rc & 0x80 else 0)
            w.append([a ^ b for a, b in zip(w[i - 4], t)])
        _AK[key] = [sum(w[i:i + 4], []) for i in range(0, 44, 4)]
    return _AK[key]


_X2 = [(x << 1 ^ (0x1B if x & 0x80 else 0)) & 0xFF for x in range(256)]
_T0 = [_X2[_SB[x]] << 24 | _SB[x] << 16 | _SB[x] << 8 | _X2[_SB[x]] ^ _SB[x] for x in range(256)]
_T1, _T2, _T3 = ([w >> k | (w << (32 - k)) & 0xFFFFFFFF for w in _T0] for k in (8, 16, 24))
_AW = {}


def aes_block(key, blk):
    if key not in _AW:
        _AW[key] = [struct.unpack(">4I", bytes(k)) for k in _aes_keys(key)]
    ks = _AW[key]
    a, b, c, d = (x ^ y for x, y in zip(struct.unpack(">4I", blk), ks[0]))
    for p, q, r, s in ks[1:10]:
        a, b, c, d = (_T0[a >> 24] ^ _T1[b >> 16 & 255] ^ _T2[c >> 8 & 255] ^ _T3[d & 255] ^ p,
                      _T0[b >> 24] ^ _T1[c >> 16 & 255] ^ _T2[d >> 8 & 255] ^ _T3[a & 255] ^ q,
                      _T0[c >> 24] ^ _T1[d >> 16 & 255] ^ _T2[a >> 8 & 255] ^ _T3[b & 255] ^ r,
                      _T0[d >> 24] ^ _T1[a >> 16 & 255] ^ _T2[b >> 8 & 255] ^ _T3[c & 255] ^ s)
    w = (a, b, c, d)
    return struct.pack(">4I", *(_SB[w[i] >> 24] << 24 ^ _SB[w[(i + 1) % 4] >> 16 & 255] << 16 ^ _SB[w[(i + 2) % 4] >> 8 & 255] << 8
                                ^ _SB[w[(i + 3) % 4] & 255] ^ ks[10][i] for i in range(4)))


def aes_cfb(key, iv, data, dec=False):
    out, p = b"", iv
    for i in range(0, len(data), 16):
        d = data[i:i + 16]
        o = xor(d, aes_block(key, p))
        out += o
        p = d if dec else o
    return out


def priv_iv(alg, key, salt, boots, time):
    if alg == "des":
        return xor(key[8:16], salt)
    return struct.pack(">II", boots & 0xFFFFFFFF, time & 0xFFFFFFFF) + salt


def priv_encrypt(alg, key, salt, boots, time, data, pad=b"\0" * 8):
    iv = priv_iv(alg, key, salt, boots, time)
    if alg == "des":
        if len(data) % 8:
            data += pad[:8 - len(data) % 8]
        return des_cbc(key[:8], iv, data)
    return aes_cfb(key[:16], iv, data)


def priv_decrypt(alg, key, salt, boots, time, data):
    iv = priv_iv(alg, key, salt, boots, time)
    return des_cbc(key[:8], iv, data, True) if alg == "des" else aes_cfb(key[:16], iv, data, True)


# ------------------------------------------------------------------ values
def oid_denotes(text):
    """list of arcs, or None when the text is not an OID the API must accept"""
    ps = text.split(".")
    if len(ps) < 2 or any(not p or not all("0" <= c <= "9" for c in p) for p in ps):
        return None
    a = [int(p) for p in ps]
    if a[0] > 2 or a[1] > 39 or any(x > 0xFFFFFFFF for x in a):
        return None
    return a


def real_content(kind, *a):
    return None


def real_binary_value(c):
    """exact Fraction of a binary REAL"""
    f = c[0]
    k = f & 3
    if k == 3:
        n = c[1]
        es, rest = c[2:2 + n], c[2 + n:]
    else:
        es, rest = c[1:2 + k], c[2 + k:]
    e = int.from_bytes(es, "big", signed=True)
    b = {0: 2, 1: 8, 2: 16}[(f >> 4) & 3]
    v = Fraction(int.from_bytes(rest, "big")) * Fraction(2) ** ((f >> 2) & 3) * Fraction(b) ** e
    return -v if f & 0x40 else v


def selftest():
    assert des_block(bytes.fromhex("133457799BBCDFF1"), bytes.fromhex("0123456789ABCDEF")).hex().upper() == "85E813540F0AB405"
    assert des_block(bytes.fromhex("133457799BBCDFF1"), bytes.fromhex("85E813540F0AB405"), True).hex().upper() == "0123456789ABCDEF"
    assert aes_block(bytes(range(16)), bytes.fromhex("00112233445566778899aabbccddeeff")).hex() == "69c4e0d86a7b0430d8cdb78070b4c55a"
    assert password_to_key("md5", b"maplesyrup").hex() == "9faf3283884e92834ebc9847d8edd963"
    assert password_to_key("sha1", b"maplesyrup").hex() == "9fb5cc0381497b3793528939ff788d5d79145211"
    eng = bytes(11) + b"\x02"
    assert localize("md5", password_to_key("md5", b"maplesyrup"), eng).hex() == "526f5eed9fcce26f8964c2930787d82b"
    assert localize("sha1", password_to_key("sha1", b"maplesyrup"), eng).hex() == "6695febc9288e36282235fc7151f128497b38f3f"
    import hmac
    for alg in HASH:
        k = bytes(range(KLEN[alg]))
        assert hmac96(alg, k, b"abc" * 50) == hmac.new(k, b"abc" * 50, alg).digest()[:12]
    iv = bytes(range(16, 32))
    d = bytes(range(50))
    assert aes_cfb(bytes(16), iv, aes_cfb(bytes(16), iv, d), True) == d
    assert dec_oid(oid_content([1, 3, 6, 1, 4, 1, 4294967295])) == [1, 3, 6, 1, 4, 1, 4294967295]


if __name__ == "__main__":
    selftest()
    print("ok")
