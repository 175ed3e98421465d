"""Shared infrastructure of the concrete explorations: sessions driven over loopback against an agent written here."""
import json, mmap, os, random, socket, struct, sys, threading, time
from importlib.machinery import ExtensionFileLoader
from importlib.util import module_from_spec, spec_from_loader

import gufo.snmp._fast as fast
from gufo.snmp._fast import (GetIter, SnmpV1ClientSocket, SnmpV2cClientSocket, SnmpV3ClientSocket, SnmpError,
                             SnmpDecodeError, SnmpEncodeError, SnmpAuthError, NoSuchInstance)
import vber as B
import lits

VH_MODS = [m for m in os.environ.get("VH_MODS", "").split(",") if m]


def _load_vh():
    try:
        ld = ExtensionFileLoader("_vh", fast.__file__)
        m = module_from_spec(spec_from_loader("_vh", ld))
        ld.exec_module(m)
        return m
    except Exception:
        return None


vh = _load_vh()


def has(mod):
    return vh is not None and mod in VH_MODS


class Fail(Exception):
    """the property does not hold on this case"""


class Skip(Exception):
    """this exploration cannot run here (a verification-only entry point is not available)"""


DOCUMENTED = (SnmpError, TimeoutError, BlockingIOError, OSError, ValueError, StopIteration, StopAsyncIteration)


# ------------------------------------------------------------------ json-able cases
def enc(o):
    if isinstance(o, (bytes, bytearray)):
        return {"$b": bytes(o).hex()}
    if isinstance(o, dict):
        return {str(k): enc(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [enc(x) for x in o]
    return o


def dec(o):
    if isinstance(o, dict):
        if set(o) == {"$b"}:
            return bytes.fromhex(o["$b"])
        return {k: dec(v) for k, v in o.items()}
    if isinstance(o, list):
        return [dec(x) for x in o]
    return o


NEAR, NEARB = lits.new(os.environ.get("VERIF_REPO", "/repo"))


class Near(random.Random):
    """now and then a value near a number that an edit brought in"""

    def near(self, lo, hi):
        if NEAR and self.random() < .12:
            v = [x for x in NEAR if lo <= x < hi]
            if v:
                return v[int(self.random() * len(v))]
        return None

    def randrange(self, start, stop=None, step=1):
        lo, hi = (0, start) if stop is None else (start, stop)
        if step == 1 and hi - lo > 4:
            v = self.near(lo, hi)
            if v is not None:
                return v
        return super().randrange(lo, hi, step)

    def choice(self, seq):
        if isinstance(seq, list) and len(seq) >= 6 and all(type(x) is int for x in seq):
            v = self.near(min(seq), max(seq) + 1)
            if v is not None:
                return v
        return super().choice(seq)


    def randbytes(self, n):
        b = super().randbytes(n)
        if NEARB and n and self.random() < .12:      # some octets of an edit, most often in front
            x = NEARB[int(self.random() * len(NEARB))][:n]
            i = 0 if self.random() < .6 else int(self.random() * (n - len(x) + 1))
            b = b[:i] + x + b[i + len(x):]
        return b


if NEAR or NEARB:
    random.Random = Near


class Ctx:
    """current case is kept in a shared file, so that a crash or a hang can be attributed"""

    def __init__(self, prop, tier, seed, budget, curfile):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.rng = random.Random(f"{prop}:{seed}")
        self.t0 = time.monotonic()
        self.budget = budget
        self.deadline = self.t0 + budget
        self.counts = {}
        self.distinct = set()
        self.samples = {}
        self.cur = None
        self.notes = []
        if curfile:
            with open(curfile, "wb") as f:
                f.write(b"\0" * (1 << 20))
            f = open(curfile, "r+b")
            self.cur = mmap.mmap(f.fileno(), 1 << 20)
        self.n = 0

    thorough = property(lambda s: s.tier == "thorough")

    def left(self):
        return self.deadline - time.monotonic()

    def note(self, kind, case):
        self.n += 1
        self.counts[kind] = self.counts.get(kind, 0) + 1
        b = json.dumps({"kind": kind, "case": enc(case)}).encode()
        self.distinct.add(hash(b))
        if kind not in self.samples:
            self.samples[kind] = b[:400].decode()
        if self.cur is not None:
            if len(b) + 16 < len(self.cur):
                self.cur[16:16 + len(b)] = b
                self.cur[0:16] = struct.pack("<QQ", self.n, len(b))

    def spread(self, gens, share=None):
        """interleave generators round robin until exhausted or out of time"""
        gens = [iter(g) for g in gens]
        while gens and self.left() > 0:
            for g in list(gens):
                try:
                    yield next(g)
                except StopIteration:
                    gens.remove(g)


def is_panic(e):
    return type(e).__name__ == "PanicException" or not isinstance(e, Exception)


def call(f, *a):
    """-> ("ok", value) / ("exc", exception)"""
    try:
        return ("ok", f(*a))
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:  # PanicException is not an Exception
        return ("exc", e)


def show(r):
    return f"returned {r[1]!r}" if r[0] == "ok" else f"raised {type(r[1]).__name__}: {r[1]}"


def want_exc(r, *types, what=""):
    if r[0] == "exc" and isinstance(r[1], types) and not is_panic(r[1]):
        return
    raise Fail(f"{what}: {show(r)}, expected {' / '.join(t.__name__ for t in types)}")


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, float):
        return struct.pack(">d", a) == struct.pack(">d", b) or (a != a and b != b)
    if isinstance(a, (tuple, list)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    return a == b


# ------------------------------------------------------------------ session configurations
ENGINE = bytes.fromhex("80001f88e8c14b2ad1e3a75f0b")
KT = {"password": 0, "master": 0x40, "localized": 0x80}
PRIV = {"des": 1, "aes": 2}


class Cfg:
    def __init__(self, ver, auth=None, priv=None, kt="password", pkt=None, engine=ENGINE, user="u5er", community="c0mmunity",
                 apw=b"authpassw0rd", ppw=b"privpassw0rd"):
        self.ver, self.auth, self.priv, self.kt, self.pkt = ver, auth, priv, kt, pkt or kt
        self.engine, self.user, self.community, self.apw, self.ppw = engine, user, community, apw, ppw

    FIELDS = ("ver", "auth", "priv", "kt", "pkt", "engine", "user", "community", "apw", "ppw")

    def case(self):
        return {k: getattr(self, k) for k in self.FIELDS}

    @staticmethod
    def of(d):
        return d if isinstance(d, Cfg) else Cfg(**d)

    def name(self):
        if self.ver != 3:
            return ["v1", "v2c"][self.ver]
        return "v3" + (f"-{self.auth}" if self.auth else "") + (f"-{self.priv}" if self.priv else "")

    def material(self, alg, kt, pw, engine):
        """(bytes handed to the library, localized key)"""
        ku = mkey(alg, pw)
        kul = B.localize(alg, ku, engine)
        return {"password": pw, "master": ku, "localized": kul}[kt], kul


def vary(cfg, r, p=.3):
    """now and then other credentials than the usual ones"""
    if r.random() >= p:
        return cfg
    name = "".join(r.choice("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 _-") for _ in range(
        r.choice([1, 2, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200])))
    return Cfg(cfg.ver, cfg.auth, cfg.priv, cfg.kt, cfg.pkt, user=name[:r.choice([16, 32, 33, 100])], community=name,
               engine=r.randbytes(r.choice([5, 8, 9, 12, 13, 16, 17, 24, 31, 32])) if r.random() < .5 else ENGINE,
               apw=cfg.apw if r.random() < .5 else r.choice([b"authpass", b"maplesyrup", b"another long password of forty octets...", name.encode()[:64]]))


_mk = {}


def mkey(alg, pw):
    if (alg, pw) not in _mk:
        _mk[alg, pw] = B.password_to_key(alg, pw)
    return _mk[alg, pw]


V1, V2C, V3 = Cfg(0), Cfg(1), Cfg(3)
AUTH = [Cfg(3, a, kt="localized") for a in ("md5", "sha1")]
PRIVS = [Cfg(3, a, p, kt="localized") for a in ("md5", "sha1") for p in ("des", "aes")]
ALL = [V1, V2C, V3] + AUTH + PRIVS
OPS = ("get", "get_many", "get_next", "get_bulk")


def agent_socket():
    s = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
    s.bind(("127.0.0.1", 0))
    s.settimeout(2.0)
    return s


class Session:
    """a non-blocking library socket and the agent end of it"""

    def __init__(self, cfg, timeout_ns=0):
        self.cfg = cfg = Cfg.of(cfg)
        self.ag = agent_socket()
        addr = "127.0.0.1:%d" % self.ag.getsockname()[1]
        self.boots, self.time = 3, 1000
        self.blocking = timeout_ns > 0
        self.kul = self.pkul = None
        self.found = False
        if cfg.ver == 0:
            self.s = SnmpV1ClientSocket(addr, cfg.community, 0, 0, 0, timeout_ns)
        elif cfg.ver == 1:
            self.s = SnmpV2cClientSocket(addr, cfg.community, 0, 0, 0, timeout_ns)
        else:
            a = b""
            p = b""
            aa = pa = 0
            if cfg.auth:
                a, self.kul = cfg.material(cfg.auth, cfg.kt, cfg.apw, cfg.engine)
                aa = B.ALG[cfg.auth] | KT[cfg.kt]
            if cfg.priv:
                p, self.pkul = cfg.material(cfg.auth, cfg.pkt, cfg.ppw, cfg.engine)
                pa = PRIV[cfg.priv] | KT[cfg.pkt]
            self.s = SnmpV3ClientSocket(addr, cfg.engine, cfg.user, aa, a, pa, p, 0, 0, 0, timeout_ns)
        self.peer = None
        self.salt = 0x1122334455667788
        self.client_addr()

    def client_addr(self):
        import os as _os
        fd = _os.dup(self.s.get_fd())
        t = socket.socket(fileno=fd)
        self.peer = t.getsockname()
        t.close()

    def close(self):
        self.ag.close()

    # ---- client side
    def send_op(self, op, arg):
        return getattr(self.s, "send_" + op)(*([] if op == "refresh" else [arg]))

    def recv_op(self, op, it=None):
        """as the async client does: again, while the socket is readable"""
        import select
        for _ in range(5000):
            try:
                return getattr(self.s, "recv_" + op)(*([it] if it is not None else []))
            except BlockingIOError:
                if self.blocking or not select.select([self.s.get_fd()], [], [], 0)[0]:
                    raise
        raise Fail("BlockingIOError again and again while the socket is readable")

    # ---- agent side
    def raw(self, timeout=None):
        """next emitted datagram or None"""
        try:
            self.ag.setblocking(timeout is not None)
            if timeout is not None:
                self.ag.settimeout(timeout)
            d, self.peer = self.ag.recvfrom(70000)
            return d
        except (BlockingIOError, TimeoutError):
            return None

    def read(self, raw=None):
        """next emitted message, decoded (and decrypted) strictly"""
        b = self.raw() if raw is None else raw
        if b is None:
            raise Fail("nothing was sent")
        return self.decode(b)

    def decode(self, b):
        try:
            d = B.dec_msg(b)
            d["raw"] = b
            if d["version"] == 3 and "enc" in d:
                if not self.pkul:
                    raise Fail("encrypted message without a privacy key")
                pl = B.priv_decrypt(self.cfg.priv, self.pkul, d["priv"], d["boots"], d["time"], d["enc"]) if len(d["enc"]) % (
                    8 if self.cfg.priv == "des" else 1) == 0 and len(d["priv"]) == 8 else None
                if pl is None:
                    raise Fail(f"msgData of {len(d['enc'])} octets / privacy parameters of {len(d['priv'])} octets")
                d["plain"] = pl
                d.update(B.dec_scoped(pl, pad=8 if self.cfg.priv == "des" else 16))
        except B.BerError as e:
            raise Fail(f"emitted message does not decode: {e}: {b.hex()}")
        return d

    def put(self, b):
        self.ag.sendto(b, self.peer)

    def ident(self, req):
        """(msg id, request id) to answer"""
        return req.get("msg_id", 0), req["id"]

    def message(self, req, pdu, **kw):
        """wrap a pdu as a reply to req. kw: overrides"""
        c = self.cfg
        if c.ver != 3:
            return B.community_msg(kw.get("version", c.ver), kw.get("community", c.community.encode()), pdu, kw.get("form", 0))
        eng = kw.get("engine", c.engine)
        boots, tm = kw.get("boots", self.boots), kw.get("time", self.time)
        flags = kw.get("flags", (1 if c.auth else 0) | (2 if c.priv else 0))
        sc = kw.get("scoped")
        if sc is None:
            sc = B.scoped(kw.get("ctx_engine", eng), pdu, kw.get("ctx_name", b""), kw.get("sform", 0))
        priv = b""
        if c.priv and not kw.get("clear"):
            self.salt = (self.salt + 1) & (1 << 64) - 1
            priv = kw.get("salt", self.salt.to_bytes(8, "big"))
            ct = kw.get("cipher")
            if ct is None:
                pk = kw.get("pkey", self.pkul)
                if len(priv) == 8:
                    ct = B.priv_encrypt(c.priv, pk, priv, boots, tm, sc + kw.get("tail", b""), kw.get("pad", b"\0" * 8))
                else:
                    ct = sc
            data = B.octs(ct, kw.get("sform", 0))
        else:
            data = sc
        auth = kw.get("auth_params", bytes(12) if c.auth else b"")
        m = B.v3_msg(kw.get("msg_id", req.get("msg_id", 0)), flags, eng, boots, tm, kw.get("user", c.user.encode()), data,
                     auth, kw.get("priv_params", priv), kw.get("form", 0), sm=kw.get("sm", 3), uform=kw.get("uform", 0))
        if c.auth and kw.get("sign", True) and len(auth) == 12:
            m = B.sign(c.auth, kw.get("key", self.kul), m)
        return m

    def response(self, req, vbs, ident=B.RESP, status=0, index=0, rid=None, forms=(0, 0), **kw):
        return self.message(req, B.pdu(ident, req["id"] if rid is None else rid, vbs, status, index, forms), **kw)

    def report(self, req, oid="1.3.6.1.6.3.15.1.1.4.0", rid=None, **kw):
        kw.setdefault("clear", True)
        if "user" in req:
            kw.setdefault("user", req["user"])
        kw.setdefault("flags", 0)
        kw.setdefault("auth_params", b"")
        return self.message(req, B.pdu(B.REPORT, req["id"] if rid is None else rid, [B.varbind(oid, B.tlv(0x41, b"\x01"))]), **kw)


def expect_request(cfg, d, op, oids, max_rep=None, boots=None, tm=None):
    """compare a decoded message with the request asked for"""
    cfg = Cfg.of(cfg)
    kind = {"get": 0, "get_many": 0, "get_next": 1, "get_bulk": 5, "refresh": 0}[op]
    if d["version"] != cfg.ver:
        raise Fail(f"version {d['version']}, expected {cfg.ver}")
    if cfg.ver != 3:
        if d["community"] != cfg.community.encode():
            raise Fail(f"community {d['community']!r}")
    else:
        if d["user"] != cfg.user.encode():
            raise Fail(f"user {d['user']!r}, expected {cfg.user!r}")
        if d["engine"] != cfg.engine or d["ctx_engine"] != cfg.engine or d["ctx_name"]:
            raise Fail(f"engine ids {d['engine'].hex()} / {d['ctx_engine'].hex()}, expected {cfg.engine.hex()}")
        fl = (1 if cfg.auth else 0) | (2 if cfg.priv else 0)
        if d["flags"] & 3 != fl:
            raise Fail(f"security flags {d['flags']:#x}, expected {fl:#x}")
        if d["sm"] != 3:
            raise Fail(f"security model {d['sm']}")
        if boots is not None and (d["boots"], d["time"]) != (boots, tm):
            raise Fail(f"boots/time {d['boots']}/{d['time']}, expected {boots}/{tm}")
        if not 0 <= d["msg_id"] <= 0x7FFFFFFF:
            raise Fail(f"message id {d['msg_id']}")
        if not 484 <= d["max_size"] <= 0x7FFFFFFF:
            raise Fail(f"msgMaxSize {d['max_size']}")
    if d["pdu"] != kind or d["ident"] != 0xA0 | kind:
        raise Fail(f"PDU {d['ident']:#x}, expected {0xA0 | kind:#x}")
    if not 0 <= d["id"] <= 0x7FFFFFFF:
        raise Fail(f"request id {d['id']}")
    if (d["f1"], d["f2"]) != (0, max_rep or 0):
        raise Fail(f"second and third field {d['f1']}, {d['f2']}, expected 0, {max_rep or 0}")
    got = [v[0] for v in d["vars"]]
    if got != list(oids):
        raise Fail(f"requested OIDs {got}, expected {list(oids)}")
    for v in d["vars"]:
        if v[1] != 5 or v[2] != b"":
            raise Fail("a requested OID is not bound to NULL")


# ------------------------------------------------------------------ typed values
class Val:
    """kinds of values: encoding and the Python value it denotes"""


def v_enc(v, form=0):
    k, x = v[0], v[1]
    if k == "raw":                       # (raw, tag, content, expected)
        return B.tlv(v[1], v[2], form)
    if k == "int":
        return B.eint(x, 2, form)
    if k in ("counter32", "gauge32", "timeticks", "uinteger32", "counter64"):
        t = {"counter32": 0x41, "gauge32": 0x42, "timeticks": 0x43, "uinteger32": 0x47, "counter64": 0x46}[k]
        return B.tlv(t, B.int_content(x), form)
    if k == "short":                     # unsigned without the leading zero octet
        return B.tlv(v[2], x.to_bytes(max(1, (x.bit_length() + 7) // 8), "big"), form)
    if k == "bytes":
        return B.tlv(4, x, form)
    if k == "opaque":
        return B.tlv(0x44, x, form)
    if k == "oid":
        return B.eoid(x, form)
    if k == "ip":
        return B.tlv(0x40, bytes(map(int, x.split("."))), form)
    if k == "bool":
        return B.tlv(1, b"\xff" if x else b"\0", form)
    if k == "null":
        return B.tlv(5, b"", form)
    if k == "nso":
        return B.tlv(0x80, b"", form)
    if k == "nsi":
        return B.tlv(0x81, b"", form)
    if k == "eomv":
        return B.tlv(0x82, b"", form)
    raise ValueError(k)


NODATA = ("null", "nso", "nsi", "eomv")


def v_py(v):
    k = v[0]
    if k == "raw":
        x = v[3]
        return float(x["f"]) if isinstance(x, dict) else x
    if k in NODATA:
        return None
    return v[1]


def near(r, lo, hi):
    return r.near(lo, hi) if isinstance(r, Near) else None


def rnd_arc(r):
    v = near(r, 0, 2 ** 32)
    if v is not None:
        return v
    k = r.random()
    if k < .5:
        return r.randrange(0, 40)
    if k < .8:
        return r.choice([0, 1, 127, 128, 129, 255, 256, 16383, 16384, 2097151, 2097152, 268435455, 268435456, 2 ** 31 - 1, 2 ** 31,
                         2 ** 32 - 2, 2 ** 32 - 1])
    return r.randrange(0, 2 ** r.randrange(1, 33))


def rnd_oid(r, n=None, pre=None):
    pre = pre or [r.choice([0, 1, 2]), r.randrange(0, 40)] if r.random() < .3 else pre or [1, 3]
    n = r.choice([0, 1, 2, 3, 5, 8, 12, 20]) if n is None else n
    return B.dots(pre + [rnd_arc(r) for _ in range(n)])


def rnd_val(r, data=False):
    k = r.random()
    if not data and k < .1:
        return [r.choice(NODATA), None]
    if NEARB and isinstance(r, Near) and r.random() < .06:
        x = NEARB[int(r.random() * len(NEARB))]
        return [r.choice(["bytes", "opaque", "bytes"]), x + r.choice([b"", random.Random.randbytes(r, r.choice([1, 2, 3, 4, 5, 6, 7, 8, 12, 30]))])]
    v = near(r, -2 ** 63, 2 ** 63)
    if v is not None:
        k = r.random()
        if k < .4:
            return ["int", v]
        if k < .7 and 0 <= v:
            return [r.choice(["counter32", "gauge32", "timeticks"]) if v < 2 ** 32 else "counter64", v]
        if 0 <= v <= 3000:
            return ["bytes", r.randbytes(v)]
        if 0 <= v < 2 ** 32:
            return ["oid", B.dots([1, 3, v])]
    k = r.random()
    if k < .25:
        b = r.randrange(0, 64)
        x = r.choice([2 ** b, 2 ** b - 1, -2 ** b, -2 ** b - 1, r.randrange(2 ** b + 1), -r.randrange(2 ** b + 1)])
        return ["int", max(-2 ** 63, min(2 ** 63 - 1, x))]
    if k < .45:
        t = r.choice(["counter32", "gauge32", "timeticks", "uinteger32", "counter64"])
        w = 64 if t == "counter64" else 32
        b = r.randrange(0, w + 1)
        return [t, r.choice([max(0, 2 ** b - 1), min(2 ** b, 2 ** w - 1), r.randrange(2 ** b)])]
    if k < .5:
        b = r.randrange(0, 33)
        return ["short", r.choice([2 ** b - 1, r.randrange(2 ** b)]), r.choice([0x41, 0x42, 0x43, 0x47])]
    if k < .65:
        return [r.choice(["bytes", "opaque"]), r.randbytes(r.choice([0, 1, 2, 5, 30, 126, 127, 128, 129, 200, 255, 256, 300]))]
    if k < .78:
        return ["oid", rnd_oid(r)]
    if k < .83:
        return ["ip", ".".join(str(r.choice([0, 1, 9, 10, 99, 100, 127, 128, 255])) for _ in range(4))]
    if k < .86:
        if r.random() < .5:
            x = r.choice([1, 2, 4, 8, 16, 32, 64, 128, 126, 254, r.randrange(1, 256)])   # any non-zero octet is TRUE in BER
            return ["raw", 1, bytes([x]), True]
        return ["bool", r.random() < .5]
    return rnd_real(r)


def rnd_real(r):
    k = r.random()
    if k < .12:
        return ["raw", 9, b"", {"f": "0.0"}]
    if k < .3:
        c, x = r.choice([(0x40, "inf"), (0x41, "-inf"), (0x42, "nan"), (0x43, "-0.0")])
        return ["raw", 9, bytes([c]), {"f": x}]
    if k < .6:
        nr = r.choice([1, 2, 3])
        m = r.randrange(10 ** r.randrange(1, 12))
        sg = r.choice(["", "-", "+"])
        if nr == 1:
            s = f"{sg}{m}"
        elif nr == 2:
            s = f"{sg}{m}.{r.randrange(10 ** r.randrange(1, 6))}"
        else:
            s = f"{sg}{m}.{r.choice(['', r.randrange(1000)])}E{r.choice(['', '+', '-'])}{r.randrange(0, 30)}"
        return ["raw", 9, bytes([nr]) + s.encode(), {"f": repr(float(s))}]
    base = r.randrange(3)
    f = r.randrange(4)
    n = r.randrange(1, 8)
    m = r.randrange(1, 2 ** min(53, 8 * n))
    sb = {0: 1, 1: 3, 2: 4}[base]
    e = r.randrange(-150, 150)
    es = B.int_content(e)
    pad = r.choice([0, 0, 1])
    es = (b"\xff" if e < 0 else b"\0") * pad + es
    fl = 0x80 | r.choice([0, 0x40]) | base << 4 | f << 2
    if len(es) <= 3 and r.random() < .8:
        c = bytes([fl | len(es) - 1]) + es
    else:
        es = B.int_content(e)
        c = bytes([fl | 3, len(es)]) + es
    c += m.to_bytes(n, "big")
    x = B.real_binary_value(c)
    y = float(x)
    if fl & 0x40 and y == 0:
        y = -0.0
    return ["raw", 9, c, {"f": repr(y)}]
