"""C11: emitted ciphertexts decrypt to the request; encrypted replies are delivered; random histories."""
from core import *
import v3hist


def gen(ctx):
    r = ctx.rng
    for a in ("md5", "sha1"):
        for p in ("des", "aes"):
            for kt in KT:
                for pkt in KT:
                    yield "history", {"cfg": Cfg(3, a, p, kt, pkt).case(), "seed": 2, "n": 4}
            for n in range(0, 40):
                yield "reply", {"cfg": Cfg(3, a, p, "localized").case(), "size": n, "pad": n % 3, "boots": 1, "time": 2, "salt": n, "exact": n % 2}

    def hist():
        while True:
            yield "history", {"cfg": v3hist.cfg_of(r, r.choice(["md5", "sha1"]), r.choice(["des", "aes"])).case(), "seed": r.randrange(2 ** 60), "n": 12}

    def rep():
        while True:
            big = r.random() < .1
            yield "reply", {"cfg": v3hist.cfg_of(r, r.choice(["md5", "sha1"]), r.choice(["des", "aes", "aes"])).case(),
                            "size": r.choice([1000, 2000, 3700]) if big else r.randrange(0, 400), "pad": r.randrange(3),
                            "boots": r.choice([0, 1, 2 ** 31 - 1, r.randrange(2 ** 31)]), "time": r.choice([0, 1, 2 ** 31 - 1, r.randrange(2 ** 31)]),
                            "salt": r.choice([0, 2 ** 64 - 1, r.randrange(2 ** 64)]), "exact": r.randrange(2)}
    yield from ctx.spread([hist(), hist(), rep()])


def check(S, raw, op, oids, mr, boots, tm):
    c = S.cfg
    try:
        d = B.dec_msg(raw)
    except (B.BerError, IndexError) as e:
        raise Fail(f"emitted message does not decode: {e}: {raw.hex()}")
    d["raw"] = raw
    if "enc" not in d:
        raise Fail(f"msgData is not an OCTET STRING: {raw.hex()}")
    if len(d["priv"]) != 8:
        raise Fail(f"privacy parameters have {len(d['priv'])} octets")
    blk = 8 if c.priv == "des" else 16
    if c.priv == "des" and len(d["enc"]) % 8:
        raise Fail(f"ciphertext of {len(d['enc'])} octets")
    key = B.localize(c.auth, mkey(c.auth, c.ppw), d["engine"])
    pl = B.priv_decrypt(c.priv, key, d["priv"], d["boots"], d["time"], d["enc"])
    try:
        d.update(B.dec_scoped(pl, pad=blk))
    except (B.BerError, IndexError) as e:
        raise Fail(f"{c.name()} ({c.pkt}): msgData decrypts to {pl.hex()}: {e}; key {key.hex()}, salt {d['priv'].hex()}, boots {d['boots']}, time {d['time']}")
    d["plain"] = pl
    if op:
        expect_request(c, d, op, oids, mr, boots, tm)
    return d


def run(kind, c):
    if kind == "history":
        return v3hist.history(c["cfg"], c["seed"], c["n"], check)
    S = Session(c["cfg"])
    try:
        S.send_op("get_many", ["1.3.6.1.5"])
        q = check(S, S.raw(), "get_many", ["1.3.6.1.5"], None, 0, 0)
        S.boots, S.time = c["boots"], c["time"]
        vb = [B.varbind("1.3.6.1.5", v_enc(["bytes", bytes(i * 7 & 255 for i in range(c["size"]))])), B.varbind("1.3.6.1.6", v_enc(["int", c["size"]]))]
        sc = B.scoped(S.cfg.engine, B.pdu(B.RESP, q["id"], vb), b"")
        pad = [bytes(8), b"\xff" * 8, bytes(range(1, 9))][c["pad"]]
        tail = b""
        if S.cfg.priv == "aes" and not c["exact"]:
            tail = pad[:3]      # trailing octets after the scoped PDU, as block padding would leave
        S.put(S.message(q, b"", scoped=sc, salt=c["salt"].to_bytes(8, "big"), pad=pad, tail=tail))
        x = call(S.recv_op, "get_many")
        exp = {"1.3.6.1.5": bytes(i * 7 & 255 for i in range(c["size"])), "1.3.6.1.6": c["size"]}
        if x[0] != "ok" or not same(x[1], exp):
            raise Fail(f"{S.cfg.name()}: encrypted reply (boots {c['boots']}, time {c['time']}, salt {c['salt']}, scoped PDU of {len(sc)} octets) {show(x)}")
        # the next request uses the new boots and time
        S.send_op("get", "1.3.6.1.7")
        check(S, S.raw(), "get", ["1.3.6.1.7"], None, c["boots"], c["time"])
    finally:
        S.close()
