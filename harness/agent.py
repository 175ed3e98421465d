"""Threaded agents for the Python sessions: full RFC 3416 / RFC 3414 behaviour, with scripted deviations."""
import asyncio, threading
from core import *
from gufo.snmp import SnmpVersion
from gufo.snmp.user import User, Md5Key, Sha1Key, DesKey, Aes128Key, KeyType
from gufo.snmp.sync_client import SnmpSession as SyncSession
from gufo.snmp.async_client import SnmpSession as AsyncSession

AK = {"md5": Md5Key, "sha1": Sha1Key}
PK = {"des": DesKey, "aes": Aes128Key}
KTE = {"password": KeyType.Password, "master": KeyType.Master, "localized": KeyType.Localized}


def user_of(cfg):
    a = p = None
    if cfg.auth:
        a = AK[cfg.auth](cfg.material(cfg.auth, cfg.kt, cfg.apw, cfg.engine)[0], key_type=KTE[cfg.kt])
    if cfg.priv:
        p = PK[cfg.priv](cfg.material(cfg.auth, cfg.pkt, cfg.ppw, cfg.engine)[0], key_type=KTE[cfg.pkt])
    return User(cfg.user, auth_key=a, priv_key=p)


def key_of(o):
    return tuple(B.arcs_of(o))


class Mib:
    def __init__(self, entries):
        self.e = sorted(((key_of(o), o, v) for o, v in entries), key=lambda x: x[0])

    def after(self, k):
        for x in self.e:
            if x[0] > k:
                return x
        return None

    def below(self, base):
        b = key_of(base)
        return [(o, v) for k, o, v in self.e if len(k) > len(b) and k[:len(b)] == b]


class Agent:
    """one agent end; handle(datagram) -> list of datagrams (or None) to send back"""

    def __init__(self, cfg, mib=None, cap=0, v1_style=0, hook=None, boots=7, tm=5000):
        self.cfg, self.mib, self.cap, self.v1_style, self.hook = Cfg.of(cfg), mib, cap, v1_style, hook
        self.boots, self.time = boots, tm
        self.sock = agent_socket()
        self.sock.settimeout(0.05)
        self.port = self.sock.getsockname()[1]
        self.log, self.errors, self.stop, self.n, self.busy = [], [], False, 0, False
        # reuse the message builder
        S = self.S = Session.__new__(Session)
        S.cfg, S.ag, S.boots, S.time, S.kul, S.pkul, S.salt, S.s = self.cfg, self.sock, boots, tm, None, None, 0x7766554433221100, None
        if self.cfg.auth:
            S.kul = B.localize(self.cfg.auth, mkey(self.cfg.auth, self.cfg.apw), self.cfg.engine)
        if self.cfg.priv:
            S.pkul = B.localize(self.cfg.auth, mkey(self.cfg.auth, self.cfg.ppw), self.cfg.engine)
        self.th = None

    def __enter__(self):
        self.th = threading.Thread(target=self.loop, daemon=True)
        self.th.start()
        return self

    def __exit__(self, *a):
        self.stop = True
        try:
            with socket.socket(socket.AF_INET, socket.SOCK_DGRAM) as w:
                w.sendto(b"", ("127.0.0.1", self.port))
        except OSError:
            pass
        self.th.join(5)
        self.sock.close()

    def loop(self):
        while not self.stop:
            try:
                d, peer = self.sock.recvfrom(70000)
            except (TimeoutError, BlockingIOError):
                continue
            except OSError:
                return
            if self.stop:
                return
            self.busy = True
            try:
                for x in self.handle(d, peer) or []:
                    if isinstance(x, (int, float)):
                        time.sleep(x)
                    else:
                        self.sock.sendto(x, peer)
            except Fail as e:
                self.errors.append(str(e))
            except Exception as e:  # harness failure, reported as such
                import traceback
                self.errors.append("agent: " + traceback.format_exc()[-800:])
            self.busy = False

    def handle(self, raw, peer=None):
        self.S.boots, self.S.time = self.boots, self.time
        d = self.S.decode(raw)
        d["raw"], d["at"], self.peer = raw, time.monotonic(), peer
        self.log.append(d)
        self.n += 1
        if self.hook:
            r = self.hook(self, d)
            if r is not None:
                return r
        return self.answer(d)

    def answer(self, d):
        if d["version"] == 3:
            if d["engine"] != self.cfg.engine:
                return [self.S.report(d)]
            if d["flags"] & 4 and not d["vars"]:
                return [self.S.report(d, "1.3.6.1.6.3.15.1.1.2.0", **self.secure(d))]
        return [self.reply(d)]

    def secure(self, d):
        """an authenticated report"""
        if not self.cfg.auth:
            return {}
        return {"clear": False, "flags": 1 | (2 if self.cfg.priv else 0), "auth_params": bytes(12)} if self.cfg.priv else {
            "flags": 1, "auth_params": bytes(12)}

    def reply(self, d):
        vbs = []
        names = [v[0] for v in d["vars"]]
        if d["pdu"] == 0:
            m = {o: v for _, o, v in self.mib.e}
            for o in names:
                vbs.append(B.varbind(o, v_enc(m[o] if o in m else ["nsi", None])))
        elif d["pdu"] == 1:
            x = self.mib.after(key_of(names[0]))
            if x is None:
                if d["version"] == 0:
                    if self.v1_style == 1:
                        return self.S.response(d, [B.varbind(names[0], v_enc(["null", None]))])
                    return self.S.response(d, [B.varbind(names[0], v_enc(["null", None]))], status=2, index=1)
                vbs.append(B.varbind(names[0], v_enc(["eomv", None])))
            else:
                vbs.append(B.varbind(x[1], v_enc(x[2])))
        elif d["pdu"] == 5:
            k, o = key_of(names[0]), names[0]
            n = max(0, d["f2"])
            n = min(n, self.cap) if self.cap else n
            for _ in range(min(n, 60)):
                if sum(map(len, vbs)) > 2800:      # the reply has to fit into a message
                    break
                x = self.mib.after(k)
                if x is None:
                    vbs.append(B.varbind(o, v_enc(["eomv", None])))
                    if self.v1_style != 2:
                        break
                    continue
                k, o = x[0], x[1]
                vbs.append(B.varbind(o, v_enc(x[2])))
        return self.S.response(d, vbs)


def session_args(cfg, port, known_engine=True, **kw):
    cfg = Cfg.of(cfg)
    a = dict(port=port, timeout=5.0)
    if cfg.ver != 3:
        a.update(community=cfg.community, version=SnmpVersion.v1 if cfg.ver == 0 else SnmpVersion.v2c)
    else:
        a.update(user=user_of(cfg), version=SnmpVersion.v3)
        if known_engine:
            a["engine_id"] = cfg.engine
    a.update(kw)
    return a


def drive(mode, port, cfg, fn, known_engine=True, enter=None, **kw):
    """fn(api): api has uniform synchronous methods; runs against the sync or the async client"""
    a = session_args(cfg, port, known_engine, **kw)
    if enter is None:
        enter = Cfg.of(cfg).ver == 3
    if mode == "sync":
        s = SyncSession("127.0.0.1", **a)
        if enter:
            with s:
                return fn(SyncApi(s))
        return fn(SyncApi(s))
    loop = asyncio.new_event_loop()
    try:
        s = AsyncSession("127.0.0.1", **a)
        if enter:
            loop.run_until_complete(s.__aenter__())
        return fn(AsyncApi(s, loop))
    finally:
        loop.close()


class SyncApi:
    def __init__(self, s):
        self.s = s

    def get(self, o):
        return self.s.get(o)

    def get_many(self, o):
        return self.s.get_many(o)

    def walk(self, op, *a, limit=100000):
        out = []
        for x in getattr(self.s, op)(*a):
            out.append(x)
            if len(out) >= limit:
                raise Fail(f"{op}() does not end ({limit} entries)")
        return out

    def refresh(self):
        return self.s.refresh()

    def engine_id(self):
        return self.s.get_engine_id()

    def multi(self, its, limit):
        """interleave several walks; -> list of outputs"""
        its = [iter(getattr(self.s, op)(*a)) for op, *a in its]
        out = [[] for _ in its]
        live = set(range(len(its)))
        while live:
            for i in sorted(live):
                try:
                    out[i].append(next(its[i]))
                    if len(out[i]) >= limit:
                        raise Fail("a walk does not end")
                except StopIteration:
                    live.discard(i)
        return out


class AsyncApi:
    def __init__(self, s, loop):
        self.s, self.loop = s, loop

    def _r(self, c):
        return self.loop.run_until_complete(c)

    def get(self, o):
        return self._r(self.s.get(o))

    def get_many(self, o):
        return self._r(self.s.get_many(o))

    def walk(self, op, *a, limit=100000):
        async def go():
            out = []
            async for x in getattr(self.s, op)(*a):
                out.append(x)
                if len(out) >= limit:
                    raise Fail(f"{op}() does not end ({limit} entries)")
            return out
        return self._r(go())

    def refresh(self):
        return self._r(self.s.refresh())

    def engine_id(self):
        return self.s.get_engine_id()

    def multi(self, its, limit):
        async def go():
            ws = [getattr(self.s, op)(*a).__aiter__() for op, *a in its]
            out = [[] for _ in ws]
            live = set(range(len(ws)))
            while live:
                for i in sorted(live):
                    try:
                        out[i].append(await ws[i].__anext__())
                        if len(out[i]) >= limit:
                            raise Fail("a walk does not end")
                    except StopAsyncIteration:
                        live.discard(i)
            return out
        return self._r(go())
