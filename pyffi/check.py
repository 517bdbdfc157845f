#!/usr/bin/env python3-vt
"""C15: histories through the generated Python bindings against a dict with log indexes.

usage: check.py --tier quick|thorough [--seed N] [--scale F] [--replay FILE]
Exit 0: held. Exit 1 with a VIOLATION line: broken. Exit 2: no verdict."""
import argparse, asyncio, gc, hashlib, json, os, shutil, signal, struct, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TARGET = os.environ.get("HB_PY_TARGET", os.path.join(VERIF, "target", "py"))
RULE = ("Hypothesis draws a history of put, get, delete, version, sub-tree, bulk, concurrent, cancelled and reopening steps over "
        "byte keys; it runs through the generated bindings, in memory or in a storage directory also worked on by the Rust interface, whose log may "
        "have up to 2^60 earlier blocks and whose reads and appends may fail; "
        "and every result, log index and version is compared with a dict; finally all entries are read back through Python and Rust. An operation on failing storage raises and changes nothing, or does as without the failure. "
        "Non-trivial: at least four blocks were written, a key was overwritten or deleted, and a live key was read.")
WORKERS = 8


class Broken(Exception):
    pass


# ---- case -> keys --------------------------------------------------------------

EXTRA = [b"", b"\0", b"\xff", b"\xff\xff", b"a", b"a\0", b"a\0b", b"ab", "ключ".encode(), bytes(range(256)), b"p\0", b"p\0k0001"]
PREFIX = [b"", b"p", b"a", b"\0", b"\xff", b"ab\0", "под".encode()]
SEP = [None, b"\0", b"", b"/", b"\0\0", b"\xff"]


def key(i):
    i = int(i)
    return EXTRA[i % 100 % len(EXTRA)] if i >= 1000 else b"k%04d" % i


def value(v, uniq):
    if v is None or v == "":
        return None if v is None else b""
    if v == "u":
        return b"v%d" % uniq
    return (b"%d." % uniq) + bytes((j * 7 + v) % 256 for j in range(v))


# ---- running a case --------------------------------------------------------------


GAPS = [1, 252, (1 << 16) - 4, (1 << 31) - 4, (1 << 32) - 4, (1 << 32) + 5, 1 << 40, (1 << 53) - 4, 1 << 60]


class World:
    def __init__(self, case, peer, lib):
        self.case, self.peer, self.lib = case, peer, lib
        self.map, self.version, self.uniq = {}, 0, 0
        self.subs = []  # (prefix with separator, handle)
        self.main = None
        self.never_begun = False
        self.tmp = None
        self.base = 1
        self.stats = dict(writes=0, replaced=0, hits=0, misses=0, rust=0, reopened=0, gathered=0, cancelled=0, subops=0, nones=0, raised=0, gaps=0)

    async def call(self, what, coro):
        try:
            return await coro
        except self.lib.InternalError as e:
            raise Broken(f"{what} panicked: {e}")
        except self.lib.HyperbeeError as e:
            raise Broken(f"{what} raised {type(e).__name__}: {e}")

    async def open(self):
        if self.case["dir"]:
            self.main = await self.call("hyperbee_from_storage_dir", self.lib.hyperbee_from_storage_dir(self.dir))
        else:
            self.main = await self.call("hyperbee_from_ram", self.lib.hyperbee_from_ram())
        self.subs = []

    async def close(self):
        self.main = None
        self.subs = []
        if self.case["dir"] and not self.never_begun:
            # nothing of it is left, so nothing keeps its files
            t = time.monotonic()
            while self.files():
                gc.collect()
                await asyncio.sleep(0 if time.monotonic() - t < 0.5 else 0.05)
                if time.monotonic() - t > 10:
                    raise Broken(f"a tree whose handles are all gone keeps {self.files()} open")

    def forget(self):
        self.main = None
        self.subs = []

    def files(self):
        found = []
        for fd in os.listdir("/proc/self/fd"):
            try:
                at = os.readlink("/proc/self/fd/" + fd)
            except OSError:
                continue
            if at.startswith(self.dir):
                found.append(os.path.relpath(at, self.tmp))
        return found

    def handles(self):
        return ([(b"", self.main)] if self.main is not None else []) + self.subs

    def handle(self, h):
        hs = self.handles()
        return hs[h % len(hs)]

    # expected results, and the model's step
    def m_put(self, k, v):
        if self.version == 0:
            self.version = 1
        old = self.map.get(k)
        self.map[k] = (self.version, v)
        self.version += 1
        self.stats["writes"] += 1
        self.stats["replaced"] += old is not None
        return (old and old[0], self.version - 1)

    def m_del(self, k):
        old = self.map.pop(k, None)
        if old is None:
            return None
        self.version += 1
        self.stats["writes"] += 1
        self.stats["replaced"] += 1
        return old[0]

    @staticmethod
    def plain(got):
        return None if got is None else (got.seq, got.value)

    async def put(self, h, k, v):
        pre, hd = self.handle(h)
        self.uniq += 1
        v = value(v, self.uniq)
        r = await self.call(f"put({k!r})", hd.put(k, v))
        got, want = (r.old_seq, r.new_seq), self.m_put(pre + k, v)
        if got != want:
            raise Broken(f"put({pre + k!r}) returned {got}, not {want}")
        self.stats["subops"] += pre != b"" or hd is not self.main

    async def get(self, h, k):
        pre, hd = self.handle(h)
        r = self.plain(await self.call(f"get({k!r})", hd.get(k)))
        want = self.map.get(pre + k)
        self.stats["hits" if want else "misses"] += 1
        self.stats["nones"] += bool(want and not want[1])
        if r != want:
            raise Broken(f"get({k!r}) below {pre!r} returned {r!r}, not {want!r}")

    async def delete(self, h, k):
        pre, hd = self.handle(h)
        r = await self.call(f"delete({k!r})", hd.delete(k))
        want = self.m_del(pre + k)
        if r != want:
            raise Broken(f"delete({pre + k!r}) returned {r}, not {want}")
        self.stats["subops"] += pre != b"" or hd is not self.main

    async def check_version(self):
        if self.main is None:
            return
        v = await self.call("version", self.main.version())
        if v != self.version:
            raise Broken(f"version is {v}, not {self.version}")

    def drained(self, at, count):
        ks = sorted(self.map)
        return [ks[(at + j) % len(ks)] for j in range(min(count, len(ks)))]

    async def gather(self, parts):
        seen, todo = set(), []
        for kind, h, k, v in parts:
            pre, hd = self.handle(h)
            k = key(k)
            if pre + k in seen:
                continue
            seen.add(pre + k)
            self.uniq += 1
            v = value(v, self.uniq)
            todo.append((kind, pre + k, v, {"put": lambda: hd.put(k, v), "get": lambda: hd.get(k), "del": lambda: hd.delete(k)}[kind]()))
        res = await self.call("concurrent operations", asyncio.gather(*[t[3] for t in todo]))
        base = self.version
        wrote = {}
        for (kind, k, v, _), r in zip(todo, res):
            old = self.map.get(k)
            if kind == "get" and self.plain(r) != old:
                raise Broken(f"a concurrent get({k!r}) returned {self.plain(r)!r}, not {old!r}")
            if kind == "del" and r != (old and old[0]):
                raise Broken(f"a concurrent delete({k!r}) returned {r}, not {old and old[0]}")
            if kind == "put":
                if r.old_seq != (old and old[0]):
                    raise Broken(f"a concurrent put({k!r}) replaced {r.old_seq}, not {old and old[0]}")
                if r.new_seq in wrote:
                    raise Broken(f"two concurrent puts returned index {r.new_seq}")
                wrote[r.new_seq] = (k, v)
        dels = sum(1 for (kind, k, _, _), r in zip(todo, res) if kind == "del" and r is not None)
        if wrote and base == 0:
            base = 1
        end = base + len(wrote) + dels
        for s, (k, v) in wrote.items():
            if not base <= s < end:
                raise Broken(f"a concurrent put({k!r}) returned index {s}, outside {base}..{end - 1}")
            self.stats["replaced"] += k in self.map
            self.map[k] = (s, v)
        for (kind, k, _, _), r in zip(todo, res):
            if kind == "del":
                self.map.pop(k, None)
        self.version = end
        self.stats["writes"] += len(wrote) + dels
        self.stats["gathered"] += len(todo) > 1
        await self.check_version()
        for _, k, _, _ in todo:
            if self.main is not None:
                await self.get(0, k)

    async def cancel(self, kind, h, k, v, turns):
        if self.main is None:
            return
        pre, hd = self.handle(h)
        self.uniq += 1
        v = value(v, self.uniq)
        task = asyncio.ensure_future(hd.put(k, v) if kind == "put" else hd.delete(k))
        for _ in range(turns):
            await asyncio.sleep(0)
        # UniFFI's bindings release a call that was never begun only when the process ends
        self.never_begun |= turns == 0
        task.cancel()
        try:
            await self.call("a cancelled write", task)
        except asyncio.CancelledError:
            self.stats["cancelled"] += 1
        full = pre + k
        ver = await self.call("version", self.main.version())
        before = (dict(self.map), self.version)
        self.m_put(full, v) if kind == "put" else self.m_del(full)
        if ver != self.version:
            # it did not happen; at most the header was written
            self.map, self.version = before
            if ver != self.version and not (self.version == 0 and ver == 1):
                raise Broken(f"after a cancelled {kind} the version is {ver}, not {before[1]} or {self.version}")
            self.version = ver
        await self.get(0, full)

    async def rust(self, ops):
        await self.close()
        req, want = [], []
        for kind, k, v in ops:
            k = key(k)
            self.uniq += 1
            v = value(v, self.uniq)
            req.append([kind, k.hex()] + ([None if v is None else v.hex()] if kind == "put" else []))
            if kind == "put":
                want.append(list(self.m_put(k, v)))
            elif kind == "del":
                want.append(self.m_del(k))
            else:
                e = self.map.get(k)
                want.append(e and [e[0], None if e[1] is None else e[1].hex()])
        r = self.peer.ask({"dir": self.dir, "ops": req})
        if "error" in r:
            raise Broken(f"the Rust interface on the same directory fails: {r['error']}")
        if r["results"] != want:
            raise Broken(f"the Rust interface on the same directory returned {r['results']}, not {want}")
        self.same_entries(r)
        self.stats["rust"] += 1

    def same_entries(self, r):
        want = [[k.hex(), s, None if v is None else v.hex()] for k, (s, v) in sorted(self.map.items())]
        if r["version"] != self.version or r["entries"] != want:
            raise Broken(f"the Rust interface on the same directory shows version {r['version']} and {r['entries']}, not {self.version} and {want}")

    async def faulty(self, lines, ops):
        """Works on the directory while its storage fails."""
        await self.close()
        with open(os.path.join(self.dir, "faults"), "w") as f:
            f.writelines("%s %d %s\n" % tuple(l) for l in lines)
        try:
            await self.open()
            for kind, k, v in ops:
                k = key(k)
                try:
                    r = await {"get": lambda: self.main.get(k), "del": lambda: self.main.delete(k),
                               "put": lambda: self.main.put(k, value(v, self.uniq + 1))}[kind]()
                except self.lib.InternalError as e:
                    raise Broken(f"{kind}({k!r}) on failing storage panicked: {e}")
                except self.lib.HyperbeeError as e:
                    if not lines:
                        raise Broken(f"{kind}({k!r}) raised {type(e).__name__}: {e}")
                    self.stats["raised"] += 1
                    ver = await self.call("version", self.main.version())
                    if self.version == 0 and kind == "put" and ver == 1:
                        self.version = 1  # the header was written
                else:
                    self.uniq += 1
                    if kind == "get":
                        got, want = self.plain(r), self.map.get(k)
                    elif kind == "del":
                        got, want = r, self.m_del(k)
                    else:
                        got, want = (r.old_seq, r.new_seq), self.m_put(k, value(v, self.uniq))
                    if got != want:
                        raise Broken(f"{kind}({k!r}) on failing storage returned {got!r}, not {want!r}")
                await self.check_version()
        finally:
            os.unlink(os.path.join(self.dir, "faults"))
        await self.close()
        await self.open()

    async def fall_back(self):
        """A header, and an empty tree as often as the case says."""
        n = self.case["gap"]
        src = os.path.join(self.tmp, "gap source")
        hb = await self.call("hyperbee_from_storage_dir", self.lib.hyperbee_from_storage_dir(src))
        await self.call("put", hb.put(b"k", None))
        await self.call("delete", hb.delete(b"k"))
        hb = None
        raw, frames = open(os.path.join(src, "data"), "rb").read(), []
        while raw:
            m = 4 + struct.unpack_from("<I", raw)[0]
            frames.append(raw[:m])
            raw = raw[m:]
        if len(frames) != 3:
            raise Broken(f"putting and deleting a key made {len(frames)} blocks")
        os.makedirs(self.dir)
        open(os.path.join(self.dir, "data"), "wb").write(frames[0])
        open(os.path.join(self.dir, "gap"), "wb").write(struct.pack("<Q", n) + frames[2][4:])
        self.base = self.version = n + 1
        self.stats["gaps"] += 1

    async def step(self, op):
        kind, a = op[0], op[1:]
        if kind == "put":
            await self.put(a[0], key(a[1]), a[2])
        elif kind == "get":
            await self.get(a[0], key(a[1]))
        elif kind == "del":
            await self.delete(a[0], key(a[1]))
        elif kind == "life":
            k = key(a[1])
            await self.put(a[0], k, a[2])
            await self.get(a[0], k)
            await self.delete(a[0], k)
            await self.get(a[0], k)
        elif kind == "ver":
            await self.check_version()
        elif kind == "fill":
            for j in range(a[2]):
                await self.put(a[0], key((a[1] + j * a[3]) % 200), "u")
        elif kind == "drain":
            for k in self.drained(a[0], a[1]):
                if self.main is not None:
                    await self.delete(0, k)
        elif kind == "sub":
            if self.main is not None:
                pre, sep = PREFIX[a[0]], SEP[a[1]]
                conf = self.lib.default_sub_config() if sep is None else self.lib.PrefixedConfig(sep)
                s = await self.call("sub", self.main.sub(pre, conf))
                self.subs.append((pre + (b"\0" if sep is None else sep), s))
        elif kind == "dropmain":
            if self.subs:
                self.main = None
        elif kind == "reopen":
            if self.case["dir"]:
                await self.close()
                await self.open()
                self.stats["reopened"] += 1
        elif kind == "rust":
            if self.case["dir"]:
                await self.rust(a[0])
                await self.open()
        elif kind == "faulty":
            if self.case["dir"] and not self.never_begun:
                await self.faulty(a[0], a[1])
        elif kind == "gather":
            await self.gather(a[0])
        elif kind == "cancel":
            await self.cancel(a[0], a[1], key(a[2]), a[3], a[4])
        else:
            raise ValueError(kind)

    async def refused(self, what, coro):
        try:
            await coro
        except self.lib.HyperbeeError:
            return
        except self.lib.InternalError as e:
            raise Broken(f"{what} panicked: {e}")
        raise Broken(f"{what} succeeded")

    async def run(self):
        case = self.case
        self.tmp = tempfile.mkdtemp(prefix="hbpy")
        self.dir = os.path.join(self.tmp, ["s", "a b", "путь", "x/y"][case["name"]])
        if case["dir"]:
            os.makedirs(os.path.dirname(self.dir), exist_ok=True)
            if case.get("gap"):
                await self.fall_back()
        await self.open()
        for op in case["ops"]:
            await self.step(op)
            await self.check_version()
        if self.main is not None:
            for k in sorted(self.map):
                await self.get(0, k)
            await self.get(0, b"never put")
        for pre, hd in self.subs:
            for k in sorted(self.map):
                if k.startswith(pre):
                    r = self.plain(await self.call("get", hd.get(k[len(pre):])))
                    if r != self.map[k]:
                        raise Broken(f"the sub-tree {pre!r} returned {r!r} for {k!r}, not {self.map[k]!r}")
        hd = None
        if case["dir"]:
            await self.rust([])
            if case["harm"] and self.version > self.base:
                f = os.path.join(self.tmp, "file")
                open(f, "w").close()
                await self.refused("opening a path below a file", self.lib.hyperbee_from_storage_dir(os.path.join(f, "d")))
                # make the newest block undecodable (the stand-in stores length-prefixed blocks)
                data = os.path.join(self.dir, "data")
                raw = bytearray(open(data, "rb").read())
                i = last = 0
                while i < len(raw):
                    last, i = i, i + 4 + struct.unpack_from("<I", raw, i)[0]
                for j in range(last + 4, len(raw)):
                    raw[j] = 0xFF
                open(data, "wb").write(raw)
                await self.open()
                await self.refused("reading an undecodable log", self.main.get(b"k0000"))
                await self.refused("deleting from an undecodable log", self.main.delete(b"k0000"))
                await self.refused("writing to an undecodable log", self.main.put(b"k0000", None))


class Peer:
    def __init__(self):
        self.p = None

    def ask(self, req):
        if self.p is None:
            self.p = subprocess.Popen([os.path.join(TARGET, "debug", "pyffi"), "peer"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        try:
            self.p.stdin.write(json.dumps(req) + "\n")
            self.p.stdin.flush()
            line = self.p.stdout.readline()
        except BrokenPipeError:
            line = ""
        if not line:
            self.p = None
            raise Broken("the Rust interface on the same directory panicked")
        return json.loads(line)


class Runner:
    def __init__(self):
        sys.path.insert(0, os.path.join(TARGET, "gen"))
        import hyperbee
        self.lib = hyperbee
        self.loop = asyncio.new_event_loop()
        asyncio.set_event_loop(self.loop)
        self.peer = Peer()

    def one(self, case):
        w = World(case, self.peer, self.lib)
        try:
            self.loop.run_until_complete(w.run())
        finally:
            w.forget()
            if w.tmp:
                shutil.rmtree(w.tmp, ignore_errors=True)
        return w.stats


# ---- generation ------------------------------------------------------------------


def strategy(thorough):
    from hypothesis import strategies as st
    k = st.one_of(st.integers(0, 24), st.integers(0, 24), st.integers(0, 199), st.integers(1000, 1000 + len(EXTRA) - 1), st.integers(1000, 1000 + len(EXTRA) - 1), st.just(1000))
    v = st.one_of(st.just("u"), st.none(), st.just(""), st.integers(1, 300), st.sampled_from([0x7F, 0x80, 4096, 70000]))
    h = st.one_of(st.just(0), st.integers(0, 4))
    bulk = 60 if thorough else 30
    tup = lambda *a: st.tuples(*a).map(list)
    op = st.one_of(
        tup(st.just("put"), h, k, v), tup(st.just("put"), h, k, v),
        tup(st.just("get"), h, k), tup(st.just("del"), h, k), tup(st.just("life"), h, k, v),
        tup(st.just("fill"), h, st.integers(0, 199), st.integers(1, bulk), st.sampled_from([1, 1, 7, 199, 61])),
        tup(st.just("drain"), st.integers(0, 199), st.integers(1, bulk)),
        tup(st.just("sub"), st.integers(0, len(PREFIX) - 1), st.integers(0, len(SEP) - 1)),
        tup(st.just("gather"), st.lists(tup(st.sampled_from(["put", "put", "get", "del"]), h, k, v), min_size=2, max_size=8)),
        tup(st.just("cancel"), st.sampled_from(["put", "del"]), h, k, v, st.integers(0, 4)),
        tup(st.just("rust"), st.lists(tup(st.sampled_from(["put", "put", "del", "get"]), k, v), max_size=8)),
        tup(st.just("faulty"), st.lists(tup(st.sampled_from(["get", "get", "gets", "append"]), st.integers(0, 6), st.sampled_from(["io", "other"])), max_size=4),
            st.lists(tup(st.sampled_from(["put", "put", "get", "get", "del"]), k, v), min_size=1, max_size=6)),
        st.sampled_from([["ver"], ["reopen"], ["reopen"], ["dropmain"]]),
    )
    return st.fixed_dictionaries(dict(
        dir=st.booleans(), name=st.integers(0, 3), harm=st.booleans(),
        gap=st.one_of(st.just(0), st.just(0), st.sampled_from(GAPS), st.integers(1, 1 << 60)),
        ops=st.one_of(st.lists(op, max_size=12), st.lists(op, min_size=6, max_size=60 if thorough else 30))))


def worker(a):
    from hypothesis import HealthCheck, Phase, given, seed, settings
    from hypothesis.errors import HypothesisException
    r = Runner()
    out = dict(evaluations=0, distinct=[], classes={}, samples=[], failure=None)
    best = [None]
    seen = set()

    @seed(a.seed * 1000 + a.worker)
    @settings(max_examples=a.count, deadline=None, database=None, suppress_health_check=list(HealthCheck),
              phases=[Phase.generate, Phase.shrink], report_multiple_bugs=False, print_blob=False)
    @given(strategy(a.tier == "thorough"))
    def prop(case):
        text = json.dumps(case)
        with open(a.journal, "w") as f:
            f.write(json.dumps(dict(part="histories", case=case)))
        signal.alarm(240)
        try:
            s = r.one(case)
        except Broken as e:
            if best[0] is None or len(text) <= len(best[0][0]):
                best[0] = (text, str(e))
            raise
        finally:
            signal.alarm(0)
        if best[0] is None:
            out["evaluations"] += 1
            for c, n in s.items():
                out["classes"][c] = out["classes"].get(c, 0) + n
            if s["writes"] >= 4 and s["replaced"] and s["hits"]:
                d = hashlib.sha1(text.encode()).hexdigest()[:16]
                if d not in seen:
                    seen.add(d)
                    if len(out["samples"]) < 2 and len(seen) > 5:
                        out["samples"].append(dict(case=case if len(text) < 2000 else text[:2000], reached=s))

    try:
        prop()
    except Broken:
        pass
    except HypothesisException:
        if best[0] is None:
            raise
    if best[0]:
        out["failure"] = dict(part="histories", case=json.loads(best[0][0]), message=best[0][1])
    out["distinct"] = sorted(seen)
    with open(a.out + ".tmp", "w") as f:
        json.dump(out, f)
    os.rename(a.out + ".tmp", a.out)


# ---- the check -------------------------------------------------------------------

CRASH = {4, 6, 7, 8, 11}


def child(args, **kw):
    return subprocess.Popen([sys.executable, os.path.abspath(__file__)] + args, **kw)


def replay_one(path):
    """0 held, 1 broken, 2 no verdict; run in a process of its own."""
    p = child(["--replay-here", path])
    try:
        c = p.wait(300)
    except subprocess.TimeoutExpired:
        p.kill()
        return 2
    return 1 if -c in CRASH else c if c in (0, 1) else 2


def violation(f):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    text = json.dumps(f["case"])
    path = os.path.join(d, "C15-%s.json" % hashlib.sha1(text.encode()).hexdigest()[:16])
    json.dump(f, open(path, "w"), indent=1)
    print("C15 histories:", f["message"][:1500])
    print("minimal case:", text[:1500])
    print(f"VIOLATION property=C15 replay={path}")


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--scale", type=float, default=1)
    ap.add_argument("--replay")
    ap.add_argument("--replay-here")
    ap.add_argument("--worker", type=int)
    ap.add_argument("--count", type=int)
    ap.add_argument("--journal")
    ap.add_argument("--out")
    a = ap.parse_args()
    if a.replay_here:
        case = json.load(open(a.replay_here))["case"]
        try:
            Runner().one(case)
        except Broken as e:
            print("C15 histories:", str(e)[:1500])
            sys.exit(1)
        sys.exit(0)
    if a.worker is not None:
        return worker(a)
    if a.replay:
        c = replay_one(a.replay)
        print({0: "C15: replay holds", 1: f"VIOLATION property=C15 replay={a.replay}", 2: "ERROR: no verdict"}[c])
        sys.exit(c)
    t0 = time.time()
    corpus = os.path.join(VERIF, "corpus", "C15")
    replayed = 0
    for f in sorted(os.listdir(corpus)) if os.path.isdir(corpus) else []:
        c = replay_one(os.path.join(corpus, f))
        if c:
            print(f"VIOLATION property=C15 replay={os.path.join(corpus, f)}" if c == 1 else f"ERROR: no verdict on {f}")
            sys.exit(c)
        replayed += 1
    count = max(1, int((500 if a.tier == "quick" else 12000) * a.scale))
    scratch = tempfile.mkdtemp(prefix="hbpyrun")
    try:
        ps = []
        for w in range(WORKERS):
            out, journal = os.path.join(scratch, f"out{w}"), os.path.join(scratch, f"journal{w}")
            ps.append((child(["--worker", str(w), "--count", str(count), "--tier", a.tier, "--seed", str(a.seed), "--out", out, "--journal", journal]), out, journal))
        results, failure, error = [], None, None
        left = list(ps)
        while left and failure is None:
            time.sleep(0.05)
            for p, out, journal in list(left):
                c = p.poll()
                if c is None:
                    continue
                left.remove((p, out, journal))
                if os.path.exists(out):
                    r = json.load(open(out))
                    results.append(r)
                    failure = failure or r["failure"]
                elif -c in CRASH and os.path.exists(journal) and replay_one(journal) == 1:
                    failure = dict(json.load(open(journal)), message=f"the process crashes (signal {-c})")
                else:
                    error = f"worker ended with {c}"
        for p, _, _ in left:
            p.kill()
            p.wait()
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    distinct = set().union(*[r["distinct"] for r in results]) if results else set()
    classes = {}
    for r in results:
        for c, n in r["classes"].items():
            classes[c] = classes.get(c, 0) + n
    ev = dict(property="C15", tier=a.tier, seed=a.seed, level="exploration", wall_s=round(time.time() - t0, 2),
              coverage=dict(evaluations=sum(r["evaluations"] for r in results), distinct_nontrivial=len(distinct), rule=RULE,
                            samples=[s for r in results for s in r["samples"]][:4], reached=classes, corpus_replayed=replayed),
              assumptions=["hypercore and replicator are the offline stand-ins of /verif/stubs", "one event loop; futures are polled by the bindings on that loop's thread"],
              )
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", "C15.json"), "w"), indent=1)
    if failure:
        violation(failure)
        sys.exit(1)
    if error:
        print(f"ERROR: {error}; no verdict")
        sys.exit(2)
    print("C15: held on %d cases (%d distinct non-trivial) in %.1fs" % (ev["coverage"]["evaluations"], len(distinct), ev["wall_s"]))


main()
