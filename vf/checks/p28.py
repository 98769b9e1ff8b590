"""P28: loads, saves, detection and SOG reads leave no handle, mapping or stray file behind, do not touch their inputs and do not grow."""
import ctypes, gc, hashlib, os, sys, time, warnings
from pathlib import Path
import numpy as np
from vf import gen, hold, hostile, ref, sog
from vf.checks.p27 import CHECK as P27, ENT, A_PK, T_PK, fsize
from vf.core import Check, require, fail, rng_of, bucket

STD, PK, SOG = ["plyread", "load", "read_uncompressed", "detect", "tload"], ["plyread", "load", "read_compressed", "detect", "tload", "plyread_gpu", "read_compressed_gpu"], ["sogread"]
MEM = ["from_bytes", "sog_bytes", "to_bytes", "to_arrays"]
READS = sorted(set(STD + PK + SOG))
COND = ["good", "cut", "damaged", "garbage", "empty", "missing", "directory", "loop", "eio", "crossed"]
WCOND = ["good", "over", "limit", "missing_dir", "is_dir", "shapes", "full"]
WRITTEN = None


def hook(ev, args):
    """Audit: everything Python code opens for writing, creates, moves or starts while a monitored call runs."""
    if WRITTEN is None:
        return
    if ev == "open":
        p, mode, flags = args
        if isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND) and isinstance(p, (str, bytes, os.PathLike)):
            WRITTEN.add(("file", os.path.abspath(os.fsdecode(p))))
    elif ev in ("os.mkdir", "tempfile.mkstemp", "tempfile.mkdtemp"):
        WRITTEN.add(("made", os.path.abspath(os.fsdecode(args[0]))))
    elif ev in ("os.rename", "os.link", "os.symlink"):
        WRITTEN.add(("made", os.path.abspath(os.fsdecode(args[1]))))
    elif ev in ("subprocess.Popen", "os.fork", "os.forkpty", "os.posix_spawn", "os.exec", "os.system", "socket.connect", "socket.bind"):
        WRITTEN.add(("started", ev))
    elif ev == "os.chdir":
        WRITTEN.add(("chdir", str(args[0])))


def fds():
    out = {}
    for f in os.listdir("/proc/self/fd"):
        try:
            out[int(f)] = os.readlink(f"/proc/self/fd/{f}")
        except OSError:
            pass
    return out


def mapped(root):
    return sorted({l.split(None, 5)[5].strip() for l in open("/proc/self/maps") if root in l})


def tree(d, skip=()):
    out = {}
    for r, ds, fs in os.walk(d):
        for x in ds + fs:
            p = os.path.join(r, x)
            if p in skip:
                continue
            st = os.lstat(p)
            h = hashlib.sha1(open(p, "rb").read()).hexdigest() if os.path.isfile(p) and not os.path.islink(p) else ""
            out[p] = (st.st_mode, st.st_ino, st.st_size if h else 0, st.st_mtime_ns if h else 0, h)
    return out


class CHECK(Check):
    rule = "descriptor table, memory map, whole directory tree (scratch, temp, home), audit trail of opens/creates/moves and resident memory / allocator blocks around every I/O entry point on good and damaged inputs, in histories and in repetition; distinct by (entry, condition, outcome, K)"
    required = {"calls": 2500, "failed_calls": 700, "trees_compared": 2500, "repetitions": 15000, "features": 150}
    n_quick, n_thorough = 120, 4000

    def setup(self, ctx, tier):
        global gsply, torch, R
        import gsply, torch
        from gsply import GSData, GSTensor, reader
        from gsply.torch import plyread_gpu
        from gsply.torch.compression import read_compressed_gpu
        R = {"plyread": gsply.plyread, "load": GSData.load, "read_uncompressed": reader.read_uncompressed, "read_compressed": reader.read_compressed, "detect": gsply.detect_format,
             "tload": lambda p: GSTensor.load(p, device="cpu"), "plyread_gpu": lambda p: plyread_gpu(p, device="cpu"), "read_compressed_gpu": lambda p: read_compressed_gpu(p, device="cpu"), "sogread": gsply.sogread}
        self.w = P27()
        self.w.setup(ctx, tier)
        self.extra = [os.environ["TMPDIR"], os.environ["HOME"]]
        sys.addaudithook(hook)
        self.lib = ctypes.CDLL(None)
        self.unclosed = []
        warnings.simplefilter("always", ResourceWarning)
        plain = warnings.showwarning
        warnings.showwarning = lambda m, cat, *a, **k: self.unclosed.append(str(m)) if issubclass(cat, ResourceWarning) else plain(m, cat, *a, **k)
        for k in (0, 15):       # compile everything, fill the lazily built tables
            rng = rng_of("P28w", k)
            d = os.path.dirname(ctx.path())
            I = self.inputs(rng, 300, k, d)
            for e in READS:
                try:
                    R[e](I[e]["good"])
                except Exception:
                    pass
            for e in MEM:
                self.memcall(e, I)
            for e in ENT:
                self.w.call(e, os.path.join(d, self.w.name(e)), self.w.scene(rng, e, 300, k, "plain"))

    def inputs(self, rng, n, k, d):
        s = gen.scene(rng, n, k, "normal")
        a = hold.gsdata(s, hold.formats(0, 0, 0, k))
        std, pk = ref.build_std(s), gsply.compress_to_bytes(a)
        m, T = sog.scene(rng, n, {0: 0, 3: 1, 8: 2, 15: 3}[k], int(rng.choice([2, 3])))
        ent = sog.files(m, T)
        sg = sog.bundle(ent)
        def put(name, b):
            with open(os.path.join(d, name), "wb") as f:
                f.write(b)
            return os.path.join(d, name)
        I = {"std": std, "pk": pk, "sog": sg, "a": a}
        I["folder"] = sog.folder(ent, os.path.join(d, "folder"))
        broken = dict(ent)
        broken["quats.webp"] = ent["quats.webp"][:len(ent["quats.webp"]) // 2]
        I["broken"] = sog.folder(broken, os.path.join(d, "broken"))
        for e in READS:
            packed = "compressed" in e or "gpu" in e or e not in ("read_uncompressed",) and rng.random() < .5
            b, ext = (sg, ".sog") if e == "sogread" else (pk, ".compressed.ply") if packed else (std, ".ply")
            c = dict.fromkeys(COND)
            c["good"] = put(e + "good" + ext, b)
            c["cut"] = put(e + "cut" + ext, b[:int(rng.integers(len(b)))])
            x = bytearray(b)
            for _ in range(int(rng.integers(1, 30))):
                x[int(rng.integers(len(x)))] = int(rng.integers(256))
            c["damaged"] = put(e + "bad" + ext, bytes(x) if ext == ".sog" or rng.random() < .4 else hostile.mutate(b, rng)[0])
            c["garbage"] = put(e + "arb" + ext, rng.bytes(int(rng.integers(1, 3000))))
            c["empty"] = put(e + "empty" + ext, b"")
            c["missing"] = os.path.join(d, e + "none" + ext)
            c["directory"] = os.path.join(d, e + "dir" + ext)
            os.makedirs(c["directory"])
            c["loop"] = os.path.join(d, e + "loop" + ext)
            os.symlink(c["loop"], c["loop"])
            c["eio"] = os.path.join(d, e + "eio" + ext)
            os.symlink("/proc/self/mem", c["eio"])       # opens, and every read at the start fails
            c["crossed"] = put(e + "x" + ext, std if packed or ext == ".sog" else pk)
            I[e] = c
        return I

    def memcall(self, e, I):
        return {"from_bytes": lambda: gsply.decompress_from_bytes(I["pk"]), "sog_bytes": lambda: gsply.sogread(I["sog"]), "to_bytes": lambda: gsply.compress_to_bytes(I["a"]), "to_arrays": lambda: gsply.compress_to_arrays(I["a"])}[e]()

    def directed(self, tier):
        for k, n in ((15, 60000), (3, 150000)) if tier == "quick" else ((15, 60000), (0, 200000), (15, 190000)):     # around and beyond the library's own size thresholds
            for part in range(3):
                yield {"k": "large", "n": n, "K": k, "part": part}
        for e in READS + MEM + ENT:
            yield {"k": "grow", "e": e, "c": "good", "big": 1}
            yield {"k": "grow", "e": e, "c": "good", "big": 0}
        for e in READS:
            for c in ("cut", "garbage", "missing", "eio", "damaged", "crossed"):
                yield {"k": "grow", "e": e, "c": c, "big": 0}
            yield {"k": "grow", "e": e, "c": "cut", "big": 1}
        for e in ENT:
            for c in ("limit", "shapes", "missing_dir"):
                yield {"k": "grow", "e": e, "c": c, "big": 0}
            yield {"k": "grow", "e": e, "c": "limit", "big": 1}

    def watched(self, fn, d, out, what, ctx, sig):
        """Run fn under all monitors; out: the path it may create or change."""
        global WRITTEN
        t0, f0, skip = tree(d, (out,)), fds(), (out,)
        x0 = [sorted(os.listdir(p)) for p in self.extra]
        env0, cwd0, um = dict(os.environ), os.getcwd(), os.umask(0o22)
        start = time.time_ns()
        self.unclosed.clear()
        err = res = None
        WRITTEN = set()
        try:
            res = fn()
        except Exception as e:
            err = e        # kept alive with its frames while the monitors look
        finally:
            w, WRITTEN = WRITTEN, None
        require(not self.unclosed, lambda: what + f"a handle was dropped without being closed: {self.unclosed[:2]}")
        f1 = fds()
        new = {f: p for f, p in f1.items() if p != f0.get(f)}
        ends = [p for p in new.values() if d in p or any(x in p for x in self.extra) or p.endswith("(deleted)")]
        tell = what + ("succeeded: " if err is None else f"raised {type(err).__name__}: ")
        require(not ends, lambda: tell + f"left open {ends}")
        m = mapped(d) + [x for q in self.extra for x in mapped(q)]
        require(not m, lambda: tell + f"left mapped {m}")
        t1 = tree(d, skip)
        require(t1 == t0, lambda: tell + "files beside the output changed: " + str([(p, t0.get(p), t1.get(p)) for p in sorted(set(t0) | set(t1)) if t0.get(p) != t1.get(p)][:3]))
        x1 = [sorted(os.listdir(p)) for p in self.extra]
        require(x0 == x1, lambda: tell + f"left in the temporary or home directory: {[sorted(set(b) - set(a)) for a, b in zip(x0, x1)]}")
        require(os.getcwd() == cwd0 and dict(os.environ) == env0, lambda: tell + "changed the working directory or environment")
        require(os.umask(um) == 0o22, lambda: tell + "changed the umask")
        cache = os.environ.get("NUMBA_CACHE_DIR", "/nonexistent")
        for kind, p in w:
            if kind == "started":
                fail(tell + f"started something outside the process: {p}")
            if kind in ("file", "made") and p != out and not p.startswith((cache, "/dev/")) and os.path.lexists(p) and os.lstat(p).st_ctime_ns >= start - 20_000_000 and p not in t0:
                fail(tell + f"created or changed {p}")
        ctx.count("calls")
        ctx.count("trees_compared")
        ctx.count("failed_calls", err is not None)
        ctx.feat(*sig, "ok" if err is None else "refused")
        return res, err

    def run(self, c, ctx):
        rng = rng_of("P28", c)
        if c["k"] == "grow":
            return self.grow(rng, c["e"], c["c"], c["big"], ctx)
        if c["k"] == "large":
            return self.large(rng, c["n"], c["K"], c["part"], ctx)
        n = int(rng.choice([0, 1, 2, 300, 1000], p=[.1, .2, .2, .3, .2]))
        k = gen.pick_k(rng)
        d = os.path.dirname(ctx.path())
        I = self.inputs(rng, n, k, d)
        alive = []
        for step in range(26):
            if rng.random() < .55:
                e, cond = str(rng.choice(READS)), str(rng.choice(COND))
                p = I[e][cond]
                if e == "sogread" and cond in ("good", "damaged") and rng.random() < .5:
                    p = I["folder" if cond == "good" else "broken"]
                p = Path(p) if rng.random() < .5 else p
                r = self.watched(lambda: R[e](p), d, None, f"{e} of a {cond} file (n={n} K={k}) ", ctx, (e, cond, k))
                require(cond != "good" or r[1] is None, lambda: f"{e} of a good file raised {r[1]!r}")
                require(cond not in ("missing", "empty", "loop", "eio", "garbage") or r[1] is not None or e == "detect" or r[0] is None, lambda: f"{e} of a {cond} file returned {r[0]}")
            elif rng.random() < .2:
                e = str(rng.choice(MEM))
                r = self.watched(lambda: self.memcall(e, I), d, None, f"{e} (n={n} K={k}) ", ctx, (e, "good", k))
            else:
                e, cond = str(rng.choice(ENT)), str(rng.choice(WCOND))
                fn, out = self.saver(rng, e, cond, n, k, d, f"out{step}")
                r = self.watched(fn, d, out, f"{e}, {cond} (n={n} K={k}) ", ctx, (e, cond, k))
                require(cond not in ("good", "over") or r[1] is None, lambda: f"{e}, {cond}: raised {r[1]!r}")
            if rng.random() < .4:
                alive.append(r)
            if len(alive) > 4:
                alive.pop(int(rng.integers(len(alive))))
        # inputs can be removed and replaced while scenes read from them live on
        kept = [(x, hold.snapshot(x)) for x, _ in alive if hasattr(x, "means")]
        for e in READS:
            g = I[e]["good"]
            with open(g, "r+b") as f:
                f.write(b"\0" * os.path.getsize(g))
            os.remove(g)
        for x, s in kept:
            m = hold.same_snapshot(hold.snapshot(x), s)
            require(not m, lambda: "a loaded scene changed when the file was overwritten: " + m)
        ctx.sample({"n": n, "K": k, "steps": 26})

    def large(self, rng, n, k, part, ctx):
        d = os.path.dirname(ctx.path())
        I = self.inputs(rng, n, k, d)
        if part == 2:
            for e in ENT:
                fn, out = self.saver(rng, e, "good", n, k, d, "big" + e)
                r = self.watched(fn, d, out, f"{e}, good (n={n} K={k}) ", ctx, (e, "large", k))
                require(r[1] is None, lambda: f"{e} of a large scene raised {r[1]!r}")
                os.remove(out)
            return
        for e in (READS + MEM)[part::2]:
            fn = (lambda: self.memcall(e, I)) if e in MEM else lambda: R[e](I[e]["good"])
            r = self.watched(fn, d, None, f"{e} of a good file (n={n} K={k}) ", ctx, (e, "large", k))
            require(r[1] is None, lambda: f"{e} of a good large file raised {r[1]!r}")
            if e in MEM or not hasattr(r[0], "means"):
                continue
            s = hold.snapshot(r[0])
            with open(I[e]["good"], "r+b") as f:
                f.write(b"\0" * os.path.getsize(I[e]["good"]))
            m = hold.same_snapshot(hold.snapshot(r[0]), s)
            require(not m, lambda: f"{e} n={n} K={k}: the loaded scene changed when the file was overwritten: " + m)

    def saver(self, rng, e, cond, n, k, d, name):
        n = max(n, 1) if cond in ("shapes",) else n
        sc = self.w.scene(rng, e, n, k, str(rng.choice(["cons", "plain"])))
        ext = ".compressed.ply" if e in A_PK + T_PK else ".ply"
        out = os.path.join(d, name + ext)
        if cond == "over":
            open(out, "wb").write(b"y" * int(rng.integers(0, 100000)))
        if cond == "missing_dir":
            out = os.path.join(d, "nope", name + ext)
        if cond == "is_dir":
            os.makedirs(out)
        if cond == "full":
            os.symlink("/dev/full", out)
        if cond == "shapes":
            sc = self.w.scene(rng, e, n + 3, k, "plain")
            f = str(rng.choice(gen.F[:5]))
            setattr(sc, f, getattr(sc, f)[:n])
        p = Path(out) if rng.random() < .5 else out
        if cond != "limit":
            return (lambda: self.w.call(e, p, sc)), out
        lim = int(rng.integers(0, 400 + n * 16))
        def limited():
            with fsize(lim):
                self.w.call(e, p, sc)
        return limited, out

    def rss(self):
        gc.collect()
        self.lib.malloc_trim(0)
        return int(open("/proc/self/statm").read().split()[1]) * 4096

    def grow(self, rng, e, cond, big, ctx):
        n, k = (12000, 15) if big else (3, 3)
        d = os.path.dirname(ctx.path())
        I = self.inputs(rng, n, k, d)
        if e in READS:
            src = I[e][cond]
            ext = src[src.index(".", len(d) + 1):]
            def once(i):
                p = src
                if os.path.isfile(src):
                    p = os.path.join(d, f"link{i}{ext}")      # another name every time
                    os.link(src, p, follow_symlinks=False)
                try:
                    R[e](p)
                except Exception as x:
                    if cond == "good":
                        raise
                if p is not src:
                    os.remove(p)
        elif e in MEM:
            def once(i):
                self.memcall(e, I)
        else:
            sc = self.w.scene(rng, e, n, k, "plain")
            if cond == "shapes":
                sc.scales = sc.scales[:-1]
            lim = 200 if not big else 3000
            many = self.w.scene(rng, e, 1800, k, "plain") if not big and cond == "good" else None    # another count every time
            def once(i):
                p = os.path.join(d, "nope" if cond == "missing_dir" else "", f"g{i}" + (".compressed.ply" if e in A_PK + T_PK else ".ply"))
                try:
                    if cond == "limit":
                        with fsize(lim):
                            self.w.call(e, p, sc)
                    else:
                        self.w.call(e, p, sc if many is None else many[:i + 1])
                except Exception:
                    if cond == "good":
                        raise
                if os.path.exists(p):
                    os.remove(p)
        warm, reps = (10, 50) if big else (200, 250)
        what = f"{e}, {cond}, n={n} K={k}, {reps} repetitions: "
        for i in range(warm):
            once(i)
        for i in range(warm + 6 * reps):        # pathlib interns every path component, and interned strings stay in this Python version
            for x in ([f"link{i}{ext}"] if e in READS else [f"g{i}.ply", f"g{i}.compressed.ply"]):
                Path(d, x).exists()
        def look():
            r = self.rss()
            return {"resident": r, "blocks": sys.getallocatedblocks(), "fds": len(os.listdir("/proc/self/fd")), "threads": len(os.listdir("/proc/self/task")),
                    "maps": sum(1 for _ in open("/proc/self/maps"))}
        a = look()
        a = look()
        ls = sorted(os.listdir(d))
        for i in range(reps):
            once(warm + i)
        b = look()
        g = {x: b[x] - a[x] for x in a}
        def over(g):
            return [x for x, top in (("resident", 24 << 20), ("blocks", 3000 if big else .6 * reps), ("fds", 5), ("threads", 5), ("maps", 60)) if g[x] > top]
        for rep in range(1, 6):         # again: one-time effects (free lists, lazily built tables) do not repeat
            if not over(g):
                break
            a = look()
            for i in range(reps):
                once(warm + rep * reps + i)
            b = look()
            g = {x: b[x] - a[x] for x in a}
        require(not over(g), lambda: what + f"growth {g}")
        require(sorted(os.listdir(d)) == ls, lambda: what + "left files behind")
        ctx.count("repetitions", reps)
        ctx.feat("grow", e, cond, big)
        ctx.maxi("resident growth KiB", max(0, g["resident"] >> 10))
        ctx.maxi("blocks growth", max(0, g["blocks"]))
