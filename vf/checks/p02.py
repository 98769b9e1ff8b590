"""P02: uncompressed PLY files of other programs are read exactly or refused."""
import numpy as np
from vf import gen, hold, ref
from vf.core import Check, require, rng_of, bucket

READERS = ("plyread", "load", "read_unc", "tload")
VARIANTS = ["plain", "comments", "obj_info", "long_header", "crlf", "spaces", "marker_in_comment", "decoy_in_comment", "nonascii_comment",
            "trailing", "elem_after", "elem_before", "two_after", "short", "count_more", "count_less", "float32", "double", "one_double", "int_prop",
            "reorder", "swap2", "missing", "extra_prop", "normals", "dup_prop", "odd_sh", "sh_interleaved_names", "ascii", "big_endian",
            "format_last", "no_format", "count_zero", "list_prop", "elem_same_props", "uchar_all", "prop_in_other", "after_has_float", "combo"]


class CHECK(Check):
    rule = ("files built by an independent writer: header variant x size x SH degree x values x reader; distinct by (variant, size bucket, K, reader, "
            "outcome)")
    required = {"files": 300, "loads_exact": 100, "refusals": 100, "variants_seen": 0, "features": 200}
    n_quick, n_thorough = 1500, 30000

    def setup(self, ctx, tier):
        global gsply, GSTensor, read_uncompressed
        import gsply
        from gsply import GSTensor
        from gsply.reader import read_uncompressed

    def directed(self, tier):
        return [{"k": "dir", "v": v, "K": k, "n": n, "s": 7 * n + k} for v in VARIANTS for k in (0, 3, 8, 15) for n in (1, 5, 300)] + \
            [{"k": "dir", "v": v, "K": (0, 3)[i % 2], "n": (4099, 70001)[i // 2 % 2], "s": i} for i, v in enumerate(VARIANTS)]

    def build(self, v, rng, n, k, s):
        """-> bytes, must_load"""
        props = [("float", p) for p in ref.std_props(k)]
        table = ref.table(s)
        cols = [table[:, i] for i in range(len(props))]
        pre, post, tail = [], [], b""
        fmt, eol, sep, count = "binary_little_endian", "\n", " ", n
        comments, must = [], False
        drop_fmt = fmt_last = False
        big_decoy = ["element vertex 3", "property float x", "format ascii 1.0", "end_header is not here", "ply"]
        vs = [v] if v != "combo" else list(rng.choice([x for x in VARIANTS if x not in ("combo", "plain")], size=2, replace=False))
        for v in vs:
            if v == "plain":
                must = len(vs) == 1
            elif v == "comments":
                comments += [f"comment by tool {i} {'z' * int(rng.integers(0, 200))}" for i in range(int(rng.integers(1, 12)))]
                must = len(vs) == 1
            elif v == "obj_info":
                comments += ["obj_info num_cols 5", "obj_info  x"]
                must = len(vs) == 1
            elif v == "long_header":
                comments += ["comment " + "pad " * int(rng.integers(1, 60)) for _ in range(int(rng.choice([90, 190, 260, 600])))]
                must = len(vs) == 1
            elif v == "crlf":
                eol = "\r\n"
            elif v == "spaces":
                sep = str(rng.choice(["  ", "\t", " \t "]))
            elif v == "marker_in_comment":
                comments += [str(rng.choice(["comment end_header", "comment written before end_header", "comment x\tend_header", "obj_info end_header"]))]
                must = len(vs) == 1
            elif v == "decoy_in_comment":
                comments += ["comment " + d for d in big_decoy if d != "end_header is not here"]
                must = len(vs) == 1
            elif v == "nonascii_comment":
                comments += ["comment caf\xe9 \u4e2d"]
            elif v == "trailing":
                tail += rng.bytes(int(rng.integers(1, 200)))
            elif v == "elem_after":
                post += [("face", 0, ["property list uchar int vertex_indices"], b"")]
            elif v == "after_has_float":
                m = int(rng.integers(0, 4))
                post += [("camera", m, ["property float view_px", "property float x"], rng.bytes(8 * m))]
            elif v == "two_after":
                m = int(rng.integers(1, 3))
                post += [("aux", m, ["property uchar a"], rng.bytes(m)), ("aux2", 1, ["property double b"], rng.bytes(8))]
            elif v == "elem_before":
                m = int(rng.integers(1, 9))
                pre += [("header_data", m, [str(rng.choice(["property uchar a", "property char q"]))], rng.bytes(m))]
            elif v == "elem_same_props":
                m = int(rng.integers(1, 4))
                q = gen.scene(rng, m, k, "ids")
                pre += [("anchor", m, [f"property float {p}" for p in ref.std_props(k)], ref.table(q).tobytes())]
            elif v == "prop_in_other":
                # some vertex properties moved into another element behind the vertices: in total the standard set
                cut = int(rng.integers(1, len(props)))
                post += [("more", n, [f"property float {p}" for _, p in props[cut:]], np.ascontiguousarray(np.stack(cols[cut:], 1)).tobytes() if n else b"")]
                props, cols = props[:cut], cols[:cut]
            elif v == "short":
                tail = None
            elif v == "count_more":
                count = n + int(rng.choice([1, 2, 256, 10**6, 2**31, 2**62, 10**25]))
            elif v == "count_less":
                count = int(rng.integers(0, n)) if n else 0
            elif v == "count_zero":
                count = 0
            elif v == "float32":
                props = [("float32", p) for _, p in props]
            elif v in ("double", "uchar_all"):
                t = "double" if v == "double" else "uchar"
                props = [(t, p) for _, p in props]
                cols = [np.nan_to_num(c.astype(np.float64)) if t == "double" else (np.nan_to_num(np.abs(c)) % 256).astype("u1") for c in cols]
            elif v in ("one_double", "int_prop"):
                i = int(rng.integers(0, len(props)))
                t, d = ("double", "<f8") if v == "one_double" else [("int", "<i4"), ("uint", "<u4"), ("uchar", "u1"), ("short", "<i2")][int(rng.integers(0, 4))]
                props[i] = (t, props[i][1])
                with np.errstate(all="ignore"):
                    cols[i] = np.nan_to_num(cols[i].astype(np.float64), posinf=9, neginf=1).clip(0, 100).astype(d)
            elif v == "reorder":
                o = rng.permutation(len(props))
                props, cols = [props[i] for i in o], [cols[i] for i in o]
            elif v == "swap2":
                i, j = rng.choice(len(props), 2, replace=False)
                props[i], props[j] = props[j], props[i]
                cols[i], cols[j] = cols[j], cols[i]
            elif v == "missing":
                i = int(rng.integers(0, len(props)))
                props.pop(i), cols.pop(i)
            elif v == "extra_prop":
                i = int(rng.integers(0, len(props) + 1))
                props.insert(i, (str(rng.choice(["float", "uchar"])), "weight"))
                cols.insert(i, np.zeros(n, "<f4" if props[i][0] == "float" else "u1"))
            elif v == "normals":
                for j, p in enumerate(("nx", "ny", "nz")):
                    props.insert(3 + j, ("float", p)), cols.insert(3 + j, np.full(n, 0.5, "<f4"))
            elif v == "dup_prop":
                i, j = rng.choice(len(props), 2, replace=False)
                props[i] = (props[i][0], props[j][1])
            elif v == "odd_sh":
                m = int(rng.choice([3, 6, 12, 21, 27, 48]))
                keep = [i for i, (_, p) in enumerate(props) if not p.startswith("f_rest")]
                props, cols = [props[i] for i in keep], [cols[i] for i in keep]
                for j in range(m):
                    props.insert(6 + j, ("float", f"f_rest_{j}")), cols.insert(6 + j, np.full(n, j, "<f4"))
            elif v == "sh_interleaved_names" and k:
                o = [i for c in range(k) for i in (6 + c, 6 + c + k, 6 + c + 2 * k)]
                props[6:6 + 3 * k] = [props[i] for i in o]
                cols[6:6 + 3 * k] = [cols[i] for i in o]
            elif v == "ascii":
                fmt = "ascii"
            elif v == "big_endian":
                fmt = "binary_big_endian"
            elif v == "format_last":
                fmt_last = True
            elif v == "no_format":
                drop_fmt = True
            elif v == "list_prop":
                i = int(rng.integers(0, len(props)))
                props[i] = ("list uchar float", props[i][1])
        head = ["ply"]
        body = []
        for name, m, plines, _ in pre:
            body += [f"element {name} {m}"] + plines
        body += [f"element vertex {count}"] + [f"property {t} {p}" for t, p in props]
        for name, m, plines, _ in post:
            body += [f"element {name} {m}"] + plines
        fl = [f"format {fmt} 1.0"]
        if drop_fmt:
            lines = body
        elif fmt_last:
            lines = body + fl
        else:
            lines = fl + body
        for c in comments:
            lo = 0 if rng.random() < .8 else 0
            lines.insert(int(rng.integers(lo, len(lines) + 1)), c)
        lines = head + lines + ["end_header"]
        if sep != " ":
            lines = [l if l.startswith(("comment", "obj_info")) else l.replace(" ", sep) for l in lines]
        hb = (eol.join(lines) + eol).encode("utf-8" if any(ord(ch) > 127 for l in lines for ch in l) else "ascii")
        if fmt == "ascii":
            rows = []
            for i in range(n):
                rows.append(" ".join(repr(float(c[i])) if c.dtype.kind == "f" else str(int(c[i])) for c in cols))
            payload = ("\n".join(rows) + "\n").encode() if n else b""
            must = False
        else:
            end = ">" if fmt == "binary_big_endian" else "<"
            dt = np.dtype([(f"c{i}", c.dtype.newbyteorder(end)) for i, c in enumerate(cols)])
            a = np.empty(n, dt)
            for i, c in enumerate(cols):
                a[f"c{i}"] = c
            payload = a.tobytes()
        b = hb + b"".join(x[3] for x in pre) + payload + b"".join(x[3] for x in post)
        if tail is None:
            if len(b) > len(hb):
                b = b[:int(rng.integers(len(hb), len(b)))] if rng.random() < .6 else b[:len(b) - int(rng.choice([1, 2, 3, 4, 56]))]
            else:
                b = b[:-1]
            must = False
        else:
            b += tail
        return b, must

    def run(self, c, ctx):
        rng = rng_of("P02", c)
        if c["k"] == "dir":
            v, k, n = c["v"], c["K"], c["n"]
        else:
            v, k = str(rng.choice(VARIANTS)), gen.pick_k(rng)
            n = int(rng.choice([0, 1, 2, 3, 17, 255, 256, 257, 600])) if v != "ascii" else int(rng.integers(0, 20))
        s = gen.scene(rng, n, k, str(rng.choice(["ids", "bits", "normal", "special"])))
        b, must = self.build(v, rng, n, k, s)
        p = ctx.path(str(rng.choice(["a.ply", "foreign.ply", "x.PLY", "noext"])))
        with open(p, "wb") as f:
            f.write(b)
        try:
            n_true, cols = ref.read_vertices(b)
            truth = "ok"
        except ref.BadPly as e:
            truth = str(e)
        ctx.count("files")
        ctx.seen("variants", v)
        for rd in (READERS if c["k"] == "dir" else [str(rng.choice(READERS))]):
            try:
                if rd == "plyread":
                    d = gsply.plyread(p)
                elif rd == "load":
                    d = gsply.GSData.load(p)
                elif rd == "tload":
                    d = GSTensor.load(p, device="cpu")
                else:
                    d = read_uncompressed(p)
            except (ValueError, OSError) as e:
                d = None
            if d is None:
                require(not must, f"{v} n={n} K={k}: {rd} refused a standard file that only differs by comments from the library's own")
                ctx.count("refusals")
                ctx.feat(v, bucket(n), k, rd, "refused")
                continue
            if truth == "payload short":
                require(False, f"{v} n={n} K={k}: {rd} returned {len(d)} Gaussians from a file shorter than its header announces")
            if truth != "ok":
                # the file is outside the PLY grammar: only require that what came back is in the file
                ctx.count("loads_of_ungrammatical")
                ctx.feat(v, bucket(n), k, rd, "odd")
                self.inside(d, b, f"{v} n={n} K={k} {rd}")
                continue
            m = ref.agrees_with_vertices(d, n_true, cols)
            require(not m, lambda: f"{v} n={n} K={k}: {rd}: {m}\nheader: {b[:b.find(b'end_header') + 10][-900:]!r}")
            m = hold.declared_ply(d, k) if n_true else ""
            require(not m, lambda: f"{v} n={n} K={k}: {rd}: {m}")
            ctx.count("loads_exact")
            ctx.feat(v, bucket(n), k, rd, "exact")
        ctx.sample({"variant": v, "n": n, "K": k, "bytes": len(b), "reference": truth})

    @staticmethod
    def inside(d, b, what):
        n = len(d)
        if not n:
            return
        m = d.means.numpy() if hasattr(d.means, "numpy") else d.means
        row = np.ascontiguousarray(m[0]).tobytes()
        require(row in b, f"{what}: returned a position that is nowhere in the file")
