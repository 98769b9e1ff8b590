"""Damaged and malicious variants of PLY files (no gsply code is used)."""
import numpy as np
from vf import gen, ref

NUMBERS = [b"-1", b"0", b"1", b"2", b"255", b"257", b"65536", b"4294967295", b"4294967296", b"1000000000000", b"9223372036854775807", b"9223372036854775808",
           b"18446744073709551615", b"1e3", b"0x10", b"3.0", b"nan", b"", b"+2", b"2_0", b"\xd9\xa3", b"\xc2\xb2", b"9" * 5000, b"two", b"00000000002", b" 2", b"1 2"]
LINES = [b"element vertex 3", b"element chunk 1", b"element sh 3", b"element vertex", b"element", b"property float x", b"property", b"property float", b"format ascii 1.0",
         b"format binary_little_endian 1.0", b"format binary_big_endian 1.0", b"end_header", b"end_header ", b" end_header", b"END_HEADER", b"end_headerx", b"ply", b"",
         b"comment", b"comment end_header", b"obj_info x", b"\x00\x00\x00", b"\xff\xfe", b"property list uchar int vertex_indices", b"property uchar f_rest_0",
         b"element vertex 1000000000000", b"element chunk 4000000000", b"a" * 3000, b"comment " + b"z" * 70000, b"\r", b"element face 0", b"property float f_rest_0"]


def base(kind, n, k, rng):
    s = gen.scene(rng, n, k, "normal")
    if kind == "std":
        return ref.build_std(s)
    c = (n + 255) // 256
    bounds = np.sort(rng.standard_normal((c, 3, 2, 3)).astype(np.float32), axis=2).transpose(0, 1, 2, 3).reshape(c, 18)
    w = rng.integers(0, 2**32, (n, 4), dtype=np.uint64).astype(np.uint32)
    sh = rng.integers(0, 256, (n, 3 * k)).astype("u1") if k else None
    return ref.build_packed(bounds, w, sh)


def split(b):
    i = b.find(b"end_header\n") + 11
    return b[:i], b[i:]


def mutate(b, rng, how=None):
    """-> (bytes, name of the mutation)"""
    h, p = split(b)
    kinds = ["trunc_header", "trunc_payload", "flip_header", "flip_header", "byte_header", "number", "number", "number", "dup_line", "del_line", "swap_lines",
             "ins_line", "ins_line", "token_del", "token_dup", "no_nl", "cr", "crlf", "nul", "no_end", "garbage_tail", "grow_payload", "flip_payload", "type_change",
             "name_change", "reorder_elements", "encoding", "case", "header_only", "prefix", "double_header", "utf16", "two"]
    how = how or str(rng.choice(kinds))
    lines = h.split(b"\n")[:-1]
    if how == "two":
        x, a = mutate(b, rng)
        if b"end_header\n" in x and len(x) < 200000:
            y, c = mutate(x, rng)
            return y, f"{a}+{c}"
        return x, a
    if how == "trunc_header":
        return b[:int(rng.integers(0, len(h)))], how
    if how == "trunc_payload":
        return (b[:int(rng.integers(len(h), len(b)))] if p else b[:-1]), how
    if how in ("flip_header", "byte_header"):
        a = bytearray(b)
        for _ in range(int(rng.integers(1, 4))):
            i = int(rng.integers(0, len(h)))
            a[i] = a[i] ^ (1 << int(rng.integers(0, 8))) if how == "flip_header" else int(rng.integers(0, 256))
        return bytes(a), how
    if how == "flip_payload":
        a = bytearray(b)
        for _ in range(int(rng.integers(1, 20))):
            if p:
                a[int(rng.integers(len(h), len(b)))] = int(rng.integers(0, 256))
        return bytes(a), how
    if how == "number":
        idx = [i for i, l in enumerate(lines) if l.startswith(b"element")]
        i = int(rng.choice(idx))
        w = lines[i].split(b" ")
        w[-1] = NUMBERS[int(rng.integers(len(NUMBERS)))]
        lines[i] = b" ".join(w)
    elif how == "dup_line":
        i = int(rng.integers(len(lines)))
        lines.insert(int(rng.integers(len(lines) + 1)), lines[i])
    elif how == "del_line":
        del lines[int(rng.integers(len(lines)))]
    elif how == "swap_lines":
        i, j = rng.integers(0, len(lines), 2)
        lines[i], lines[j] = lines[j], lines[i]
    elif how == "ins_line":
        for _ in range(int(rng.integers(1, 3))):
            lines.insert(int(rng.integers(len(lines) + 1)), LINES[int(rng.integers(len(LINES)))])
    elif how in ("token_del", "token_dup"):
        i = int(rng.integers(len(lines)))
        w = lines[i].split(b" ")
        j = int(rng.integers(len(w)))
        if how == "token_del":
            del w[j]
        else:
            w.insert(j, w[j])
        lines[i] = b" ".join(w)
    elif how == "no_nl":
        i = int(rng.integers(len(lines) - 1))
        lines[i:i + 2] = [lines[i] + b" " + lines[i + 1]]
    elif how == "cr":
        return b"\r".join(lines) + b"\r" + p, how
    elif how == "crlf":
        return b"\r\n".join(lines) + b"\r\n" + p, how
    elif how == "nul":
        i = int(rng.integers(len(lines)))
        lines[i] = lines[i] + b"\x00" * int(rng.integers(1, 5))
    elif how == "no_end":
        return b"\n".join(lines[:-1]) + b"\n" + (p if rng.random() < .5 else b""), how
    elif how == "garbage_tail":
        return b + rng.bytes(int(rng.integers(1, 300))), how
    elif how == "grow_payload":
        return h + p + p, how
    elif how == "type_change":
        idx = [i for i, l in enumerate(lines) if l.startswith(b"property")]
        for i in (idx if rng.random() < .3 else [int(rng.choice(idx))]):
            w = lines[i].split(b" ")
            w[1] = [b"float", b"double", b"uint", b"uchar", b"int", b"float32", b"uint32", b"uint8", b"ushort", b"list uchar int", b"FLOAT", b"foo"][int(rng.integers(12))]
            lines[i] = b" ".join(w)
    elif how == "name_change":
        idx = [i for i, l in enumerate(lines) if l.startswith((b"property", b"element"))]
        i = int(rng.choice(idx))
        w = lines[i].split(b" ")
        j = 1 if w[0] == b"element" else -1
        w[j] = [b"x", b"vertex", b"chunk", b"sh", b"f_rest_0", b"f_rest_45", b"opacity", b"packed_color", b"min_x", b"", b"\xc3\xa9"][int(rng.integers(11))]
        lines[i] = b" ".join(w)
    elif how == "reorder_elements":
        starts = [i for i, l in enumerate(lines) if l.startswith(b"element")] + [len(lines) - 1]
        blocks = [lines[a:z] for a, z in zip(starts, starts[1:])]
        o = rng.permutation(len(blocks))
        lines = lines[:starts[0]] + [l for i in o for l in blocks[i]] + lines[-1:]
    elif how == "encoding":
        e = [b"ascii", b"binary_big_endian", b"binary", b"", b"BINARY_LITTLE_ENDIAN", b"\xff"][int(rng.integers(6))]
        lines[1] = b"format " + e + b" 1.0"
    elif how == "case":
        i = int(rng.integers(len(lines)))
        lines[i] = lines[i].upper()
    elif how == "header_only":
        return h, how
    elif how == "prefix":
        return [b"\n", b" ", b"\xef\xbb\xbf", b"\x00", b"ply\n"][int(rng.integers(5))] + b, how
    elif how == "double_header":
        return h + h + p, how
    elif how == "utf16":
        return h.decode("latin1").encode("utf-16") + p, how
    return b"\n".join(lines) + b"\n" + p, how


def arbitrary(rng):
    u = rng.random()
    if u < .2:
        return rng.bytes(int(rng.choice([0, 1, 2, 3, 4, 10, 100, 5000])))
    if u < .4:
        return b"ply\n" + rng.bytes(int(rng.integers(0, 3000)))
    if u < .6:
        return b"ply\nformat binary_little_endian 1.0\n" + b"\n".join(LINES[int(rng.integers(len(LINES)))] for _ in range(int(rng.integers(0, 60)))) + rng.bytes(int(rng.integers(0, 500)))
    if u < .7:
        return b"ply\n" + b"comment x\n" * int(rng.choice([1, 100, 5000])) + (b"end_header\n" if rng.random() < .5 else b"")
    if u < .75:
        return b"ply\n" + b"a" * int(rng.choice([1000, 70000, 1000000]))
    if u < .85:
        return b"\n" * int(rng.choice([1, 1000, 100000]))
    return b"ply\n" + b"".join(LINES[int(rng.integers(len(LINES)))] + b"\n" for _ in range(int(rng.integers(0, 200))))
