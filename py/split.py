"""h264nal-split.py: the file is cut exactly before the SPSs that change the resolution (C25)"""
import sys
from typing import List
from common import load, Sink, VFS, world

S = load("h264nal-split")
FUNCS = ["parse_nal_units", "find_start_code_offset", "find_split_points", "split_file", "run_h264nal", "main"]
SC = (b"\x00\x00\x00\x01", b"\x00\x00\x01")
DIM = ((176, 144), (352, 288), (176, 288), (352, 144))


class quiet:
    def __enter__(self):
        self.e = sys.stderr
        sys.stderr = Sink()

    def __exit__(self, *a):
        sys.stderr = self.e
        return False


def p_start(data: bytes, off: int) -> bool:
    """the start code before a NAL unit: four bytes when there are four, else three, else none
    pre: len(data) <= 7
    pre: 0 <= off <= len(data)
    post: __return__
    """
    want = off
    if off >= 3 and data[off - 1] == 1 and data[off - 2] == 0 and data[off - 3] == 0:
        want = off - 3
        if off >= 4 and data[off - 4] == 0:
            want = off - 4
    return S.find_start_code_offset(data, off) == want


def spec_points(units):
    r, last = [], None
    for at, t, w, h in units:
        if t != 7 or w is None:
            continue
        if last is not None and last != (w, h):
            r.append(at)
        last = (w, h)
    return r


def p_points(n: int, t0: int, t1: int, t2: int, w0: int, w1: int, w2: int, h0: int, h1: int, h2: int, k1: bool, k2: bool) -> bool:
    """one split point per SPS whose resolution differs from the SPS before it, at its start code
    pre: 0 <= n <= 3
    pre: w0 > 0 and w1 > 0 and w2 > 0 and h0 > 0 and h1 > 0 and h2 > 0
    post: __return__
    """
    ts, ws, hs, ks = (t0, t1, t2), (w0, w1, w2), (h0, h1, h2), (True, k1, k2)
    data, nal, ref = b"", [], []
    for i in range(n):
        at = len(data)
        data += SC[i % 2]
        d = {"nal_unit_type": ts[i], "offset": len(data), "length": 2}
        if ks[i]:
            d["width"], d["height"] = ws[i], hs[i]
        nal.append(d)
        ref.append((at, ts[i], ws[i] if ks[i] else None, hs[i]))
        data += b"gx"
    with quiet():
        return S.find_split_points(nal, data, 0) == spec_points(ref)


def p_points_long(c: List[int]) -> bool:
    """longer streams of SPSs and slices (0: a slice, 1..3: an SPS of that size)
    pre: len(c) <= 5
    pre: all(0 <= x <= 2 for x in c)
    post: __return__
    """
    data, nal, ref = b"", [], []
    for x in c:
        at = len(data)
        data += b"\x00\x00\x01"
        d = {"nal_unit_type": 7 if x else 1, "offset": len(data), "length": 2}
        if x:
            d["width"], d["height"] = DIM[x]
        nal.append(d)
        ref.append((at, 7 if x else 1, DIM[x][0] if x else None, DIM[x][1]))
        data += b"gx"
    with quiet():
        return S.find_split_points(nal, data, 0) == spec_points(ref)


def p_files(data: bytes, n: int, a: int, b: int) -> bool:
    """the pieces are the file: nothing lost, repeated or reordered
    pre: len(data) <= 6
    pre: 0 <= n <= 2
    pre: 0 <= a <= b <= len(data)
    post: __return__
    """
    fs = VFS()
    S.open = fs.open
    try:
        with quiet():
            out = S.split_file("dir/foo.264", data, [a, b][:n] if n != 1 else [b], 0)
    finally:
        del S.open
    cuts = [0] + ([a, b] if n == 2 else [b] if n == 1 else []) + [len(data)]
    names = ["dir/foo.%02d.264" % (i + 1) for i in range(n + 1)]
    if sorted(fs) != names or [x[0] for x in out] != names:
        return False
    for i in range(n + 1):
        if fs[names[i]] != data[cuts[i]:cuts[i + 1]] or out[i][1] != cuts[i + 1] - cuts[i]:
            return False
    return True


def text(units):
    """h264nal's multi-line output, as C21 defines it, for (offset, length, type, dims)"""
    s = ""
    for off, ln, t, dims in units:
        s += "nal_unit {\n  offset: 0x%08x\n  length: %d\n  nal_unit_header {\n    forbidden_zero_bit: 0\n    nal_ref_idc: 3\n    nal_unit_type: %d\n  }\n  nal_unit_payload {\n" % (off, ln, t)
        if t in (7, 15):
            s += ("    sps {\n      sps_data {" if t == 7 else "    subset_sps {\n      seq_parameter_set_data {") + "\n        profile_idc: 66\n        pic_width_in_mbs_minus1: 10\n        pic_height_in_map_units_minus1: 8\n"
            if t == 7 and off % 2:
                s += "        frame_crop_left_offset: 3\n        vui_parameters {\n          vcl_hrd_parameters {\n            time_offset_length: 24\n          }\n          log2_max_mv_length_vertical: 9\n        }\n"
            if dims:
                s += "        width: %d\n        height: %d\n" % dims
            s += "      }\n    }\n"
        elif t == 1:
            s += "    slice_layer_without_partitioning_rbsp {\n      slice_header {\n        first_mb_in_slice: 0\n      }\n    }\n"
        s += "  }\n}\n"
    return s


def p_parse(a: int, b: int, o: int) -> bool:
    """every NAL unit of h264nal's output with its offset, length, type and size (0..3: an SPS of that size, 4: an SPS without size, 5: a slice, 6: another unit, 7: no unit)
    pre: 0 <= a <= 7 and 0 <= b <= 7 and 0 <= o <= 3
    post: __return__
    """
    offs = ((4, 23), (3, 0xabcdef), (0x3c, 0xffffffff), (0xfffffffe, 0x123456789))
    u = []
    for i, x in enumerate((a, b)):
        if x < 7:
            u.append((offs[o][i], 12345 + i, 7 if x < 5 else 1 if x == 5 else 15, DIM[x] if x < 4 else None))
    got = S.parse_nal_units(text(u))
    if len(got) != len(u):
        return False
    for g, (off, ln, t, dims) in zip(got, u):
        want = {"offset": off, "length": ln, "nal_unit_type": t}
        if t == 7 and dims:
            want["width"], want["height"] = dims
        if g != want:
            return False
    return True


NAMES = (("foo.264", "foo", ".264"), ("foo", "foo", ""), ("dir.d/foo", "dir.d/foo", ""), ("a.b.264", "a.b", ".264"), ("../x/a.h264", "../x/a", ".h264"), ("/v/foo.01.264", "/v/foo.01", ".264"))


def run_main(data, u, ref, rc, name=0, argv=None):
    path, base, ext = NAMES[name]
    cmd = []

    class R:
        pass

    def run(args, **_):
        cmd.append(list(args))
        r = R()
        r.returncode, r.stdout, r.stderr = rc, text(u), ""
        return r

    class A:
        input, h264nal_path, debug = path, "/bin/h264nal", 0
    fs = VFS({path: data})
    stopped = False
    S.open = fs.open
    try:
        with quiet(), world((path, "/bin/h264nal"), argv or ["x", "-i", path, "--h264nal-path", "/bin/h264nal"], [(S.subprocess, "run", run)] + ([] if argv else [(S, "parse_args", lambda *_: A)])):
            try:
                S.main()
            except SystemExit as e:
                stopped = e.code not in (0, None)
    finally:
        del S.open
    if rc:
        return stopped and len(fs) == 1
    if stopped or len(cmd) != 1 or cmd[0][0] != "/bin/h264nal" or path not in cmd[0] or not {"--add-offset", "--add-length", "--add-resolution", "--no-as-one-line"} <= set(cmd[0]):
        return False
    cuts = spec_points(ref)
    if fs[path] != data:
        return False
    if not cuts:
        return len(fs) == 1
    b = [0] + cuts + [len(data)]
    want = {"%s.%02d%s" % (base, i + 1, ext): data[b[i]:b[i + 1]] for i in range(len(b) - 1)}
    want[path] = data
    return dict(fs) == want


def p_main(c: List[int], four: bool, rc: int) -> bool:
    """the whole script: pieces concatenate to the input, each later piece starts at an SPS that changes the size
    pre: 1 <= len(c) <= 4
    pre: all(0 <= x <= 2 for x in c)
    pre: 0 <= rc <= 1
    post: __return__
    """
    data, u, ref = b"", [], []
    for x in c:
        at = len(data)
        data += SC[0 if four else 1]
        u.append((len(data), 3, 7 if x else 1, DIM[x] if x else None))
        ref.append((at, 7 if x else 1, DIM[x][0] if x else None, DIM[x][1]))
        data += b"gxy"
    return run_main(data, u, ref, rc)


def p_main_kinds(c: List[int]) -> bool:
    """units of every kind between the parameter sets: 0 a slice, 1..2 an SPS of that size, 3 an SPS of unknown size, 4 an SPS without size, 5 a subset SPS of another size, 6 a PPS, 7 an SEI
    pre: 1 <= len(c) <= 3
    pre: all(0 <= x <= 7 for x in c)
    post: __return__
    """
    data, u, ref = b"", [], []
    for i, x in enumerate([1] + list(c) + [2]):
        at = len(data)
        data += SC[i % 2]
        t = (1, 7, 7, 7, 7, 15, 8, 6)[x]
        dims = (None, DIM[1], DIM[2], (-1, -1), None, DIM[3], None, None)[x]
        u.append((len(data), 3, t, dims))
        ref.append((at, t, dims[0] if x in (1, 2) else None, dims[1] if dims else 0))
        data += b"gxy"
    return run_main(data, u, ref, 0)


def p_args(k: int, d: int, b: int) -> bool:
    """the arguments as a user gives them
    pre: 0 <= k <= 3 and 0 <= d <= 3 and 0 <= b <= 2
    post: __return__
    """
    data, u, ref = whole([1, 0, b, 2], 1, 2)
    argv = ["x"] + (["-i", "foo.264"], ["--input", "foo.264"], ["--input=foo.264"], ["-ifoo.264"])[k] + ["--h264nal-path", "/bin/h264nal"] + ([], ["-d"], ["--debug"], ["-dd"])[d]
    return run_main(data, u, ref, 0, 0, argv)


def p_main_names(k: int, a: int, b: int) -> bool:
    """the names of the pieces
    pre: 0 <= k <= 5 and 0 <= a <= 2 and 0 <= b <= 2
    post: __return__
    """
    data, u, ref = whole([1, 0, a, b, 2], 1, 2)
    return run_main(data, u, ref, 0, k)


def whole(c, at, pad, cmdrc=0):
    """the script on a file of len(c) units (0: a slice, 1..2: an SPS of that size), unit `at` of them `pad` bytes longer"""
    data, u, ref = [], [], []
    n = 0
    for i, x in enumerate(c):
        sc = SC[i % 2]
        body = b"gxy" + (b"\x00\x00\x03\x01\x0d\x0a" * (pad // 6 + 1))[:pad if i == at else 0] + b"z"
        u.append((n + len(sc), len(body), 7 if x else 1, DIM[x] if x else None))
        ref.append((n, 7 if x else 1, DIM[x][0] if x else None, DIM[x][1]))
        data += [sc, body]
        n += len(sc) + len(body)
    return b"".join(data), u, ref


def p_main_many(k: int, d: int, p: int) -> bool:
    """many cuts and long units: the numbering and the bounds of every piece
    pre: 0 <= k <= 4 and 0 <= d <= 2 and 0 <= p <= 3
    pre: k < 2 or p == 0
    post: __return__
    """
    n = (8, 11, 99, 100, 130)[k]
    c = []
    for i in range(n):
        c.append(1 + i % 2)
        if i % 3 == d:
            c.append(0)
        if i % 4 == d:
            c.append(1 + i % 2)
    data, u, ref = whole(c, 5, (0, 300, 5000, 70000)[p])
    return run_main(data, u, ref, 0)


# calls any working script satisfies: when a function-level harness fails on all of its own and the whole script
# is right, the function's interface is what changed, not the script's behaviour
TRIVIAL = {"p_start": ["p_start(b'\\x00\\x00\\x00\\x01g', 4)", "p_start(b'\\x00\\x00\\x01gg', 3)"], "p_points": ["p_points(2, 7, 7, 1, 176, 352, 0, 144, 288, 0, True, True)", "p_points(3, 7, 1, 7, 176, 0, 352, 144, 0, 288, True, True)"],
           "p_points_long": ["p_points_long([1, 2])", "p_points_long([1, 0, 2])"], "p_files": ["p_files(b'abcd', 1, 2, 2)", "p_files(b'abcdef', 2, 2, 4)"], "p_parse": ["p_parse(0, 5, 0)", "p_parse(1, 2, 0)"]}
WHOLE = ["p_main", "p_main_kinds", "p_args", "p_main_names", "p_main_many"]
