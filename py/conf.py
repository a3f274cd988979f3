"""h264nal-conformance.py: the summary row is what h264nal reported (C26)"""
import io
import os
import sys
from typing import List
from common import load, mine, Sink, VFS, world

C = load("h264nal-conformance")
FUNCS = ["run_h264nal", "summarize_errors", "get_int_field", "format_level", "parse_sps_lines", "add_unique", "count_slice_nalus", "count_slice_headers", "get_slice_header_status", "analyze_file", "main", "write_csv"]
PROFILES = (66, 77, 88, 44, 100, 110, 122, 244)
LEVELS = (9, 10, 11, 12, 13, 20, 21, 22, 30, 31, 32, 40, 41, 42, 50, 51, 52, 60, 61, 62)
TYPES = (1, 5, 20, 7, 9, 2, 19, 14, 15, 21, 11)


def level_name(p, l, c3):
    if l == 9 and p not in (66, 77, 88):
        return "1b"
    if l == 11 and c3 == 1 and p in (66, 77, 88):
        return "1b"
    return "%d.%d" % (l // 10, l % 10)


def p_level(p: int, l: int, c3: int) -> bool:
    """Table A-1 level numbers, with level 1b signalled per profile (A.3.1, A.3.2)
    pre: 0 <= p <= 7 and 0 <= l <= 19 and 0 <= c3 <= 1
    post: __return__
    """
    return C.format_level(PROFILES[p], LEVELS[l], c3) == level_name(PROFILES[p], LEVELS[l], c3)


def p_level_1b(p: int, l: int, c3: int) -> bool:
    """level 1b exactly when it is signalled, for every level_idc
    pre: 0 <= l <= 255 and 0 <= c3 <= 1
    pre: p in (66, 77, 88, 44, 100, 110, 122, 244)
    pre: l in (9, 11) or l % 50 == 0
    post: __return__
    """
    high = p in (44, 100, 110, 122, 244)
    return (C.format_level(p, l, c3) == "1b") == ((high and l == 9) or (not high and l == 11 and c3 == 1))


def p_header_status(a: int, b: int) -> bool:
    """a shortfall of slice headers is reported, equality is not
    pre: 0 <= a <= 12 and 0 <= b <= 12
    post: __return__
    """
    r = C.get_slice_header_status(a, b)
    return r == "0" if a == b else r != "0" and ("%d/%d" % (b, a)) in r


class Res:
    pass


class patched:
    """the h264nal process: its output, status and failures chosen by the solver"""
    def __init__(self, out, err, rc, fail):
        self.a = (out, err, rc, fail)
        self.cmds = []

    def run(self, args, **k):
        out, err, rc, fail = self.a
        self.cmds.append(list(args))
        if fail == 1:
            raise C.subprocess.TimeoutExpired(args, k.get("timeout", 0))
        if fail == 2:
            raise OSError("no such file")
        r = Res()
        r.stdout, r.stderr, r.returncode = out, err, rc
        return r

    def __enter__(self):
        self.save, self.e = C.subprocess.run, sys.stderr
        C.subprocess.run, sys.stderr = self.run, Sink()
        return self

    def __exit__(self, *a):
        C.subprocess.run, sys.stderr = self.save, self.e
        return False


MSG = ("error: a", "error: b", "", "  error: a  ")


def spec_status(msgs, rc, fail):
    if fail == 1:
        return "timeout after 7s"
    if fail == 2:
        return None
    m = [x.strip() for x in msgs if x.strip()]
    seen = []
    for x in m:
        if x not in seen:
            seen.append(x)
    s = "; ".join(x if m.count(x) == 1 else "%s (x%d)" % (x, m.count(x)) for x in seen)
    if rc:
        why = {1: "h264nal: invalid bitstream", 2: "h264nal: unimplemented syntax"}.get(rc, "h264nal exited with %d" % rc)
        s = why + ("; " + s if s else "")
    return s or "0"


def p_status(m: List[int], rc: int, fail: int) -> bool:
    """0 exactly when h264nal ran to its end with status 0 and no message; otherwise why, each message once with its count
    pre: len(m) <= 3
    pre: all(0 <= x <= 3 for x in m)
    pre: -1 <= rc <= 4 and 0 <= fail <= 2
    post: __return__
    """
    msgs = [MSG[x] for x in m]
    with patched("out", "".join(x + "\n" for x in msgs), rc, fail) as p:
        out, st = C.run_h264nal("foo.264", "/bin/h264nal", 7)
    if len(p.cmds) != 1 or p.cmds[0][0] != "/bin/h264nal" or "foo.264" not in p.cmds[0]:
        return False
    want = spec_status(msgs, rc, fail)
    if fail:
        return out == "" and st != "0" and (want is None or st == want)
    return out == "out" and st == want


def line(t, sps=None, hdr=False, sub=False):
    """one NAL unit of h264nal's one-line output, as C21 defines it"""
    s = "nal_unit { nal_unit_header { forbidden_zero_bit: 0 nal_ref_idc: 1 nal_unit_type: %d } nal_unit_payload { " % t
    if sps:
        p, l, c3, w, h, name = sps
        d = "sps_data { profile_idc: %d constraint_set0_flag: 0 constraint_set3_flag: %d constraint_set4_flag: 0 profile_type: 3 profile: %s level_idc: %d seq_parameter_set_id: 0 pic_width_in_mbs_minus1: 10 pic_height_in_map_units_minus1: 8 " % (p, c3, name, l)
        if w is not None:
            d += "width: %d height: %d " % (w, h)
        s += ("subset_sps { " if sub else "sps { ") + d + "} } "
    if hdr:
        s += "slice_layer_extension_rbsp { slice_header_in_scalable_extension { first_mb_in_slice: 0 slice_type: 2 } } " if t == 20 else "slice_layer_without_partitioning_rbsp { slice_header { first_mb_in_slice: 0 slice_type: 7 } } "
    return s + "} }\n"


def p_slices(a: int, b: int, ha: bool, hb: bool) -> bool:
    """slice NAL units (1, 5, 20) and the slice headers parsed from them are counted exactly
    pre: 0 <= a <= 11 and 0 <= b <= 11
    pre: (a <= 2 or not ha) and (b <= 2 or not hb)
    post: __return__
    """
    s, n, k = "", 0, 0
    for x, h in ((a, ha), (b, hb)):
        if x < 11:
            s += line(TYPES[x], None, h)
            n += 1 if x <= 2 else 0
            k += 1 if h else 0
    return C.count_slice_nalus(s) == n and C.count_slice_headers(s) == k


SP = ((66, 30, 0, 176, 144, "Baseline"), (100, 40, 0, 1920, 1080, "High"), (66, 11, 1, 176, 144, "Baseline"), (100, 9, 0, None, None, "High"), (77, 11, 0, 352, 288, "Main"), (100, 9, 1, 176, 144, "Constrained High"))


def uniq(v):
    r = []
    for x in v:
        if x is not None and x not in r:
            r.append(x)
    return r


def p_row(a: int, b: int, c: int, rc: int) -> bool:
    """the whole row of one file: sizes, profiles and levels of every SPS, in order, without repeats; the counts; both statuses
    pre: 0 <= a <= 6 and 0 <= b <= 6 and 0 <= c <= 3 and 0 <= rc <= 1
    post: __return__
    """
    out, sps = "", []
    for i, x in enumerate((a, b)):
        if x < 6:
            sps.append(SP[x])
            out += line(15 if i else 7, SP[x], False, bool(i))
    tail = ((), (1,), (20, 9), (5, 1))[c]
    for i, t in enumerate(tail):
        out += line(t, None, i == 0)
    with patched(out, "", rc, 0):
        r = C.analyze_file("x/y/foo.264", "/bin/h264nal", 7)
    sl = [t for t in tail if t in (1, 5, 20)]
    hd = 1 if tail else 0
    return r == {"input_dir": "y", "input_file": "foo.264", "resolution": ";".join(uniq(["%dx%d" % (s[3], s[4]) if s[3] is not None else None for s in sps])), "profile": ";".join(uniq([s[5] for s in sps])),
                 "level": ";".join(uniq([level_name(s[0], s[1], s[2]) for s in sps])), "number_of_nalus": len(sps) + len(tail), "number_of_slice_nalus": len(sl), "number_of_slice_header_nalus": hd,
                 "h264nal_status": spec_status([], rc, 0), "slice_header_status": "0" if hd == len(sl) else "unparsed slice headers: %d/%d" % (hd, len(sl))}


def p_main(n: int, d: int, rc: int) -> bool:
    """one CSV row per regular file, in the order given
    pre: 0 <= n <= 3 and 0 <= d <= 3 and 0 <= rc <= 2
    post: __return__
    """
    names = ["a/f%d.264" % i for i in range(n)]
    out = line(7, SP[1]) + line(5, None, True)
    fs = VFS()

    class O:
        infiles, outfile, h264nal_path, timeout, quiet = names, "out.csv", "/bin/h264nal", 7, True
    argv = ["x", "-o", "out.csv", "--h264nal", "/bin/h264nal", "--timeout", "7", "-q"] + names
    C.open = fs.open
    try:
        with patched(out, "", rc, 0) as p, world([x for i, x in enumerate(names) if i != d] + ["/bin/h264nal"], argv, [(C.os.path, "isdir", lambda p: d < n and str(p) == names[d]), (C, "get_options", lambda *_: O)]):
            C.main(argv)
    finally:
        del C.open
    files = [x for i, x in enumerate(names) if i != d]
    if list(fs) != ["out.csv"] or [c[c.index("-i") + 1] for c in p.cmds] != files:
        return False
    rows = fs["out.csv"].split("\r\n")
    want = ["input_dir,input_file,resolution,profile,level,number_of_nalus,number_of_slice_nalus,number_of_slice_header_nalus,h264nal_status,slice_header_status"]
    for f in files:
        want.append("a,%s,1920x1080,High,4.0,2,1,1,%s,0" % (f[2:], spec_status([], rc, 0)))
    return rows == want + [""]


# what h264nal says about a file: (units, messages, exit status, failure)
FILES = [([(7, 1), (5, True)], [], 0, 0), ([(7, 0), (15, 5), (5, True), (20, True), (1, False)], [], 0, 0), ([], ["error: x, \"y\"", "error: x, \"y\""], 1, 0), ([(7, 4), (1, True), (1, True)], ["error: b"], 2, 0), ([], [], 0, 1), ([], [], 0, 2), ([(9, False)], [], -11, 0), ([(7, 2), (8, False), (7, 3), (1, False)], ["error: c"], 0, 0)]


def said(x):
    u, msgs, rc, fail = FILES[x]
    out = "".join(line(t, SP[v], False, t == 15) if t in (7, 15) else line(t, None, v) for t, v in u)
    return out, "".join(m + "\n" for m in msgs), rc, fail


def row_of(path, x):
    """the row as text, quoted as RFC 4180 says"""
    u, msgs, rc, fail = FILES[x]
    if fail:
        u = []
    sps = [SP[v] for t, v in u if t in (7, 15)]
    sl = [v for t, v in u if t in (1, 5, 20)]
    hd = len([v for v in sl if v])
    st = spec_status(msgs, rc, fail) or "could not run h264nal: no such file"
    f = [path.split("/")[-2], path.split("/")[-1], ";".join(uniq(["%dx%d" % (s[3], s[4]) if s[3] is not None else None for s in sps])), ";".join(uniq([s[5] for s in sps])),
         ";".join(uniq([level_name(s[0], s[1], s[2]) for s in sps])), str(len(u)), str(len(sl)), str(hd), st, "0" if hd == len(sl) else "unparsed slice headers: %d/%d" % (hd, len(sl))]
    return ",".join('"' + v.replace('"', '""') + '"' if '"' in v or "," in v else v for v in f)


def files(kinds, q, argv=None):
    names = ["d/a/f0.264", "d/b.c/f,1.264", "/e/g/f0.264"][:len(kinds)]
    fs = VFS()

    class P(patched):
        def run(self, args, **k):
            path = [x for x in args if x in names][0]
            self.a = said(kinds[names.index(path)])
            return patched.run(self, args, **k)

    class O:
        infiles, outfile, h264nal_path, timeout, quiet = names, None if q else "out.csv", "/bin/h264nal", 7, q == 0
    swap = [(C.os.path, "isdir", lambda p: False)] + ([] if argv else [(C, "get_options", lambda *_: O)]) + ([(sys, "stdout", fs.open("out.csv", "w"))] if q else [])
    argv = argv or ["x", "--h264nal", "/bin/h264nal", "--timeout", "7"] + ([] if q else ["-q", "-o", "out.csv"]) + names
    C.open = fs.open
    try:
        with P("", "", 0, 0) as p, world(names + ["/bin/h264nal"], argv, swap):
            C.main(argv)
    finally:
        del C.open
    want = ["input_dir,input_file,resolution,profile,level,number_of_nalus,number_of_slice_nalus,number_of_slice_header_nalus,h264nal_status,slice_header_status"]
    want += [row_of(n, x) for n, x in zip(names, kinds)]
    got = fs["out.csv"].replace("\r\n", "\n").split("\n")
    return list(fs) == ["out.csv"] and got == want + [""]


def p_args(k: int, o: int, q: int, t: int) -> bool:
    """the arguments as a user gives them
    pre: 0 <= k <= 1 and 0 <= o <= 3 and 0 <= q <= 2 and 0 <= t <= 1
    post: __return__
    """
    f = ["d/a/f0.264", "d/b.c/f,1.264"]
    opt = ["--h264nal", "/bin/h264nal"] + (["--timeout", "7"], ["--timeout=7"])[t] + ([], ["-o", "out.csv"], ["--output", "out.csv"], ["--output=out.csv"])[o] + ([], ["-q"], ["--quiet"])[q]
    return files([1, 4], o == 0, ["x"] + (f + opt if k else opt + f))


def p_files(a: int, b: int, c: int, q: int) -> bool:
    """several files, each with its own contents, messages, status or failure: each row is that file's, whatever the others were; the table to a file or to stdout
    pre: 0 <= a <= 7 and 0 <= b <= 7 and 0 <= c <= 8 and 0 <= q <= 1
    pre: a % 2 == 0 or c == 8 or c == a
    pre: mine(b)
    post: __return__
    """
    return files([a, b] + ([c] if c < 8 else []), q == 1)


def p_big(k: int, m: int, rc: int) -> bool:
    """long outputs: every unit and every message counts, however many there are
    pre: 0 <= k <= 3 and 0 <= m <= 3 and 0 <= rc <= 2
    post: __return__
    """
    n, e = (9, 10, 120, 300)[k], (1, 9, 10, 101)[m]
    out, msgs = line(7, SP[1]) + line(8), []
    for i in range(n):
        out += line((1, 5, 20)[i % 3], None, i % 7 != 3)
        if i % 5 == 4:
            out += line(15 if i % 2 else 7, SP[i % 6], False, bool(i % 2))
    for i in range(e):
        msgs.append("error: a %d" % (i % 2))
    with patched(out, "".join(x + "\n" for x in msgs), rc, 0):
        r = C.analyze_file("y/foo.264", "/bin/h264nal", 7)
    sps = [SP[1]] + [SP[i % 6] for i in range(n) if i % 5 == 4]
    hd = len([i for i in range(n) if i % 7 != 3])
    return r == {"input_dir": "y", "input_file": "foo.264", "resolution": ";".join(uniq(["%dx%d" % (s[3], s[4]) if s[3] is not None else None for s in sps])), "profile": ";".join(uniq([s[5] for s in sps])),
                 "level": ";".join(uniq([level_name(s[0], s[1], s[2]) for s in sps])), "number_of_nalus": 1 + len(sps) + n, "number_of_slice_nalus": n, "number_of_slice_header_nalus": hd,
                 "h264nal_status": spec_status(msgs, rc, 0), "slice_header_status": "0" if hd == n else "unparsed slice headers: %d/%d" % (hd, n)}


TRIVIAL = {"p_big": ["p_big(0, 0, 0)", "p_big(0, 0, 1)"], "p_level": ["p_level(0, 8, 0)", "p_level(4, 11, 0)"], "p_level_1b": ["p_level_1b(66, 11, 1)", "p_level_1b(100, 9, 0)"], "p_header_status": ["p_header_status(2, 2)", "p_header_status(3, 1)"], "p_status": ["p_status([], 0, 0)", "p_status([0], 0, 0)", "p_status([0], 1, 0)"],
           "p_slices": ["p_slices(0, 1, True, True)", "p_slices(0, 3, True, False)"], "p_row": ["p_row(0, 6, 1, 0)", "p_row(1, 6, 1, 0)"]}
WHOLE = ["p_main", "p_args", "p_files"]
