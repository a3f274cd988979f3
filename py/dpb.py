"""h264nal-dpb_parse.py: reference picture marking and list 0 of frame-coded streams (C28)"""
import io
import sys
from typing import List
from common import load, mine, Sink, VFS, world

D = load("h264nal-dpb_parse")


# ---- the standard, for frames (8.2.4.1, 8.2.4.2.1, 8.2.4.3, 8.2.5): a picture is [frame_num, long-term index or None]
def ref_list0(dpb, cur, maxfn):
    st = [p for p in dpb if p[1] is None]
    # PicNum = FrameNumWrap, descending; insertion sort so that nothing of the code's own sorting is reused
    out = []
    for p in st:
        w = p[0] - maxfn if p[0] > cur else p[0]
        i = 0
        while i < len(out) and out[i][0] > w:
            i += 1
        out.insert(i, (w, p))
    lt = []
    for p in dpb:
        if p[1] is not None:
            i = 0
            while i < len(lt) and lt[i][1] < p[1]:
                i += 1
            lt.insert(i, p)
    return [p for _, p in out] + lt


def ref_modify(lst, dpb, cur, maxfn, n, mods):
    """8.2.4.3 on an array of n + 1 entries; returns None when a command names no picture"""
    arr = (list(lst) + [None] * (n + 1))[:n] + [None]
    pred, idx = cur, 0
    for idc, v in mods:
        if idx >= n:
            return None
        if idc == 2:
            hit = [p for p in dpb if p[1] == v]
        else:
            if idc == 0:
                pred = pred - (v + 1) + (maxfn if pred - (v + 1) < 0 else 0)
            else:
                pred = pred + (v + 1) - (maxfn if pred + (v + 1) >= maxfn else 0)
            num = pred - maxfn if pred > cur else pred
            hit = [p for p in dpb if p[1] is None and (p[0] - maxfn if p[0] > cur else p[0]) == num]
        if len(hit) != 1:
            return None
        for c in range(n, idx, -1):
            arr[c] = arr[c - 1]
        arr[idx] = hit[0]
        idx += 1
        k = idx
        for c in range(idx, n + 1):
            if arr[c] is not hit[0]:
                arr[k] = arr[c]
                k += 1
    return [p for p in arr[:n] if p is not None]


def ref_mark(dpb, fr, maxfn, maxref):
    """8.2.5 after decoding one frame; None when the stream is not allowed to do this"""
    if fr.idr:
        return [[fr.fn, 0 if fr.ltr else None]]
    if not fr.ref:
        return dpb
    dpb = [list(p) for p in dpb]
    if not fr.mm:
        if len(dpb) >= max(maxref, 1):
            st = [p for p in dpb if p[1] is None]
            if not st or len(dpb) > max(maxref, 1):
                return None
            w = [p[0] - maxfn if p[0] > fr.fn else p[0] for p in st]
            dpb.remove(st[w.index(min(w))])
        return dpb + [[fr.fn, None]]
    cur, num = None, fr.fn
    for op in fr.mm:
        if op[0] in (1, 3):
            x = fr.fn - (op[1] + 1)
            x = x + maxfn if x < 0 else x
            hit = [p for p in dpb if p[1] is None and p[0] == x]
            if len(hit) != 1:
                return None
            if op[0] == 1:
                dpb.remove(hit[0])
            else:
                dpb = [p for p in dpb if p[1] != op[2]]
                hit[0][1] = op[2]
        elif op[0] == 2:
            if [p[1] for p in dpb].count(op[1]) != 1:
                return None
            dpb = [p for p in dpb if p[1] != op[1]]
        elif op[0] == 4:
            dpb = [p for p in dpb if p[1] is None or p[1] < op[1]]
        elif op[0] == 5:
            dpb, num = [], 0
        elif op[0] == 6:
            dpb = [p for p in dpb if p[1] != op[1]]
            cur = op[1]
    dpb = dpb + [[num, cur]]
    return dpb if len(dpb) <= max(maxref, 1) else None


# ---- the CSV
def pic(p):
    return "fn=%d/STR" % p[0] if p[1] is None else "fn=%d/LTR[%d]" % (p[0], p[1])


def pics(l):
    return ";".join(pic(p) for p in l)


HEAD = "abs_frame,gop,gop_frame,type,frame_num,nal_ref_idc,ref,refs_used,dpb_before_decode,mmco,dpb_after_mmco\n"


def mm_text(fr, maxfn):
    if fr.idr:
        return "IDR:LTR[0]" if fr.ltr else "IDR:STR"
    if not fr.mm:
        return "sliding_window" if fr.ref else ""
    r = []
    for op in fr.mm:
        fn = (fr.fn - op[1] - 1) % maxfn if op[0] in (1, 3) else 0
        if op[0] == 1:
            r.append("MMCO1:rm_STR(fn=%d)" % fn)
        elif op[0] == 2:
            r.append("MMCO2:rm_LTR[%d]" % op[1])
        elif op[0] == 3:
            r.append("MMCO3:STR(fn=%d)->LTR[%d]" % (fn, op[2]))
        elif op[0] == 4:
            r.append("MMCO4:max_ltr_idx=%d" % (op[1] - 1))
        else:
            r.append("MMCO5:clear_all" if op[0] == 5 else "MMCO6:self->LTR[%d]" % op[1])
    return ";".join(r)


def want(frames, maxfn, maxref):
    """the whole table, or None when the stream is not allowed"""
    out, dpb, gop, g = HEAD, [], 0, 0
    for i, fr in enumerate(frames):
        if fr.idr:
            dpb, g = [], 0
            gop += 1 if i else 0
        before, refs = pics(dpb), ""
        if fr.t in (0, 3) and dpb:
            l = ref_list0(dpb, fr.fn, maxfn)[:]
            l = ref_modify(l, dpb, fr.fn, maxfn, fr.n, fr.mod)
            if l is None:
                return None
            refs = pics(l)
        dpb = ref_mark(dpb, fr, maxfn, maxref)
        if dpb is None:
            return None
        out += "%d,%d,%d,%s,%d,%d,%s,%s,%s,%s,%s\n" % (i, gop, g, "IDR" if fr.idr else ("P", "B", "I", "SP", "SI")[fr.t], fr.fn, fr.idc if fr.ref else 0, "Y" if fr.ref else "N", refs, before, mm_text(fr, maxfn), pics(dpb))
        g += 1
    return out


class F:
    def __init__(self, fn, t=0, ref=True, idr=False, ltr=False, mm=(), n=3, mod=(), add5=False, over=True, idc=1, pid=0, pre=""):
        self.idc, self.pid, self.pre = idc, pid, pre
        self.fn, self.t, self.ref, self.idr, self.ltr, self.mm, self.n, self.mod, self.add5, self.over = fn, t, ref, idr, ltr, mm, n, mod, add5, over


def lst(v):
    return "{ " + "".join("%d " % x for x in v) + "}"


UNIT = "nal_unit {\n  nal_unit_header {\n    forbidden_zero_bit: 0\n    nal_ref_idc: %d\n    nal_unit_type: %d\n  }\n  nal_unit_payload {\n"


def pps(i, n):
    return UNIT % (3, 8) + "    pps {\n      pic_parameter_set_id: %d\n      seq_parameter_set_id: 0\n      num_ref_idx_l0_default_active_minus1: %d\n      num_ref_idx_l1_default_active_minus1: 0\n    }\n  }\n}\n" % (i, n - 1)


# units that say nothing about the pictures: access unit delimiter, SEI, SPS extension, prefix, subset SPS, auxiliary slice, slice extension
NOISE = ["", UNIT % (0, 9) + "    aud {\n      primary_pic_type: 0\n    }\n  }\n}\n", UNIT % (0, 6) + "  }\n}\n", UNIT % (3, 13) + "    sps_extension {\n      seq_parameter_set_id: 0\n    }\n  }\n}\n", UNIT % (3, 14) + "    prefix_nal_unit {\n      store_ref_base_pic_flag: 0\n    }\n  }\n}\n",
         UNIT % (3, 15) + "    subset_sps {\n      seq_parameter_set_data {\n        profile_idc: 83\n        log2_max_frame_num_minus4: 4\n        pic_order_cnt_type: 0\n        max_num_ref_frames: 1\n      }\n    }\n  }\n}\n",
         UNIT % (0, 19) + "  }\n}\n", UNIT % (1, 20) + "    slice_layer_extension_rbsp {\n      slice_header_in_scalable_extension {\n        first_mb_in_slice: 0\n        slice_type: 0\n        pic_parameter_set_id: 0\n        frame_num: 5\n      }\n    }\n  }\n}\n"]


def text(frames, maxref, log2m4=0, npps=1):
    """h264nal's multi-line output as C21 defines it"""
    s = "nal_unit {\n  nal_unit_header {\n    forbidden_zero_bit: 0\n    nal_ref_idc: 3\n    nal_unit_type: 7\n  }\n  nal_unit_payload {\n    sps {\n      sps_data {\n        profile_idc: 66\n        seq_parameter_set_id: 0\n        log2_max_frame_num_minus4: %d\n        pic_order_cnt_type: 2\n        max_num_ref_frames: %d\n      }\n    }\n  }\n}\n" % (log2m4, maxref)
    for i in range(npps):
        s += "nal_unit {\n  nal_unit_header {\n    forbidden_zero_bit: 0\n    nal_ref_idc: 3\n    nal_unit_type: 8\n  }\n  nal_unit_payload {\n    pps {\n      pic_parameter_set_id: %d\n      seq_parameter_set_id: 0\n      num_ref_idx_l0_default_active_minus1: %d\n      num_ref_idx_l1_default_active_minus1: 0\n    }\n  }\n}\n" % (i, 2 + i)
    for f in frames:
        s += f.pre
        s += "nal_unit {\n  nal_unit_header {\n    forbidden_zero_bit: 0\n    nal_ref_idc: %d\n    nal_unit_type: %d\n  }\n  nal_unit_payload {\n    slice_layer_without_partitioning_rbsp {\n      slice_header {\n        first_mb_in_slice: 0\n        slice_type: %d\n        pic_parameter_set_id: %d\n        frame_num: %d\n" % (f.idc if f.ref else 0, 5 if f.idr else 1, f.t + (5 if f.add5 else 0), f.pid, f.fn)
        if f.t in (0, 3):
            s += "        num_ref_idx_active_override_flag: %d\n" % (1 if f.over else 0)
            if f.over:
                s += "        num_ref_idx_l0_active_minus1: %d\n" % (f.n - 1)
            s += "        ref_pic_list_modification {\n          ref_pic_list_modification_flag_l0: %d\n" % (1 if f.mod else 0)
            if f.mod:
                s += "          modification_of_pic_nums_idc %s\n          abs_diff_pic_num_minus1 %s\n          long_term_pic_num %s\n" % (lst([m[0] for m in f.mod] + [3]), lst([m[1] for m in f.mod if m[0] != 2]), lst([m[1] for m in f.mod if m[0] == 2]))
            s += "        }\n"
        if f.ref:
            s += "        dec_ref_pic_marking {\n"
            if f.idr:
                s += "          no_output_of_prior_pics_flag: 0\n          long_term_reference_flag: %d\n" % (1 if f.ltr else 0)
            else:
                s += "          adaptive_ref_pic_marking_mode_flag: %d\n" % (1 if f.mm else 0)
                if f.mm:
                    m = f.mm
                    s += "          memory_management_control_operation %s\n          difference_of_pic_nums_minus1 %s\n          long_term_pic_num %s\n          long_term_frame_idx %s\n          max_long_term_frame_idx_plus1 %s\n" % (
                        lst([o[0] for o in m] + [0]), lst([o[1] for o in m if o[0] in (1, 3)]), lst([o[1] for o in m if o[0] == 2]), lst([o[2] if o[0] == 3 else o[1] for o in m if o[0] in (3, 6)]), lst([o[1] for o in m if o[0] == 4]))
            s += "        }\n"
        s += "        slice_qp_delta: 0\n      }\n    }\n  }\n}\n"
        # a second slice of the same picture
        s += "nal_unit {\n  nal_unit_header {\n    forbidden_zero_bit: 0\n    nal_ref_idc: 1\n    nal_unit_type: 1\n  }\n  nal_unit_payload {\n    slice_layer_without_partitioning_rbsp {\n      slice_header {\n        first_mb_in_slice: 40\n        slice_type: 0\n        frame_num: 9\n      }\n    }\n  }\n}\n"
    return s


def run_script(out_text, rc, stdout=False, argv=None):
    """main() with a virtual h264nal and a virtual output file; returns (exit status, files)"""
    class R:
        pass

    def run(args, **_):
        r = R()
        r.returncode, r.stdout, r.stderr = rc, out_text, ""
        return r

    class A:
        input, output, h264nal_path = "foo.264", None if stdout else "out.csv", "/bin/h264nal"
    fs = VFS()
    swap = [(D.subprocess, "run", run), (sys, "stderr", Sink())] + ([] if argv else [(D, "parse_args", lambda *_: A)])
    if stdout:
        swap.append((sys, "stdout", fs.open("out.csv", "w")))
    st = 0
    D.open = fs.open
    try:
        with world(("foo.264", "/bin/h264nal"), argv or ["x", "-i", "foo.264", "--h264nal-path", "/bin/h264nal"] + ([] if stdout else ["-o", "out.csv"]), swap):
            try:
                D.main()
            except SystemExit as e:
                st = e.code or 0
    finally:
        del D.open
    return st, fs


def check(frames, maxref, rc=0, npps=1, log2m4=0, stdout=False, argv=None):
    w = want(frames, 16 << log2m4, maxref)
    if w is None:
        return True
    st, fs = run_script(text(frames, maxref, log2m4, npps), rc, stdout, argv)
    if rc:
        return st != 0 and not any(fs.values())
    return st == 0 and dict(fs) == {"out.csv": w}


def intro(s, k, maxfn=16):
    """k reference frames with consecutive frame_nums from s (an IDR picture when s is 0), modulo 16"""
    return [F((s + i) % maxfn, t=2 if i == 0 else 0, idr=(s == 0 and i == 0)) for i in range(k)]


OPS = [()] + [((1, d),) for d in (0, 1, 2)] + [((3, d, x),) for d in (0, 2) for x in (0, 1)] + [((2, 0),), ((2, 1),), ((4, 0),), ((4, 1),), ((4, 2),), ((5,  0),), ((6, 0),), ((6, 1),), ((1, 0), (1, 1)), ((3, 0, 0), (3, 1, 1)), ((3, 1, 0), (2, 0)), ((1, 1), (6, 1)), ((5, 0), (6, 1)), ((3, 0, 1), (4, 1))]
START = (0, 13, 15)


def p_one(s: int, a: int, m: int) -> bool:
    """every marking command after three reference frames, then a frame that shows the list; frame_num wraps
    pre: 0 <= s <= 2 and 0 <= a <= 21 and 2 <= m <= 4
    pre: mine(a)
    post: __return__
    """
    f = intro(START[s], 3)
    fn = (START[s] + 3) % 16
    f.append(F(fn, mm=OPS[a]))
    nx = 1 if any(o[0] == 5 for o in OPS[a]) else (fn + 1) % 16
    f.append(F(nx, ref=False))
    return check(f, m)


def two(s, a, b, m):
    f = intro(s, 3)
    fn = (s + 3) % 16
    for x in (a, b):
        f.append(F(fn, mm=OPS[x]))
        fn = 1 if any(o[0] == 5 for o in OPS[x]) else (fn + 1) % 16
    f.append(F(fn, n=4))
    return check(f, m)


def p_two(a: int, b: int) -> bool:
    """two pictures with marking commands
    pre: 0 <= a <= 21 and 0 <= b <= 21
    pre: mine(a * 22 + b)
    post: __return__
    """
    return two(13, a, b, 4)


def p_window(m: int, k: int, s: int, r: int) -> bool:
    """the sliding window, with and without long-term pictures and non-reference pictures
    pre: 0 <= m <= 3 and 1 <= k <= 4 and 0 <= s <= 1 and 0 <= r <= 3
    pre: mine(m * 4 + r)
    post: __return__
    """
    f = intro(START[s], k)
    fn = (START[s] + k) % 16
    if r == 1:
        f.append(F(fn, ref=False))
    elif r == 2:
        f.append(F(fn, t=2, mm=((6, 0),)))
        fn = (fn + 1) % 16
    elif r == 3:
        f.insert(0, F(0, t=2, idr=True, ltr=True))
    f += [F(fn), F((fn + 1) % 16)]
    return check(f, m)


MODS = [(0, 0), (0, 1), (0, 2), (0, 15), (1, 0), (1, 1), (1, 13), (1, 15), (2, 0), (2, 1)]


def p_mods(s: int, a: int, b: int) -> bool:
    """list modification: any two commands, on three short-term pictures and one long-term picture
    pre: 0 <= s <= 2 and 0 <= a <= 10 and 0 <= b <= 10
    pre: mine(a * 11 + b)
    post: __return__
    """
    f = [F(0, t=2, idr=True, ltr=True)] + intro(START[s] if s else 1, 3)
    fn = ((START[s] if s else 1) + 3) % 16
    mod = [MODS[x] for x in (a, b) if x < 10]
    f.append(F(fn, n=3, mod=mod))
    return check(f, 5)


def p_row(t: int, n: int, ref: bool, add5: bool, over: bool, rc: int, npps: int, o: int) -> bool:
    """picture type, number of active references (slice or PPS), reference or not, groups of pictures, h264nal's failure, the table to a file or to stdout
    pre: 0 <= t <= 3 and 1 <= n <= 4 and 0 <= rc <= 1 and 1 <= npps <= 2 and 0 <= o <= 1
    pre: over or n == 1
    pre: (rc == 0 or (n == 1 and npps == 1)) and (o == 0 or (n == 2 and npps == 1)) and (npps == 1 or t == 0)
    pre: mine(t)
    post: __return__
    """
    f = intro(0, 3) + [F(3, t=(0, 2, 3, 4)[t], ref=ref, n=n if over else 3, add5=add5, over=over, idc=n % 3 + 1)] + intro(0, 2)
    return check(f, 4, rc, npps, 0, o == 1)


def p_args(k: int, o: int, rc: int) -> bool:
    """the arguments as a user gives them
    pre: 0 <= k <= 3 and 0 <= o <= 3 and 0 <= rc <= 1
    post: __return__
    """
    argv = ["x"] + (["-i", "foo.264"], ["--input", "foo.264"], ["--input=foo.264"], ["-ifoo.264"])[k] + ["--h264nal-path", "/bin/h264nal"] + ([], ["-o", "out.csv"], ["--output", "out.csv"], ["-oout.csv"])[o]
    return check(intro(0, 3), 4, rc, 1, 0, o == 0, argv)


def p_both(a: int, b: int) -> bool:
    """one picture with both marking and modification commands
    pre: 0 <= a <= 21 and 0 <= b <= 9
    pre: mine(a * 10 + b)
    post: __return__
    """
    f = [F(0, t=2, idr=True, ltr=True), F(1), F(2), F(3, mm=((6, 1),))]
    f.append(F(4, n=3, mod=[MODS[b]], mm=OPS[a]))
    f.append(F(1 if any(o[0] == 5 for o in OPS[a]) else 5, n=4))
    return check(f, 5)


def p_both3(a: int, b: int, c: int) -> bool:
    """long-term modification commands next to the removal of long-term pictures
    pre: 0 <= a <= 2 and 0 <= b <= 2 and 0 <= c <= 3
    post: __return__
    """
    f = [F(0, t=2, idr=True, ltr=True), F(1, mm=((6, 1),)), F(2, mm=((6, 2),)), F(3), F(4)]
    mm = [((2, 0),), ((2, 2), (2, 1)), ((2, 1), (3, 0, 1)), ((1, 0), (2, 2))][c]
    f.append(F(5, n=5, mod=[(2, a), (0, 0), (2, b)], mm=mm))
    f.append(F(6, n=6))
    return check(f, 6)


WIDE = [(s, X, Y, n, ((2, X),) if op == 0 else ((4, X),) if op == 1 else ((4, Y),) if op == 2 else ((6, Y),) if op == 3 else ((3, 9, X),))
        for s in (0, 14) for X, n in ((0, 10), (7, 11), (8, 13), (15, 32)) for Y in (1, 9, 14, 15) for op in range(5)]


def p_wide(i: int) -> bool:
    """up to 16 reference frames and long-term indices up to 15, lists of up to 32 entries
    pre: 0 <= i <= 159
    pre: mine(i)
    post: __return__
    """
    s, X, Y, n, mm = WIDE[i]
    f = intro(s, 12)
    fn = (s + 12) % 16
    f.append(F(fn, mm=((3, 10, X),) if X == Y else ((3, 10, X), (3, 2, Y)), n=32))
    f.append(F((fn + 1) % 16, n=n, mod=[(2, X), (0, 5)], mm=mm))
    f.append(F((fn + 2) % 16, n=32))
    return check(f, 16)


def p_long(a: int, l: int, d: int) -> bool:
    """long streams: a long-term picture whose frame_num comes round again, then every command
    pre: 0 <= a <= 21 and 0 <= l <= 2 and 0 <= d <= 1
    pre: mine(a)
    post: __return__
    """
    f = [F(0, t=2, idr=True, ltr=True), F(1)]
    mf = 16
    n = (15, 17, 34)[l]
    for i in range(2, n):
        f.append(F(i % mf, mm=((3, 0, 1),) if i == 2 + d else ()))
    f.append(F(n % mf, mm=OPS[a], n=6, mod=[(2, 1), (0, 1)]))
    f.append(F(1 if any(o[0] == 5 for o in OPS[a]) else (n + 1) % mf, n=6))
    return check(f, 5)


def p_gop(a: int, b: int, k: int) -> bool:
    """IDR pictures and clear-all commands: groups of pictures, what is remembered across them
    pre: 0 <= a <= 4 and 0 <= b <= 4 and 0 <= k <= 1
    post: __return__
    """
    f, fn = [], 0
    for x in (0, a, b):
        if x <= 1:
            f.append(F(0, t=2, idr=True, ltr=x == 1, idc=3))
            fn = 1
        elif x == 2:
            f.append(F(fn, mm=((5, 0),)))
            fn = 1
        elif x == 3:
            f.append(F(fn, mm=((5, 0), (6, 9))))
            fn = 1
        else:
            f.append(F(fn, t=2, mm=((6, 9),)))
            fn += 1
        for _ in range(1 + k):
            f.append(F(fn, n=5))
            fn += 1
    return check(f, 9)


def p_pps(i: int, j: int, n: int, r: int) -> bool:
    """the PPS the slice names, as last sent
    pre: 0 <= i <= 3 and 0 <= j <= 3 and 1 <= n <= 3 and 0 <= r <= 1
    pre: mine(n)
    post: __return__
    """
    I, J = (0, 1, 7, 255)[i], (0, 1, 10, 255)[j]
    d = {0: 3, I: 1, J: n}
    f = intro(0, 4)
    f.append(F(4, pre=pps(I, 1) + pps(J, n), pid=I, over=False, n=d[I]))
    f.append(F(5, pid=J, over=False, n=d[J]))
    d[I] = 5 - n
    if r:
        d[J] = 16
    f.append(F(6, pre=pps(I, 5 - n) + (pps(J, 16) if r else ""), pid=I, over=False, n=d[I]))
    f.append(F(7, pid=J, over=False, n=d[J]))
    f.append(F(8, pid=J, n=2))
    return check(f, 16)


def p_noise(x: int, y: int, r: bool) -> bool:
    """other units between the pictures change nothing
    pre: 0 <= x <= 7 and 0 <= y <= 7
    pre: mine(x)
    post: __return__
    """
    f = intro(0, 3) + [F(3, pre=NOISE[x], n=3, ref=r), F(4 if r else 3, pre=NOISE[y], n=4), F(5 if r else 4, pre=NOISE[x] + NOISE[y], mm=((3, 1, 0),)), F(6 if r else 5, n=4)]
    return check(f, 8)


def p_maxfn(l: int, s: int, a: int) -> bool:
    """MaxFrameNum from 16 to 65536: wrap-around in the window, the commands and the list
    pre: 0 <= l <= 12 and 0 <= s <= 2 and 0 <= a <= 10
    pre: mine(a)
    post: __return__
    """
    mf = 16 << l
    f = intro(mf - 1 - s, 3, mf)
    fn = (mf - 1 - s + 3) % mf
    f.append(F(fn, mm=OPS[a] if a < 8 else (), mod=[] if a < 8 else [((0, 0), (0, mf - 1), (1, mf - 3))[a - 8]]))
    f.append(F((fn + 1) % mf, n=4))
    return check(f, 3 + s % 2, log2m4=l)


def p_list(a: int, b: int, c: int, cur: int, lt: int) -> bool:
    """initial list 0 for every set of three frame numbers and every current one
    pre: 0 <= a <= 15 and 0 <= b <= 15 and 0 <= c <= 15 and 0 <= cur <= 15 and 0 <= lt <= 3
    pre: a != b and b != c and a != c and a != cur and b != cur and c != cur
    post: __return__
    """
    dpb = [[a, None], [b, 1 if lt & 1 else None], [c, 0 if lt & 2 else None]]
    ent = [{"frame_num": p[0], "is_ltr": p[1] is not None, "ltr_idx": -1 if p[1] is None else p[1], "abs_frame": i} for i, p in enumerate(dpb)]
    got = D.build_ref_pic_list0(ent, {"frame_num": cur}, 16)
    w = ref_list0(dpb, cur, 16)
    if len(got) != len(w):
        return False
    for g, p in zip(got, w):
        if g["abs_frame"] != [i for i in range(3) if dpb[i] is p][0]:
            return False
    return True


TRIVIAL = {"p_list": ["p_list(1, 2, 3, 4, 0)", "p_list(5, 3, 1, 6, 0)"]}
WHOLE = ["p_one", "p_two", "p_window", "p_mods", "p_row", "p_both", "p_both3", "p_args", "p_wide", "p_long", "p_gop", "p_pps", "p_noise", "p_maxfn"]
