"""Scenarios for the model: codecs, streams and items.  What is right is decided by the
specification (Meaning.tla); nothing here needs to be valid input."""
import random

FIX = ("u8 i8 u16be u16le i16be i16le u24be u24le u32be u32le i32be i32le u40be u40le u48be u48le u56be u56le "
       "u64be u64le i64be i64le f32be f32le f64be f64le").split()


def width(ty):
    return int("".join(c for c in ty if c.isdigit())) // 8


def vwidth(ty):
    w = width(ty)
    return 4 if w == 3 else 8 if w in (5, 6, 7) else w


# --- shapes ------------------------------------------------------------------------------
def fix(ty, **o): return dict(k="fix", ty=ty, **o)
def copy(n, **o): return dict(k="copy", n=n, **o)
def byts(n, pre=0, post=0, **o): return dict(k="bytes", n=n, pre=pre, post=post, **o)
REM = dict(k="rem")
NULL = dict(k="null")
def pad(b, **o): return dict(k="pad", b=b, **o)
def mono(f, **o): return dict(k="mono", f=f, **o)
def w(kind, inner, **o): return dict(k=kind, **{"in": inner}, **o)
def tup(*ps, **o): return dict(k="tuple", ps=list(ps), **o)
def utf8(i): return w("utf8", i)
def tmap(i): return w("trymap", i)
def mp(i): return w("map", i)
def merr(i): return w("maperr", i)
def box(i): return w("box", i)
def ref(i): return w("ref", i)
def coll(i): return w("collect", i)
def colln(n, i): return w("collectn", i, n=n)
def leng(n, i): return w("length", i, n=n)
def maxb(n, i): return w("maxb", i, n=n)
def sl(i): return w("slice", i)
def omit(b, i): return w("omit", i, b=b)
def peek(i): return w("peek", i)
def maybe(i): return w("maybe", i)
def then(i, t, b): return dict(k="andthen", t=t, b=b, **{"in": i})
U8, U16, U16L, U24 = fix("u8"), fix("u16be"), fix("u16le"), fix("u24be")

# values
def B(*bs): return ["b", list(bs)]
def T(*vs): return ["t", list(vs)]
def L(*vs): return ["l", list(vs)]
U = ["u", []]
NONE = ["o", []]
def SOME(v): return ["o", [v]]
def M(v): return ["m", [v]]


def has(s, *kinds):
    if isinstance(s, dict):
        if s.get("k") in kinds:
            return True
        return any(has(v, *kinds) for v in s.values())
    if isinstance(s, list):
        return any(has(v, *kinds) for v in s)
    return False


def dsc(s, ws, max=3, cs=(), gr=None, bud=1, probe=None):
    """a decoder scenario; ws: frames"""
    if gr is None:
        gr = [1, 2] if has(s, "slice") else []
    if probe is None:
        probe = 0 if has(s, "maxb", "bytes") else 1
    return dict(s=s, ws=[list(x) for x in ws], max=max, cs=list(cs), gr=gr, bud=bud, probe=probe)


def esc(s, items, held=0, rooms=(-1,), caps=(0, 1, 2, 4), gr=None, cs=(), into=0, bud=1):
    if gr is None:
        gr = [1, 2] if has(s, "slice") else []
    return dict(s=s, items=list(items), held=held, rooms=list(rooms), caps=list(caps), gr=gr, cs=list(cs), into=into, bud=bud)


def one(s, *streams, **o):
    """each stream is a scenario of its own"""
    return [dsc(s, [b], **o) for b in streams]


def cuts(s, stream, **o):
    """the stream and all its truncations"""
    return [dsc(s, [stream[:n]], **o) for n in range(len(stream) + 1)]


def ctl(c, a, p=()):
    return dict(p=list(p), c=c, a=a)


# --- the library of decoder scenarios, by topic --------------------------------------------
E9 = [0xC3, 0xA9]
EURO = [0xE2, 0x82, 0xAC]
CLEF = [0xF0, 0x9D, 0x84, 0x9E]

D = {}
D["fix"] = one(U8, [], [1, 2, 3]) + one(U16, [1, 2, 3, 4], [1, 2, 3], [255, 254]) + one(U16L, [1, 2, 3, 4]) + cuts(U24, [1, 2, 3, 4]) \
    + one(fix("u16be", dflt=True), [1, 2, 3, 4], [1]) + one(fix("i32le"), [1, 2, 3, 255], [0, 0, 0])
D["fixall"] = [dsc(fix(ty), [list(range(0x80, 0x80 + width(ty) + 1))], bud=0) for ty in FIX] \
    + [dsc(fix(ty, dflt=True), [[255] * width(ty)], bud=0) for ty in FIX] \
    + [dsc(fix(ty), [[0x7F] + [0x80] * (width(ty) - 1)], bud=0) for ty in FIX]
D["copy"] = one(copy(3), [1, 2, 3, 4], [1, 2], [1, 2, 3, 4, 5]) + one(copy(0), [], [1]) + cuts(copy(2), [1, 2, 3])
D["bytes"] = [dsc(byts(3, 1, 2), [[1, 2, 3, 4]]), dsc(byts(2), [[1]]), dsc(byts(0, 1, 0), [[1]]),
              dsc(byts(2, 0, 1), [[1, 2, 3, 4]], cs=[ctl("setbytes", 1)]),
              dsc(byts(2, 1, 0), [[1, 2, 3, 4, 5]], cs=[ctl("setbytes", 3)]),
              dsc(byts(1), [[1, 2]], cs=[ctl("setbytes", 0)])]
D["rem"] = [dsc(REM, [[], [1, 2], [3]]), dsc(REM, [[1, 2, 3]])]
D["pad"] = [dsc(pad(0), [[0, 0], [0, 0, 1]]), dsc(pad(-1), [[1, 2, 3], []]), dsc(pad(7), [[7, 6]]),
            dsc(pad(0), [[0], [1, 1], [1]], cs=[ctl("setpad", 1)]), dsc(pad(0), [[0], [1, 2], [1]], cs=[ctl("setpad", -1)])]
D["null"] = one(NULL, [], [1, 2])
D["utf8"] = [dsc(utf8(REM), [x]) for x in (E9, EURO, CLEF, [65, 0xC3], [0xC3, 65], [0xED, 0xA0, 0x80], [0xF4, 0x90, 0x80, 0x80],
                                           [0xC0, 0x80], [0xE0, 0x9F, 0x80], [0xF0, 0x8F, 0x80, 0x80], [0xF5, 0x80], [0x80], [],
                                           [0xEF, 0xBB, 0xBF, 65], [0xEF, 0xBB, 0xBF], [0], [65, 0], [13, 10], [0xEF, 0xBF, 0xBD], [10, 32])] \
    + [dsc(utf8(REM), [[255], [65], [0xC3], E9]), dsc(utf8(copy(2)), [[0xC3, 0xA9, 0xC3, 65, 66, 67]]),
       dsc(utf8(leng(2, REM)), [[0xC3, 0xA9, 0xA9, 65, 66]]), dsc(w("utf8", REM, dflt=True), [[65, 66]])]
D["mono"] = [dsc(mono("raw"), [[1, 2, 3]]), dsc(mono("raw"), [[255, 1], [1, 2]]), dsc(mono("raw"), [[], [1], [255], [3]]),
             dsc(mono("json"), [list(b"[1,2]")]), dsc(mono("json"), [list(b"[1,"), list(b"[7]")]), dsc(mono("json"), [list(b"[1]x"), list(b"[]")]),
             dsc(mono("json"), [list(b" [0 , null]\n")], bud=0),
             dsc(mono("bino"), [[7, 0], [8, 1, 2, 3]]), dsc(mono("bino"), [[7, 1, 2], [9, 0]]), dsc(mono("bino"), [[7, 2], [7, 0, 0], [7, 0]]),
             dsc(mono("binv"), [[1] + [2] + [0] * 7 + [5, 6] + [1] + [0] * 7 + [65]], bud=0),
             dsc(mono("binv"), [[1] + [255] * 8 + [5, 6], [1] + [0] * 16], bud=0),
             dsc(mono("binv"), [[1] + [0] * 8 + [2] + [0] * 7 + [0xC3, 65], [1] + [0] * 16], bud=0),
             dsc(leng(2, mono("raw")), [[1, 2, 3, 4]]), dsc(mp(mono("raw")), [[1, 2], [255], [3]]), dsc(tup(U8, mono("raw")), [[1, 2, 3]]),
             dsc(tmap(mono("raw")), [[1, 2], [255], [3]]), dsc(peek(mono("raw")), [[1, 2], [255], [3]])]
D["map"] = [dsc(mp(U16), [[1, 2, 3, 4]]), dsc(tmap(U16), [[1, 2, 255, 1, 3, 4]]), dsc(tmap(REM), [[255], [1, 2], [255, 3]]),
            dsc(merr(U16), [[1, 2, 3]]), dsc(merr(tmap(U8)), [[255, 1]]), dsc(merr(utf8(copy(1))), [[200, 65]]),
            dsc(tmap(tmap(U8)), [[1, 255, 2]]), dsc(mp(tup(U8, U8)), [[1, 2, 3, 4]]), dsc(merr(pad(0)), [[0, 1]]),
            dsc(tmap(leng(2, REM)), [[255, 1, 2, 3]]), dsc(merr(mono("raw")), [[255], [1]]), dsc(tmap(colln(1, U8)), [[255, 1]]),
            dsc(tmap(omit(False, U8)), [[255, 1]]),
            dsc(tmap(U8), [[254, 255, 1]]), dsc(merr(tmap(U8)), [[254, 255, 1]]), dsc(tmap(U16), [[254, 1, 2]]), dsc(merr(merr(tmap(U8))), [[255, 254, 1]]), dsc(merr(merr(U16)), [[1]]), dsc(peek(merr(tmap(U8))), [[254]]),
            dsc(tmap(U8), [[253, 1]]), dsc(merr(tmap(U8)), [[253, 1]]), dsc(merr(merr(tmap(U16))), [[253, 7, 1]]), dsc(tmap(REM), [[253], [1]])]
D["peek"] = [dsc(peek(U16), [[1, 2, 3, 4]], bud=2), dsc(peek(REM), [[1, 2]], bud=2), dsc(peek(copy(0)), [[1]]), dsc(peek(U16), [[1]]),
             dsc(peek(leng(2, REM)), [[1, 2, 3, 4]]), dsc(tup(peek(U8), U8), [[1, 2, 3]]), dsc(peek(tup(U8, U8)), [[1, 2, 3]]),
             dsc(peek(tmap(U8)), [[1, 255]])]
D["maybe"] = [dsc(maybe(U16), [x]) for x in ([], [1], [1, 2], [1, 2, 3])] + [dsc(maybe(U16), [[1, 2], [], [3]]), dsc(maybe(tup(U8, U16)), [[1, 2]]),
              dsc(maybe(leng(2, REM)), [[1, 2, 3]]), dsc(maybe(copy(2)), [[1, 2, 3, 4]], bud=2)]
D["slice"] = [dsc(sl(U16), [[1, 2, 3, 4]], bud=2), dsc(sl(copy(3)), [[1, 2, 3, 4]]), dsc(sl(REM), [[1, 2, 3]]), dsc(sl(U16), [[1]], bud=2),
              dsc(tup(sl(U8), U16), [[1, 2, 3]]), dsc(tup(U8, sl(U16)), [[1, 2, 3, 4]]), dsc(coll(sl(U8)), [[1, 2, 3]]), dsc(sl(coll(U8)), [[1, 2, 3]]),
              dsc(sl(copy(4)), [[1, 2, 3, 4, 5]], gr=[1, 3, 0]), dsc(sl(leng(2, REM)), [[1, 2, 3, 4]]), dsc(colln(2, sl(U8)), [[1, 2, 3]]),
              dsc(sl(pad(0)), [[0, 0]]), dsc(sl(mono("raw")), [[1, 2]]), dsc(peek(sl(U16)), [[1, 2, 3]]), dsc(sl(sl(U16)), [[1, 2]]),
              dsc(sl(tmap(U8)), [[255, 1]]), dsc(maybe(sl(U16)), [[1, 2]])]
D["omit"] = [dsc(omit(False, U16), [[1, 2, 3, 4]]), dsc(omit(True, U16), [[1, 2]]), dsc(tup(U8, omit(True, U8), U8), [[1, 2, 3]]),
             dsc(tup(U8, omit(False, U8), U8), [[1, 2, 3]]), dsc(omit(False, U16), [[1]]), dsc(omit(True, REM), [[]]), dsc(omit(False, REM), [[1], [2]]),
             dsc(omit(False, U8), [[1, 2, 3]], cs=[ctl("omit", 1)]), dsc(omit(True, U8), [[1, 2, 3]], cs=[ctl("omit", 0)]),
             dsc(tup(omit(False, U8), U8), [[1, 2, 3]], cs=[ctl("omit", 1, [1])]), dsc(coll(omit(True, U8)), [[1]]),
             dsc(omit(True, colln(1, U8)), [[1]])]
D["maxb"] = [dsc(maxb(2, U16), [[1, 2]]), dsc(maxb(2, U24), [[1, 2, 3]]), dsc(maxb(3, REM), [[1, 2, 3], [4, 5, 6], [1, 2, 3, 4]]),
             dsc(maxb(2, REM), [[1, 2, 3]]), dsc(maxb(3, REM), [[1, 2], [1, 2], [3, 4, 5]]), dsc(maxb(0, NULL), [[]]), dsc(maxb(0, REM), [[], []]),
             dsc(maxb(2, coll(U8)), [[1, 2], [3, 4]]), dsc(maxb(3, REM), [[1, 2, 3], [1, 2]], cs=[ctl("setmax", 2)]),
             dsc(tup(maxb(2, U16)), [[1, 2]]) if False else dsc(maxb(4, tup(U8, REM)), [[1, 2, 3], [4, 5, 6, 7], [1, 2, 3, 4, 5]]),
             dsc(maxb(1, maxb(3, REM)), [[1], [1, 2]]), dsc(maxb(3, tmap(REM)), [[255, 1], [1, 2, 3], [1, 2, 3, 4]]),
             dsc(maxb(4, leng(4, REM)), [[1, 2, 3, 4]]), dsc(maxb(2, mono("raw")), [[1, 2], [3]]), dsc(maxb(2, mono("raw")), [[1, 2, 3]])]
D["length"] = cuts(leng(3, REM), [1, 2, 3, 4]) + [
    dsc(leng(2, REM), [[1, 2, 3, 4, 5]]), dsc(leng(0, REM), [[1]]), dsc(leng(2, U16), [[1, 2, 3, 4]]), dsc(leng(3, U16), [[1, 2, 3, 4]]),
    dsc(leng(1, U16), [[1, 2, 3]]), dsc(leng(4, coll(U16)), [[1, 2, 3, 4, 5]]), dsc(leng(3, coll(U16)), [[1, 2, 3, 4]]),
    dsc(leng(2, pad(0)), [[0, 0, 0, 1]]), dsc(leng(2, leng(2, REM)), [[1, 2, 3, 4]]), dsc(leng(3, leng(2, REM)), [[1, 2, 3, 4]]),
    dsc(leng(2, REM), [[1, 2, 3, 4, 5]], cs=[ctl("setlen", 1)]), dsc(leng(1, REM), [[1, 2, 3, 4]], cs=[ctl("setlen", 3)]),
    dsc(leng(2, tmap(REM)), [[255, 1, 2, 3]]), dsc(coll(leng(2, REM)), [[1, 2, 3, 4]]), dsc(coll(leng(2, REM)), [[1, 2, 3]]),
    dsc(tup(leng(2, REM), U8), [[1, 2, 3, 4]]), dsc(leng(3, tup(U8, REM)), [[1, 2, 3, 4]]), dsc(leng(3, tup(U8, U8)), [[1, 2, 3]]),
    dsc(leng(2, mono("raw")), [[1, 2, 255, 3]]), dsc(leng(2, utf8(REM)), [[65, 66, 200, 65]]), dsc(leng(0, NULL), [[1]]),
    dsc(leng(1, NULL), [[1]]), dsc(leng(2, peek(U16)), [[1, 2, 3, 4]])]
D["collect"] = [dsc(coll(U8), [[1, 2, 3], [], [4]]), dsc(coll(U16), [[1, 2, 3, 4]]), dsc(coll(U16), [[1, 2, 3]]), dsc(coll(U16), [[], [1, 2]]),
                dsc(coll(NULL), [[], [1]]), dsc(coll(REM), [[1, 2], []]), dsc(coll(tup(U8, U8)), [[1, 2, 3, 4]]), dsc(coll(tup(U8, U8)), [[1, 2, 3]]),
                dsc(coll(coll(U8)), [[1, 2], [3]]), dsc(coll(tmap(U8)), [[1, 255, 2]]), dsc(coll(then(U8, "len", REM)), [[1, 9, 2, 8, 7]]),
                dsc(coll(then(U8, "len", REM)), [[0, 1, 9, 0]]), dsc(coll(then(U8, "len", REM)), [[2, 9]]), dsc(coll(peek(U16)), [[1, 2, 3, 4]]),
                dsc(coll(maybe(U16)), [[1, 2, 3, 4]]), dsc(coll(mono("raw")), [[1, 2], [3]]), dsc(tup(U8, coll(U8)), [[1, 2, 3], [4]]),
                dsc(coll(pad(0)), [[0, 0]]), dsc(coll(colln(1, U8)), [[1, 2]]), dsc(coll(utf8(copy(2))), [[65, 66, 67, 68]])]
D["collectn"] = [dsc(colln(2, U8), [[1, 2, 3]]), dsc(colln(2, U16), [[1, 2, 3, 4, 5]]), dsc(colln(2, U16), [[1, 2, 3]]), dsc(colln(0, U8), [[1]]),
                 dsc(colln(3, NULL), [[1]]), dsc(colln(2, copy(0)), [[]]), dsc(colln(1, REM), [[1, 2], [3]]), dsc(colln(2, REM), [[1, 2]]),
                 dsc(colln(2, U8), [[1, 2, 3, 4]], cs=[ctl("setn", 1)]), dsc(colln(1, U16), [[1, 2, 3, 4, 5, 6]], cs=[ctl("setn", 2)]),
                 dsc(colln(2, then(U8, "len", REM)), [[1, 9, 2, 8, 7]]), dsc(colln(2, tup(U8, U8)), [[1, 2, 3, 4, 5]]),
                 dsc(colln(2, omit(True, U8)), [[1]]), dsc(tup(colln(2, U8), U8), [[1, 2, 3]]), dsc(colln(2, tmap(U8)), [[1, 255, 2]]),
                 dsc(then(U8, "cn", U8), [[2, 1, 2, 1, 9]]), dsc(then(U8, "cn", U16), [[1, 1, 2, 0]]), dsc(then(U8, "cn", NULL), [[2, 1, 1]]),
                 dsc(colln(2, leng(1, REM)), [[1, 2, 3]])]
D["then"] = [dsc(then(U8, "len", REM), [[2, 1, 2, 1, 9, 0]]), dsc(then(U8, "len", REM), [[3, 1, 2]]), dsc(then(U16, "len", REM), [[0, 2, 1, 2, 0]]),
             dsc(then(U16L, "bytes", NULL), [[1, 0, 5, 2, 0, 6, 7]]), dsc(then(U8, "bytes", NULL), [[0, 1, 5, 2, 6]]),
             dsc(then(U8, "omit", U8), [[0, 1, 5, 0]]), dsc(then(U8, "len", coll(U8)), [[2, 1, 2, 0]]), dsc(then(U8, "len", utf8(REM)), [[1, 200, 1, 65]]),
             dsc(then(peek(U8), "len", REM), [[1, 7, 2, 8, 9]]), dsc(then(tmap(U8), "len", REM), [[1, 7, 255, 8, 9]]),
             dsc(then(mp(U8), "omit", U16), [[1, 7, 8, 0]]), dsc(then(U8, "cn", leng(2, REM)), [[2, 1, 2, 3, 4]]), dsc(then(U8, "len", U16), [[2, 1, 2, 1, 3]]),
             dsc(then(U8, "len", then(U8, "len", REM)), [[2, 1, 9, 1, 0]]), dsc(then(U8, "maxb", U8), [[1, 5]]), dsc(then(U8, "maxb", U16), [[1, 5, 6]])]
D["tuple"] = [dsc(tup(U8, U16), [[1, 2, 3, 4, 5, 6]]), dsc(tup(U8, U16), [[1, 2]]), dsc(tup(U16, U8, chain=True), [[1, 2, 3, 4]]), dsc(tup(U8, REM), [[1, 2, 3], [4]]),
              dsc(tup(U8, REM, chain=True), [[1, 2, 3]]), dsc(tup(NULL, U8), [[1, 2]]), dsc(tup(U8, NULL), [[1, 2]]), dsc(tup(NULL, NULL), [[1]]),
              dsc(tup(REM, U8), [[1, 2]]), dsc(tup(REM, REM), [[1, 2]]), dsc(tup(tup(U8, U8), U8), [[1, 2, 3, 4]]), dsc(tup(U8, tup(U8, U8, chain=True)), [[1, 2, 3, 4]]),
              dsc(tup(tmap(U8), U8), [[255, 1]]), dsc(tup(U8, utf8(REM)), [[1, 200], [1, 65]]), dsc(tup(leng(1, REM), leng(2, REM)), [[1, 2, 3, 4]]),
              dsc(tup(colln(2, U8), U8), [[1, 2, 3]]), dsc(tup(U8, coll(U8)), [[1, 2, 3], [4]]), dsc(tup(U8, pad(0)), [[1, 0, 0]]),
              dsc(tup(copy(0), U8), [[1]]), dsc(tup(U8, copy(0), U8), [[1, 2]]), dsc(tup(peek(U8), peek(U8)), [[1, 2]]), dsc(tup(then(U8, "len", REM), U8), [[1, 9, 3]]),
              dsc(tup(U8, maybe(U16)), [[1, 2, 3]])]
D["arity"] = [dsc(tup(*[U8] * n), [list(range(1, n + 1))], bud=0) for n in range(2, 9)] + \
             [dsc(tup(*([U8, NULL, U16, omit(True, U8), copy(1), U8, copy(0), REM][:n])), [[1, 2, 3, 4, 5, 6]], bud=0) for n in range(2, 9)] + \
             [dsc(tup(*[U8] * n), [list(range(1, n))], bud=0) for n in range(3, 9)]
D["boxes"] = [dsc(box(U16), [[1, 2, 3, 4]]), dsc(ref(U16), [[1, 2, 3]]), dsc(box(REM), [[1], [2]]), dsc(ref(coll(U8)), [[1, 2]]), dsc(box(tmap(U8)), [[255, 1]]),
              dsc(ref(leng(2, REM)), [[1, 2, 3, 4]]), dsc(box(mono("raw")), [[255], [1, 2]]), dsc(ref(box(tup(U8, U8))), [[1, 2, 3]]), dsc(box(maybe(U16)), [[]]),
              dsc(box(copy(0)), [[1]]), dsc(ref(maybe(U8)), [[]]), dsc(box(then(U8, "len", REM)), [[1, 2, 0]]), dsc(box(pad(0)), [[0, 1]]), dsc(ref(pad(0)), [[0, 0]]),
              dsc(tup(box(U8), ref(U8)), [[1, 2, 3]]), dsc(coll(box(U16)), [[1, 2, 3, 4]]), dsc(ref(colln(2, ref(U8))), [[1, 2, 3]])]

# --- encoders --------------------------------------------------------------------------------
by = dict(k="bytes")
ut = dict(k="utf8")
pd = dict(k="pad")
nu = NULL
def opt(i): return w("opt", i)
def rep(i): return w("repeat", i)
def mf(i): return w("mapfrom", i)
def tmf(i): return w("trymapfrom", i)
def pre(i): return w("pre", i)
def with_(i, v): return w("with", i, v=v)
def last(i, v, first=("-", [])): return w("last", i, v=v, first=list(first))
def val(ty, *raw): return B(*([0] * (vwidth(ty) - len(raw)) + list(raw)))

X = {}
X["fix"] = [esc(U8, [B(1), B(255)], into=1), esc(U16, [B(1, 2), B(3, 4)], rooms=[-1, 1, 2, 3, 4], into=1), esc(U16L, [B(1, 2)]),
            esc(U24, [val("u24be", 1, 2, 3), B(1, 0, 0, 0), val("u24be", 4, 5, 6)], rooms=[-1, 5, 6], bud=2), esc(fix("u24be", dflt=True), [val("u24be", 1, 2, 3)]),
            esc(fix("u40le"), [B(0, 0, 1, 0, 0, 0, 0, 0), val("u40le", 1, 2, 3, 4, 5)], into=1)]
X["fixall"] = [esc(fix(ty), [B(*([0] * (vwidth(ty) - width(ty)) + list(range(0x80, 0x80 + width(ty)))))], bud=0, into=1) for ty in FIX] \
    + [esc(fix(ty, dflt=True), [B(*([0] * (vwidth(ty) - width(ty)) + [0x7F] + [0x81] * (width(ty) - 1)))], bud=0) for ty in FIX] \
    + [esc(fix(ty), [B(*([0] * (vwidth(ty) - width(ty) - 1) + [1] + [0] * width(ty))), val(ty, 1), B(*([1] + [0] * (vwidth(ty) - 1))), val(ty, 2)], bud=0)
       for ty in FIX if width(ty) in (3, 5, 6, 7)]
X["bytes"] = [esc(by, [B(1, 2, 3), B(), B(4)], rooms=[-1, 2, 3, 4], into=1), esc(ut, [B(65, *E9), B()], into=1), esc(dict(k="bytes", dflt=True), [B(1, 2)]),
              esc(by, [B(1, 2), B(3)], bud=2), esc(dict(k="utf8", dflt=True), [B(65)])]
X["pad"] = [esc(pd, [B(7), B(8)], rooms=[0, 1, 3]), esc(pd, [B(7)], rooms=[3], bud=2), esc(tup(by, pd), [T(B(1, 2), B(9))], rooms=[1, 2, 4]),
            esc(leng(3, pd), [B(7), B(8)], rooms=[-1, 2, 3, 6], bud=2), esc(leng(0, pd), [B(7)]), esc(leng(3, tup(by, pd)), [T(B(1), B(9)), T(B(1, 2, 3), B(9)), T(B(1, 2, 3, 4), B(9))])]
X["null"] = [esc(nu, [U, U], into=1), esc(tup(nu, by), [T(U, B(1))])]
X["mono"] = [esc(mono("raw"), [B(1, 2, 3), B(), B(4)], rooms=[-1, 2, 3], into=1), esc(mono("raw"), [B(255), B(1, 2)], bud=2, into=1), esc(mono("json"), [B(*b"[1]"), B(*b"[null]")], into=1),
             esc(mono("bino"), [B(7, 0), B(7, 1, 2, 3)], rooms=[-1, 1, 2, 5], into=1), esc(mono("binv"), [B(1, 1, 0, 0, 0, 0, 0, 0, 0, 5, 0, 0, 0, 0, 0, 0, 0, 0)], caps=[1, 3, 30], bud=0),
             esc(mono("json"), [B(*b"[1,251]"), B(*b"[7]")], caps=[0, 1, 9], into=1), esc(mono("bino"), [B(251, 0), B(1, 0)], into=1), esc(mono("binv"), [B(251, *[0] * 16), B(1, *[0] * 16)], caps=[20], bud=0), esc(mono("raw"), [B(255, 1, 2, 3), B(1, 2)], caps=[0, 1, 5]),
             esc(mono("first"), [B(7, 8)], into=1), esc(leng(2, mono("raw")), [B(1, 2), B(3, 4)]), esc(mf(mono("raw")), [M(B(1, 2))], into=1), esc(opt(mono("raw")), [SOME(B(1, 2)), NONE])]
X["opt"] = [esc(opt(by), [NONE, SOME(B(1, 2)), SOME(B()), NONE, SOME(B(3))], into=1), esc(opt(U16), [SOME(B(1, 2)), NONE], rooms=[-1, 0, 1, 2], bud=2),
            esc(tup(opt(U8), U8), [T(NONE, B(1)), T(SOME(B(2)), B(3))], into=1), esc(opt(opt(U8)), [SOME(NONE), SOME(SOME(B(1))), NONE])]
X["map"] = [esc(mf(by), [M(B(1, 2)), M(B())], into=1), esc(tmf(by), [M(B(1)), M(B(255)), M(B(2, 3))], into=1, bud=2), esc(merr(U24), [B(1, 0, 0, 0), val("u24be", 1, 2, 3)], rooms=[-1, 2], into=1),
            esc(tmf(U16), [M(B(255, 1)), M(B(1, 255))], rooms=[-1, 1, 2]), esc(merr(tmf(by)), [M(B(255)), M(B(1))]), esc(mf(tup(U8, by)), [M(T(B(1), B(2, 3)))]),
            esc(merr(leng(2, by)), [B(1), B(1, 2), B(1, 2, 3)]), esc(merr(by), [B(1, 2), B(3)], bud=2), esc(tmf(tmf(by)), [M(M(B(255))), M(M(B(1)))]), esc(mf(merr(by)), [M(B(1, 2))], rooms=[1]),
            esc(tmf(by), [M(B(254)), M(B(255)), M(B(1))]), esc(merr(tmf(by)), [M(B(254)), M(B(1))]), esc(merr(merr(tmf(by))), [M(B(254)), M(B(1))]), esc(merr(merr(U16)), [B(1, 2), B(3, 4)], rooms=[1]), esc(rep(tmf(U8)), [L(M(B(1)), M(B(254)))]),
            esc(tmf(by), [M(B(253, 1)), M(B(1))]), esc(merr(tmf(by)), [M(B(253)), M(B(1))])]
X["repeat"] = [esc(rep(by), [L(B(1, 2), B(), B(3)), L(), L(B()), L(B(), B())], into=1, caps=[0, 1, 2, 4]), esc(rep(U16), [L(B(1, 2), B(3, 4)), L(B(5, 6))], rooms=[-1, 3, 4, 5]),
               esc(rep(nu), [L(U, U), L()], into=1), esc(rep(opt(U8)), [L(NONE, SOME(B(1)), NONE), L(SOME(B(2)))]), esc(rep(rep(by)), [L(L(B(1)), L(), L(B(2), B(3)))], into=1),
               esc(rep(U24), [L(val("u24be", 1, 2, 3), B(1, 0, 0, 0)), L(val("u24be", 1, 2, 3))]), esc(rep(tup(U8, by)), [L(T(B(1), B()), T(B(2), B(3)))]),
               esc(tup(rep(U8), U8), [T(L(B(1), B(2)), B(3)), T(L(), B(4))]), esc(rep(mono("raw")), [L(B(1), B(2, 3)), L(B(255))]), esc(rep(leng(1, by)), [L(B(1), B(2)), L(B(1), B(2, 3))])]
X["length"] = [esc(leng(2, by), [B(1, 2), B(3, 4), B(5), B(6, 7)], rooms=[-1, 1, 2, 3, 4], into=1), esc(leng(2, by), [B(1, 2, 3), B(4, 5)]), esc(leng(0, by), [B(), B(1)]),
               esc(leng(3, tup(U8, by)), [T(B(1), B(2, 3)), T(B(1), B(2)), T(B(1), B(2, 3, 4))]), esc(leng(2, rep(U8)), [L(B(1), B(2)), L(B(1)), L()], rooms=[-1, 1, 2]),
               esc(leng(2, U16), [B(1, 2), B(3, 4)], into=1, bud=2), esc(leng(1, U16), [B(1, 2)]), esc(leng(3, U16), [B(1, 2), B(3, 4)]), esc(leng(2, leng(2, by)), [B(1, 2)]),
               esc(leng(2, opt(U16)), [NONE, SOME(B(1, 2))]), esc(leng(0, nu), [U, U]), esc(leng(1, nu), [U, U]), esc(leng(2, mono("raw")), [B(1, 2), B(3), B(4, 5)]),
               esc(leng(2, by), [B(1, 2), B(3), B(4)], cs=[ctl("setlen", 1)]), esc(leng(2, tmf(by)), [M(B(255, 1)), M(B(1, 2))]), esc(tup(leng(1, by), leng(2, by)), [T(B(1), B(2, 3))]),
               esc(leng(1, by), [B(1), B(2, 3)], cs=[ctl("setlen", 2)], rooms=[-1, 2, 3]), esc(rep(leng(2, by)), [L(B(1, 2), B(3, 4))])]
X["maxb"] = [esc(maxb(2, by), [B(1, 2), B(1), B(), B(1, 2)], rooms=[-1, 1, 2, 5], into=1), esc(maxb(2, by), [B(1, 2, 3), B(1)]), esc(maxb(3, rep(U8)), [L(B(1), B(2), B(3)), L(B(1), B(2), B(3))], bud=2),
             esc(maxb(0, nu), [U]), esc(maxb(2, tmf(by)), [M(B(1, 2)), M(B(255, 2)), M(B(1, 2))]), esc(maxb(2, tup(U8, by)), [T(B(1), B(2)), T(B(1), B(2)), T(B(1), B(2, 3))]),
             esc(maxb(2, by), [B(1, 2), B(3), B(4, 5)], cs=[ctl("setmax", 1)]), esc(maxb(2, opt(by)), [SOME(B(1, 2)), NONE, SOME(B(3, 4))]), esc(tup(maxb(1, by), maxb(2, by)), [T(B(1), B(2, 3))]),
             esc(rep(maxb(2, by)), [L(B(1, 2), B(3, 4))], into=1), esc(maxb(3, maxb(2, by)), [B(1, 2), B(1, 2, 3)])]
X["pre"] = [esc(pre(by), [B(1, 2), B(), B(3)], into=1), esc(pre(mono("raw")), [B(1, 2, 3), B(255), B(4)], rooms=[-1, 2, 3], bud=2), esc(pre(rep(U8)), [L(B(1), B(2)), L()], into=1),
            esc(pre(U24), [B(1, 0, 0, 0), val("u24be", 1, 2, 3)]), esc(tup(pre(rep(U8)), U8), [T(L(B(1)), B(2))]), esc(leng(2, pre(mono("raw"))), [B(1, 2), B(3, 4)]),
            esc(pre(leng(2, by)), [B(1, 2), B(1, 2, 3)]), esc(pre(maxb(2, rep(U8))), [L(B(1)), L(B(1), B(2), B(3))]), esc(pre(pre(leng(1, by))), [B(1), B(1, 2)])]
X["slice"] = [esc(sl(by), [B(1, 2, 3), B(), B(4)], rooms=[-1, 2, 3], bud=2), esc(sl(U16), [B(1, 2), B(3, 4)], bud=2), esc(tup(sl(U8), U16), [T(B(1), B(2, 3))]), esc(tup(U8, sl(U16)), [T(B(1), B(2, 3))], rooms=[-1, 3]),
              esc(sl(rep(by)), [L(B(1), B(), B(2, 3))]), esc(rep(sl(by)), [L(B(1, 2), B(3))]), esc(sl(pd), [B(7)], rooms=[3]), esc(sl(leng(2, by)), [B(1, 2), B(3, 4)]), esc(sl(mono("raw")), [B(1, 2, 3)], gr=[1, 3, 0]),
              esc(sl(sl(by)), [B(1, 2)])]
X["last"] = [esc(last(by, B(5, 6)), [["-", []]], held=1, rooms=[-1, 1, 2]), esc(last(by, B(5, 6), B(7, 8)), [["-", []]], held=1, rooms=[-1, 1, 3, 4], bud=2), esc(last(by, B(), B(7)), [["-", []]], held=1),
             esc(last(U16, B(5, 6), B(7, 8)), [["-", []]], held=1), esc(last(rep(by), L(B(1), B()), L(B(2))), [["-", []]], held=1), esc(last(opt(U8), NONE, SOME(B(7))), [["-", []]], held=1),
             esc(last(U24, B(1, 0, 0, 0)), [["-", []]], held=1), esc(last(mono("raw"), B(1, 2)), [["-", []]], held=1), esc(last(nu, U), [["-", []]], held=1),
             esc(with_(by, B(1, 2)), [B(1, 2), B(3)], held=1, bud=2), esc(with_(U16, B(1, 2)), [B(1, 2), B(3, 4)], held=1, rooms=[-1, 1, 3])]
X["tuple"] = [esc(tup(U8, by), [T(B(1), B(2, 3)), T(B(1), B())], rooms=[-1, 1, 2, 3], into=1), esc(tup(by, U8, chain=True), [T(B(1, 2), B(3)), T(B(), B(4))], rooms=[-1, 1, 2]), esc(tup(by, by), [T(B(), B()), T(B(1), B(2))]),
              esc(tup(by, rep(U8), by), [T(B(1), L(B(2), B(3)), B(4))], bud=2), esc(tup(tup(U8, U8), U8), [T(T(B(1), B(2)), B(3))]), esc(tup(nu, nu), [T(U, U)]), esc(tup(opt(U8), opt(U8)), [T(NONE, SOME(B(1))), T(NONE, NONE), T(SOME(B(1)), NONE)]),
              esc(tup(U24, U8), [T(B(1, 0, 0, 0), B(1)), T(val("u24be", 1, 2, 3), B(4))]), esc(tup(tmf(U8), by), [T(M(B(255)), B(1)), T(M(B(1)), B(2))]), esc(tup(mono("raw"), U8), [T(B(1, 2), B(3))]),
              esc(tup(U8, mono("raw")), [T(B(1), B(2, 3))], rooms=[-1, 2])]
X["arity"] = [esc(tup(*[U8] * n), [T(*[B(i + 1) for i in range(n)])], caps=[0, 1, 2, 3, 9], bud=1, into=1) for n in range(2, 9)] + \
             [esc(tup(*[by] * n), [T(*[B(*([i + 1] * (i % 3))) for i in range(n)])], caps=[1, 2, 9], bud=0) for n in range(2, 9)]
X["boxes"] = [esc(box(by), [B(1, 2), B()], into=1), esc(ref(by), [B(1, 2), B(3)], into=1, bud=2), esc(box(U24), [B(1, 0, 0, 0), val("u24be", 1, 2, 3)], rooms=[-1, 2]), esc(ref(box(rep(U8))), [L(B(1), B(2))]), esc(box(nu), [U]),
              esc(box(leng(2, by)), [B(1, 2), B(1)]), esc(ref(mono("raw")), [B(255), B(1)]), esc(tup(box(by), ref(by)), [T(B(1), B(2, 3))]), esc(rep(ref(by)), [L(B(1), B(), B(2))]), esc(ref(pd), [B(1)], rooms=[2])]

# --- hostile lengths and counts: close to 2^30, close to 2^64 ------------------------------------
H32, H64, HUGE, MAXC = [0x3f, 255, 255, 255], [255] * 8, (1 << 30) - 1, 2147483647
U32, U64 = fix("u32be"), fix("u64be")
D["hostile"] = [dsc(then(h, t, i), [b + [1, 2]], bud=1) for h, b in ((U32, H32), (U64, H64), (U64, [0, 0, 0, 0] + H32)) for t, i in (("len", REM), ("len", coll(U8)), ("len", then(U8, "len", REM)),
                                                                                                                     ("cn", U8), ("cn", U16), ("maxb", U16), ("cn", leng(1, REM)))] + \
               [dsc(then(U64, "len", then(U64, "len", REM)), [H64[:7] + [254] + H64 + [1]]), dsc(then(U64, "len", colln(MAXC, U8)), [H64 + [1, 2]]), dsc(coll(then(U32, "cn", U8)), [H32 + [1, 2, 3]]),
                dsc(colln(2, then(U32, "len", REM)), [[0, 0, 0, 1, 9] + H32 + [1]]), dsc(tup(leng(MAXC, REM), leng(MAXC, REM)), [[1, 2]]), dsc(tup(leng(MAXC, REM), copy(3)), [[1]]),
                dsc(leng(MAXC, tup(leng(MAXC, REM), U8)), [[1, 2]]), dsc(peek(then(U64, "len", REM)), [H64 + [1]]), dsc(sl(then(U64, "len", REM)), [H64 + [1]], gr=[MAXC, 9]),
                dsc(leng(2, REM), [[1, 2, 3]], cs=[ctl("setlen", MAXC)]), dsc(colln(1, U8), [[1, 2, 3]], cs=[ctl("setn", MAXC)]), dsc(maxb(MAXC, then(U32, "len", REM)), [H32 + [1]]),
                dsc(mono("binv"), [[1] + H64 + [5], [1] + [0] * 16], bud=0), dsc(then(U64, "len", mono("binv")), [H64 + [1] + H64 + [5]]), dsc(maybe(then(U64, "len", REM)), [H64]),
                dsc(colln(MAXC, utf8(copy(1))), [[65, 200]]), dsc(ref(colln(MAXC, tmap(U8))), [[1, 255]]), dsc(then(U64, "omit", U8), [H64 + [1]])]
X["hostile"] = [esc(leng(MAXC, by), [B(1, 2), B()]), esc(leng(HUGE, rep(U8)), [L(B(1), B(2))], rooms=[-1, 1]), esc(maxb(MAXC, by), [B(1, 2), B(3)]), esc(sl(by), [B(1, 2, 3)], gr=[MAXC]),
                esc(tup(leng(MAXC, by), leng(MAXC, by)), [T(B(1), B(2))]), esc(leng(2, by), [B(1, 2), B(3)], cs=[ctl("setlen", MAXC)]), esc(leng(MAXC, leng(MAXC, by)), [B(1)]), esc(rep(leng(MAXC, by)), [L(B(1))])]

# --- default values, codecs that leave is_idle to the trait, settings reached through every combinator -------
def lazy(i): return w("ref", i, lazy=True)


def late(i): return w("late", i)
def shy(i): return w("shy", i)


DU = dict(dflt=True)
U8_ = fix("u8")
D["dflt"] = [dsc(w("collect", U8_, **DU), [[1, 2]]), dsc(w("collectn", U8_, n=0, **DU), [[1, 2]], cs=[ctl("setn", 2)]), dsc(w("length", U8_, n=0, **DU), [[1, 2]], cs=[ctl("setlen", 1)]), dsc(w("maxb", U8_, n=0, **DU), [[1]]),
             dsc(w("slice", U8_, **DU), [[1, 2]], gr=[1, 1]), dsc(w("omit", U8_, b=False, **DU), [[1]]), dsc(w("peek", U8_, **DU), [[1, 2]]), dsc(w("maybe", U8_, **DU), [[], [1]]), dsc(pad(-1, **DU), [[1, 1], [2, 3]]),
             dsc(mono("json", **DU), [list(b"[1]")]), dsc(mono("bino", **DU), [[1, 0]]), dsc(mono("binv", **DU), [[1] + [0] * 16]), dsc(copy(3, **DU), [[1, 2, 3, 4]])]
D["bytes0"] = [dsc(byts(2, none=True), [[1, 2]])]
D["lazy"] = [dsc(lazy(U8), [[1, 2]]), dsc(lazy(copy(2)), [[1, 2, 3]]), dsc(coll(lazy(U16)), [[1, 2, 3, 4]]), dsc(tup(lazy(U8), lazy(copy(2))), [[1, 2, 3]]), dsc(leng(2, lazy(U16)), [[1, 2, 3]]), dsc(lazy(tup(U8, U8)), [[1, 2]]),
             dsc(lazy(leng(2, REM)), [[1, 2]]), dsc(lazy(colln(2, U8)), [[1, 2]]), dsc(peek(lazy(U8)), [[1]]), dsc(lazy(REM), [[1, 2]])]
X["dflt"] = [esc(w("repeat", U8_, **DU), [L(B(1), B(2))]), esc(w("opt", U8_, **DU), [SOME(B(1)), NONE]), esc(w("length", U8_, n=0, **DU), [B(1)], cs=[ctl("setlen", 1)]), esc(w("maxb", U8_, n=0, **DU), [B(1)]),
             esc(w("slice", U8_, **DU), [B(1)], gr=[1]), esc(w("pre", U8_, **DU), [B(1)]), esc(dict(k="pad", dflt=True), [B(1)], rooms=[2]), esc(mono("json", **DU), [B(*b"[1,2]")]), esc(mono("bino", **DU), [B(1, 0)])]
X["lazy"] = [esc(lazy(U8), [B(1), B(2)]), esc(lazy(by), [B(1, 2), B(3)]), esc(rep(lazy(U8)), [L(B(1), B(2))]), esc(tup(lazy(U8), lazy(by)), [T(B(1), B(2, 3))]), esc(leng(2, lazy(by)), [B(1, 2)]), esc(lazy(tup(U8, U8)), [T(B(1), B(2))]),
             esc(last(lazy(U8), B(9)), [["-", []]], held=1), esc(lazy(maxb(2, by)), [B(1, 2)])]
def _user(x, turn=0):
    """the sequences of a shape, written with the step macros"""
    if isinstance(x, dict):
        x = {k: _user(v, turn) for k, v in x.items() if k != "chain"}
        if x.get("k") == "tuple" and len(x["ps"]) <= 3:
            x["user"] = turn
        return x
    return [_user(v, turn) for v in x] if isinstance(x, list) else x


# user-defined codecs that suspend at the end of an item (late), or do not know their requirement (shy)
UD = [U8, copy(2), REM, copy(0)]
D["shy"] = [dsc(k(i), [[1, 2, 3]]) for i in (shy(U8), shy(copy(2))) for k in (lambda i: i, mp, merr, box, ref, peek, maybe, coll, lambda i: colln(2, i), lambda i: leng(2, i), lambda i: maxb(3, i), lambda i: omit(False, i), lambda i: tup(i, U8), lambda i: tup(U8, i), shy)] \
    + [dsc(sl(shy(U16)), [[1, 2]], gr=[1, 1]), dsc(then(shy(U8), "len", shy(REM)), [[2, 1, 2]]), dsc(utf8(shy(copy(2))), [[65, 66]])]
D["late"] = [dsc(k(late(i)), [[1, 2, 3]]) for i in UD for k in (lambda i: i, mp, merr, box, ref, shy, late)] \
    + [dsc(k(late(i)), [[1, 2, 3]]) for i in (U8, copy(2), copy(0)) for k in (peek, maybe, coll, lambda i: colln(2, i), lambda i: leng(2, i), lambda i: leng(0, i), lambda i: maxb(3, i), lambda i: omit(False, i), lambda i: tup(i, U8), lambda i: tup(U8, i), sl, tmap, utf8)] \
    + [dsc(then(U8, "omit", late(U8)), [[2, 1, 2]]), dsc(then(U8, "len", late(REM)), [[2, 1, 2]]), dsc(then(late(U8), "len", REM), [[2, 1, 2]]), dsc(then(U8, "cn", late(U8)), [[2, 1, 2]]), dsc(_user(tup(late(U8), late(U8), U8)), [[1, 2]]), dsc(tup(late(U8), U8, late(copy(1))), [[1, 2, 3]])]
LX = [(U8, B(1)), (by, B(1, 2)), (nu, U)]
X["shy"] = [esc(k(shy(by)), [v(B(1, 2))]) for k, v in ((lambda i: i, lambda v: v), (opt, SOME), (mf, M), (tmf, M), (merr, lambda v: v), (box, lambda v: v), (ref, lambda v: v), (shy, lambda v: v), (rep, lambda v: L(v, v)), (lambda i: leng(2, i), lambda v: v),
                                                   (lambda i: maxb(2, i), lambda v: v), (lambda i: tup(U8, i), lambda v: T(B(1), v)), (lambda i: tup(i, U8), lambda v: T(v, B(1))), (lambda i: w("pre", i), lambda v: v))]
X["late"] = [esc(k(late(i)), [v(b)]) for i, b in LX for k, v in ((lambda i: i, lambda v: v), (opt, SOME), (mf, M), (tmf, M), (merr, lambda v: v), (box, lambda v: v), (ref, lambda v: v), (shy, lambda v: v), (late, lambda v: v), (rep, lambda v: L(v, v)),
             (lambda i: leng(2, i), lambda v: v), (lambda i: leng(0, i), lambda v: v), (lambda i: maxb(2, i), lambda v: v), (lambda i: tup(U8, i), lambda v: T(B(1), v)), (lambda i: tup(i, U8), lambda v: T(v, B(1))), (lambda i: w("pre", i), lambda v: v), (sl, lambda v: v))] \
    + [esc(last(late(U8), B(1)), [["-", []]], held=1), esc(_user(tup(late(U8), late(U8), U8)), [T(B(1), B(2), B(3))])]
D["inmut"] = [dsc(k(i), [[1, 2, 3]]) for k in (mp, merr, box, ref, peek, maybe, sl, coll, lambda i: colln(2, i), lambda i: leng(3, i), lambda i: maxb(3, i), lambda i: omit(False, i), lambda i: tup(U8, i), lambda i: utf8(i)) for i in (maxb(2, copy(2)), leng(2, copy(2)))]
X["inmut"] = [esc(k(i), [v(B(1, 2))]) for k, v in ((opt, SOME), (mf, M), (tmf, M), (merr, lambda v: v), (box, lambda v: v), (ref, lambda v: v), (rep, lambda v: L(v, v)), (lambda i: leng(2, i), lambda v: v), (lambda i: maxb(2, i), lambda v: v),
                                                   (sl, lambda v: v), (pre, lambda v: v), (lambda i: tup(U8, i), lambda v: T(B(1), v))) for i in (maxb(2, by), leng(2, by))] + [esc(last(maxb(2, by), B(1, 2)), [["-", []]], held=1)]


# numbers at every boundary: all bits, no bits, one bit, all but one
def edges(n): return [[255] * n, [0] * n, [255] * (n - 1) + [254], [127] + [255] * (n - 1), [128] + [0] * (n - 1), [0] * (n - 1) + [1]] + [[0] * i + [1 << (i * 3 + n) % 8] + [0] * (n - 1 - i) for i in range(n)]


D["fixall"] += [dsc(fix(ty), edges(width(ty)), bud=0) for ty in FIX]
X["fixall"] += [esc(fix(ty), [B(*([0] * (vwidth(ty) - width(ty)) + e)) for e in edges(width(ty))], bud=0) for ty in FIX]
# many elements without bytes, many small ones
X["many"] = [esc(rep(by), [L(*[B()] * 40, B(1))], bud=0), esc(rep(opt(U8)), [L(*[NONE] * 20, SOME(B(1)), *[NONE] * 20)], bud=0), esc(rep(nu), [L(*[U] * 70)], bud=0), esc(rep(U8), [L(*[B(i) for i in range(40)])], bud=0, caps=[7, 16, 39, 40, 41])]
D["many"] = [dsc(colln(40, NULL), [[1]], bud=0), dsc(colln(70, copy(0)), [[]], bud=0), dsc(colln(20, U8), [list(range(21))], bud=0)]
D["many"] += [dsc(coll(U8), [list(range(20))], bud=0)]

for _lib in (D, X):
    for _s in _lib["late"] + _lib["shy"]:
        _lib.setdefault("late:" + _s["s"]["k"], []).append(_s)


def gather(lib, topics):
    return [s for t in topics for s in lib[t]]


# --- any order of calls (MCAny) -------------------------------------------------------------
def nodes(s, dec, path=()):
    """settings: (path, name, values)"""
    k = s["k"]
    if k == "slice":
        yield path, "grant", (0, 1, 3)
    if k == "omit":
        yield path, "omit", (0, 1)
    if k == "length":
        yield path, "setlen", (1, 3)
    if k == "maxb":
        yield path, "setmax", (0, 2)
    if k == "collectn":
        yield path, "setn", (0, 2)
    if k == "bytes" and dec:
        yield path, "setbytes", (0, 2)
    if k == "pad" and dec:
        yield path, "setpad", (-1, 1)
    if k == "peek":
        yield path, "peek", (0,)
        yield path, "poke", (9,)
    if k == "tuple":
        for i, p in enumerate(s["ps"]):
            yield from nodes(p, dec, path + (i + 1,))
    elif k != "andthen" and "in" in s:
        yield from nodes(s["in"], dec, path + (1,))


def cop(p, c, a): return dict(o="c", p=list(p), c=c, a=a)


def anyd(s, n):
    def d(b, q): return dict(o="d", b=b, q=q)
    f = dict(o="f")
    cs = [cop(p, c, a) for p, c, vs in nodes(s, True) for a in vs]
    ops = [d([], -1), d([], 0), d([1], -1), d([1], 0), d([2, 3, 4], -1), d([2, 3, 4], 0), d([0, 1], 1), f, dict(o="db", b=[1, 2])]
    if has(s, "trymap", "mono", "utf8", "maperr"):
        ops.append(d([255], -1))
    if has(s, "pad"):
        ops.append(d([0], -1))
    if has(s, "maxb", "length", "slice"):
        ops += [d([1], -2), d([1, 2], 2147483647)]
    grants = [c for c in cs if c["c"] == "grant"]
    tail = [dict(c, a=50) for c in grants if c["a"] == 1] + [d([1, 2, 3, 4, 5], -1), f, d([6], 0), f]
    return dict(k="dec", s=s, ops=ops + cs, tail=tail, n=n - (1 if len(cs) > 4 else 0))


def endless(s):
    return s["k"] == "pad" or (s["k"] != "length" and ("in" in s and endless(s["in"]) or any(endless(p) for p in s.get("ps", []))))


def anyx(s, items, n):
    def e(c, q): return dict(o="e", c=c, q=q)
    cs = [cop(p, c, a) for p, c, vs in nodes(s, False) for a in vs if c in ("grant", "setlen", "setmax")]
    takes = not has(s, "last")
    its = items[:3] if takes else []
    ops = [dict(o="s", v=v) for v in its] + [e(0, -1), e(1, -1), e(3, -1), e(0, 0), e(1, 0), e(9, 0), e(2, 1)]
    if takes and not endless(s):
        ops.append(dict(o="ei", v=items[0]))
    if not endless(s):
        ops.append(dict(o="ea"))
    grants = [dict(c, a=50) for c in cs if c["c"] == "grant" and c["a"] == 1]
    tail = grants + [e(40, -1)] + [dict(o="s", v=v) for v in its[:1]] + [e(40, -1)]
    return dict(k="enc", s=s, ops=ops + cs, tail=tail, n=n - (1 if len(cs) > 4 else 0))


D["user"] = [dict(x, s=_user(x["s"], t)) for x in D["tuple"] for t in range(3)] + [dsc(_user(tup(U8, copy(1), U16)), [[1, 2, 3, 4, 5]]), dsc(_user(tup(U8, REM, U8)), [[1, 2]]), dsc(_user(tup(tmap(U8), tmap(U8), tmap(U8))), [[1, 2, 255]]),
                                                              dsc(_user(tup(U8, U8, pad(0))), [[1, 2, 0], [1, 2, 3]]), dsc(_user(coll(tup(U8, copy(1), U8))), [[1, 2, 3, 4, 5, 6]])]
X["user"] = [dict(x, s=_user(x["s"], t)) for x in X["tuple"] for t in range(3)] + [esc(_user(tup(U8, U16, by)), [T(B(1), B(2, 3), B(4, 5))]), esc(_user(tup(by, by, by)), [T(B(1, 2), B(), B(3)), T(B(), B(), B())]),
                                                              esc(_user(tup(U8, by, U8)), [T(B(1), B(2), B(3))], rooms=[-1, 1, 2])]


def any_in(topics, dec):
    """any calls, and then the codec is taken apart"""
    out = []
    for x in uniq(gather(D if dec else X, topics)):
        s = x["s"]
        if s["k"] == "andthen" or s["k"] == "utf8" and "in" not in s or not ("in" in s or "ps" in s) or not dec and not x["items"] or s["k"] == "with":
            continue
        a = anyd(s, 3) if dec else anyx(s, x["items"], 3)
        for i, p in enumerate(s.get("ps", [s.get("in")])[:3]):
            g = [cop([], "grant", 50)] if p["k"] == "slice" else []
            after = [dict(o="d", b=[1, 2, 3, 4, 5], q=-1), dict(o="f"), dict(o="d", b=[6], q=0), dict(o="f")] if dec else [dict(o="e", c=1, q=-1), dict(o="e", c=40, q=-1), dict(o="e", c=3, q=0)]
            out.append(dict(a, tail=[dict(o="in", a=i + 1)] + g + after))
    return out


def uniq(xs):
    seen, out = set(), []
    for x in xs:
        import json
        key = json.dumps(x["s"], sort_keys=True)
        if key not in seen:
            seen.add(key)
            out.append(x)
    return out


def any_dec(topics, n=4): return [anyd(x["s"], n) for x in uniq(gather(D, topics))]
def any_enc(topics, n=4): return [anyx(x["s"], x["items"], n) for x in uniq(gather(X, topics)) if x["items"]]


def any_tag(deep):
    """tag-dispatching decoders: as they are, boxed, borrowed, behind a trait object"""
    ops = [dict(o="start", a=1), dict(o="start", a=255), dict(o="try", a=2), dict(o="try", a=255), dict(o="d", b=[], q=-1), dict(o="d", b=[7], q=-1), dict(o="d", b=[8, 9], q=0), dict(o="f")]
    return [dict(k="tag", s=dict(via=v), ops=ops, tail=[dict(o="d", b=[5], q=-1), dict(o="f"), dict(o="start", a=3), dict(o="d", b=[6], q=0), dict(o="f")], n=4) for v in ("", "box", "ref", "dyn")]


def any_help(topics, dec):
    """the whole-item helpers between other calls"""
    out = []
    for x in uniq(gather(D if dec else X, topics)):
        if has(x["s"], "slice") or endless(x["s"]) and not dec:
            continue
        if dec:
            ops = [dict(o="src", d=[1, 2, 3], t=[]), dict(o="src", d=[2, 4, 5], t=[1, -1]), dict(o="src", d=[0, 6], t=[1, 0, 1]), dict(o="dx"), dict(o="db", b=[1, 2]), dict(o="db", b=[]),
                   dict(o="d", b=[1], q=-1), dict(o="f")]
            out.append(dict(k="dec", s=x["s"], ops=ops, tail=[dict(o="src", d=[1, 2, 3, 4, 5, 6], t=[]), dict(o="dx"), dict(o="dx")], n=3))
        elif x["items"]:
            takes = not has(x["s"], "last")
            ops = [dict(o="snk", t=[1, 1]), dict(o="snk", t=[-2]), dict(o="snk", t=[1, 0]), dict(o="ea"), dict(o="e", c=1, q=-1)]
            its = x["items"][:2] if takes else []
            ops += [dict(o="s", v=v) for v in its] + [dict(o="ei", v=v) for v in its]
            out.append(dict(k="enc", s=x["s"], ops=ops, tail=[dict(o="snk", t=[]), dict(o="ea"), dict(o="e", c=9, q=-1)] + [dict(o="ei", v=v) for v in its[:1]], n=4))
    return out


# --- buffered streams (MCIo) ---------------------------------------------------------------
def O(name, **o): return dict(o=name, **o)


READS = [O("fill"), O("pfill"), O("read", n=1), O("read", n=2), O("dec"), O("fin")]
WRITES = [O("flush"), O("pflush"), O("enc"), O("enca")]
BOTH = [O("io"), O("pio")]
RTS = [[], [1], [2], [9], [0], [-1, 1], [-2], [1, -1, 1], [1, 0], [1, -2, 1], [-3], [2, 1], [9, 0]]
WTS = [[], [1], [2], [9], [0], [-1, 1], [-2], [1, -1, 1], [1, 0], [1, -2, 1], [2, 1], [-3]]
RTS2 = [[1], [9], [0], [-2], [1, -1], [9, 0]]
WTS2 = [[1], [9], [0], [-2], [1, -1]]


def iosc(dec, enc, rcap, wcap, ops, sd=(), rts=(), wts=(), vs=(), ws=(), rb=0, wb=0, pb=0, gb=0):
    return dict(k="io", s=dict(dec=dec, enc=enc, rcap=rcap, wcap=wcap), ops=list(ops), sd=list(sd), rts=list(rts), wts=list(wts), vs=list(vs),
                ws=[list(x) for x in ws], rb=rb, wb=wb, pb=pb, gb=gb)


def io_reads(more=0):
    decs = [REM, U16, leng(2, REM), byts(3), tup(U8, U16), utf8(REM), copy(2), maybe(U16)]
    cases = [(cap, d) for cap in (0, 1, 2, 3) for d in decs[:2]] + [(2, d) for d in decs[2:]]
    return [iosc(d, NULL, cap, 1, READS + BOTH, sd=[1, 2, 3, 4, 5], rts=RTS, rb=(2 if d in decs[1:3] and cap == 2 else 1) + more) for cap, d in cases] + \
           [iosc(REM, NULL, 2, 1, READS, sd=[1, 2, 3], rts=RTS2, rb=2 + more), iosc(U16, NULL, 3, 1, READS + BOTH, sd=[1, 2, 3, 4], rts=RTS2, rb=2 + more),
            iosc(REM, NULL, 2, 1, READS, sd=[1, 2, 3], rts=RTS2, rb=1 + more, gb=1)]


def io_writes(more=0):
    encs = [(byts(0), [B(1, 2, 3), B(4)]), (U16, [B(1, 2), B(3, 4)]), (w("repeat", U8), [L(B(1), B(2), B(3))]), (leng(2, byts(0)), [B(1, 2), B(3, 4)]),
            (tup(U8, U16), [T(B(1), B(2, 3))]), (dict(k="utf8"), [B(97, 98)])]
    cases = [(cap, e) for cap in (0, 1, 2, 3) for e in encs[:2]] + [(2, e) for e in encs[2:]]
    return [iosc(U8, e, 1, cap, WRITES + BOTH, wts=WTS, vs=vs, ws=[[7, 8, 9], [6]], wb=1, pb=1 + more) for cap, (e, vs) in cases] + \
           [iosc(U8, byts(0), 1, 2, WRITES, wts=WTS2, vs=[B(1, 2, 3)], ws=[[7]], wb=2, pb=2 + more), iosc(U8, U16, 1, 3, WRITES + BOTH, wts=WTS2, vs=[B(1, 2)], ws=[[7, 8]], wb=2, pb=2),
            iosc(U8, byts(0), 1, 2, WRITES, wts=WTS2, vs=[B(1, 2, 3)], ws=[[7]], wb=1 + more, pb=1, gb=1)]


def io_both(more=0):
    ops = BOTH + [O("read", n=1), O("dec"), O("fin"), O("enca")]
    return [iosc(REM, byts(0), r, u, ops, sd=[1, 2, 3], rts=RTS2, wts=WTS2, vs=[B(1, 2, 3)], ws=[[7, 8]], rb=1, wb=1 + more, pb=1) for r, u in ((1, 1), (2, 1), (1, 2), (0, 1), (1, 0))[:5 if more else 3]] + \
           [iosc(U8, byts(0), 1, 2, BOTH + [O("read", n=1)], sd=[1, 2], rts=RTS2, wts=WTS2, ws=[[7, 8]], rb=1 + more, wb=2, pb=1),
            iosc(U8, byts(0), 1, 2, BOTH + [O("read", n=1), O("fill"), O("pfill"), O("flush"), O("pflush")], sd=[1, 2], rts=RTS2[:4 + more], wts=WTS2[:4 + more], ws=[[7, 8]], rb=1, wb=1, pb=1, gb=more)]


def io_poll(more=0):
    ops = [O("pfill"), O("pflush"), O("pio"), O("read", n=1), O("enca")]
    return [iosc(REM, byts(0), r, u, ops + [O("io"), O("flush"), O("fill")] * more, sd=[1, 2, 3], rts=RTS2, wts=WTS2, vs=[B(1, 2, 3)], ws=[[7, 8]], rb=1, wb=1 + more, pb=1) for r, u in ((1, 1), (2, 2), (1, 3))] + \
           [iosc(U8, e, 1, cap, [O("pflush"), O("pio"), O("enca"), O("flush"), O("io"), O("enc")], wts=WTS2, vs=vs, ws=[[7]], wb=2, pb=1 + more)
            for cap, e, vs in ((1, byts(0), [B(1, 2, 3)]), (2, byts(0), [B(1, 2, 3)]), (2, w("repeat", U8), [L(B(1), B(2), B(3))]), (3, U16, [B(1, 2)]), (1, U16, [B(1, 2)]))] + \
           [iosc(REM, byts(0), 1, u, [O("pfill"), O("pfill", k=2), O("pflush"), O("pflush", k=2), O("pio", k=2), O("enca"), O("enca", k=2)] + [O("flush"), O("pio")] * more, sd=[1, 2], rts=[[1], [1, -1]], wts=[[1], [1, -1, 9]],
                 vs=[B(1, 2, 3)], rb=1, wb=1, pb=1) for u in (1, 2)]


def any_io(deep):
    """accessors of buffered streams; taking them apart"""
    out = []
    for rc, wc in ((2, 3), (1, 1)):
        ops = [O("src", d=[1, 2, 3], t=[2, -1]), O("src", d=[4], t=[]), O("snk", t=[1, -1]), O("snk", t=[0]), O("fill"), O("flush"), O("read", n=1), O("write", b=[7, 8]), O("io"), O("pio"), O("enca"), O("start", v=B(1, 2)), O("renew")]
        out.append(dict(k="io", s=dict(dec=U16, enc=fix("u16be"), rcap=rc, wcap=wc), ops=ops, tail=[O("src", d=[9], t=[9, 9]), O("snk", t=[9, 9]), O("renew"), O("write", b=[5]), O("io"), O("read", n=9)], n=4))
    return out


def pumps_live(deep):
    ps = pumps(0)
    return ps if deep else [dict(p, sd=p["sd"][:2], od=p["od"][:2], rts=p["rts"][:1] + p["rts"][3:5], wts=p["wts"][:1] + p["wts"][3:5]) for p in ps[1:3] + ps[5:7]]


def pumps(n=2):
    rts = [[1, -1], [-1], [9, -1], [-2], [1, -2], [2, -1, 1]]
    wts = [[1, -1], [-1], [9, -1], [-2], [1, -2], [0]]
    return [dict(k="io", s=dict(dec=REM, enc=NULL, rcap=r, wcap=u), sd=[1, 2, 3, 4], od=[7, 8, 9], rts=rts, wts=wts, io=io, chunk=c, n=n)
            for io in ("io", "pio") for r, u, c in ((1, 1, 1), (2, 1, 1), (1, 2, 2), (2, 3, 3), (3, 2, 1))]


# --- helpers that process whole items (MCDrv) -------------------------------------------------
def seqb(n): return [(i * 7 + 1) % 251 for i in range(n)]


def drv_dec(topics, n=2):
    out = []
    for x in gather(D, topics):
        if has(x["s"], "slice"):
            continue
        w_ = [b for fr in x["ws"] for b in fr][:8]
        out.append(dict(k="dec", s=x["s"], w=w_, max=x["max"], cs=x["cs"], toks=[1, 2, -1, -2, 0], n=n if len(w_) < 6 else n - 1, slices=0))
    return out


def drv_slices(topics):
    return [dict(k="dec", s=x["s"], w=fr + [9], max=1, cs=[], toks=[], n=0, slices=1) for x in gather(D, topics) for fr in x["ws"][:2] if not has(x["s"], "slice")]


def drv_big(deep=1):
    toks = [1, 512, 1000, 1023, 1024, 1025, -1]
    ds = [(copy(k), seqb(k + 2)) for k in (1023, 1024, 1025, 2048, 2049)] + [(REM, seqb(k)) for k in (1023, 1024, 1025, 2048, 2049)] + \
         [(byts(1025), seqb(1030)), (utf8(REM), [65] * 1025), (utf8(copy(1025)), [65] * 1026), (tup(U16, copy(1024)), seqb(1030)), (coll(copy(512)), seqb(1024)), (coll(U8), seqb(1030)),
          (leng(1030, REM), seqb(1031)), (tup(copy(1023), U16), seqb(1030)), (maxb(2000, REM), seqb(1500)), (pad(0), [0] * 1025), (mono("raw"), seqb(1500)),
          (tup(copy(1020), mono("raw")), seqb(1050)), (colln(3, copy(500)), seqb(1501))]
    if not deep:
        ds, toks = [ds[i] for i in (0, 1, 2, 4, 7, 10, 12, 14, 16, 21)], [1, 512, 1000, 1024, -1]
    n = 66000
    huge = [(REM, seqb(n), 0), (byts(n), seqb(n + 3), 0), (leng(n, REM), seqb(n + 2), 0), (tup(copy(1024), maxb(70000, REM)), seqb(n), 0), (mono("raw"), seqb(n), 1), (byts(n), seqb(n), 1)]
    return [dict(k="dec", s=s, w=b, max=2, cs=[], toks=[], n=0, slices=z) for s, b, z in (huge if deep else huge[:3])] + \
           [dict(k="dec", s=s, w=b, max=3, cs=[], toks=toks, n=1, slices=0) for s, b in ds] + \
           [dict(k="dec", s=s, w=b, max=3, cs=[], toks=[1000, 24, 1, -1], n=2, slices=0) for s, b in ds[:2] + ds[7:8]]


def drv_enc(topics, n=2):
    return [dict(k="enc", s=x["s"], items=x["items"], held=x["held"], pre=[-1, 1], cs=[], toks=[1, 2, 0, -1, -2], n=n, slices=0) for x in gather(X, topics)
            if not has(x["s"], "slice") and not endless(x["s"]) and not x["cs"]] + \
           [dict(k="enc", s=x["s"], items=x["items"], held=x["held"], pre=[-1], cs=[], toks=[], n=0, slices=1) for x in gather(X, topics)
            if not has(x["s"], "slice") and not x["held"] and not x["cs"]]


def drv_encbig(deep=1):
    by, rep = byts(0), w("repeat", U16)
    es = [(by, [B(*seqb(k)), B(1)]) for k in (1023, 1024, 1025, 2048, 2049)] + \
         [(w("repeat", by), [L(*[B(i, *seqb(255)) for i in range(9)])]), (tup(U8, by), [T(B(1), B(*seqb(1023))), T(B(1), B(*seqb(1024)))]), (w("pre", by), [B(*seqb(1025))]),
          (leng(1025, by), [B(*seqb(1025))]), (maxb(2000, by), [B(*seqb(1500))]), (mono("raw"), [B(1, *seqb(1500))]), (w("pre", mono("raw")), [B(1, *seqb(1500))]),
          (w("repeat", by), [L(B(*seqb(1000)), B(*seqb(24)), B(*seqb(1)), B())]), (dict(k="utf8"), [B(*[65] * 1025)]), (w("opt", by), [SOME(B(*seqb(1025))), NONE]),
          (leng(1024, mono("raw")), [B(1, *seqb(1023))])]
    if deep:
        es.append((rep, [L(*[B(1, i % 200) for i in range(520)])]))
    else:
        es = [es[i] for i in (0, 1, 2, 4, 5, 7, 11, 12)]
    # the growing buffer of encode_into_bytes
    huge = [(by, [B(*seqb(k)), B(1)]) for k in ((65535, 65536, 65537, 131072, 150000) if deep else (65536, 65537))] + \
           [(tup(U8, by, U16), [T(B(1), B(*seqb(65535)), B(2, 3))]), (mono("raw"), [B(1, *seqb(66000))])]
    return [dict(k="enc", s=s, items=v, held=0, pre=[-1, 1, 1000], cs=[], toks=[1, 1000, 1024, -1, 0], n=1, slices=z) for s, v in es for z in (0, 1)] + \
           [dict(k="enc", s=s, items=v, held=0, pre=[-1], cs=[], toks=[], n=0, slices=1) for s, v in huge]


def huge_msgs(dec):
    """whole messages of more than 64 KiB"""
    n = 66000
    if dec:
        return [dict(k="dec", s=s, w=b, max=2, cs=[], toks=[], n=0, slices=1) for s, b in ((mono("raw"), seqb(n)), (leng(n, mono("raw")), seqb(n)), (box(mono("raw")), seqb(n)))]
    return [dict(k="enc", s=s, items=[B(1, *seqb(n)), B(1, *seqb(65535))], held=0, pre=[-1, 1, 1000], cs=[], toks=[], n=0, slices=0) for s in (mono("raw"), w("pre", mono("raw")))]


# --- byte counts (MCAlg) ----------------------------------------------------------------------
def counts(deep=0):
    lim = lambda n: [n >> 48, n >> 32 & 0xffff, n >> 16 & 0xffff, n & 0xffff]
    ns = [0, 1, 2, 255, 1 << 16, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, 1 << 63, (1 << 63) - 1, (1 << 64) - 2, (1 << 64) - 1]
    if deep:
        ns += [(1 << k) + d for k in (8, 15, 16, 17, 24, 33, 47, 48, 49, 62) for d in (-1, 1)]
    return [dict(k="alg", s={}, vals=[[-1], [-2]] + [lim(n) for n in ns], folded=[-1, -2, 0, 1, 2, 300, 65535, 65536, 70000, 2147483647, 2147483646, 2147483600])]


# --- matching encoders and decoders (MCRound) --------------------------------------------------
class Pairs:
    """random matching pairs with n items each; every part is (encoder, decoder, [(item, wanted, size)])"""

    def __init__(self, seed, n):
        self.r, self.n = random.Random(seed), n
        self.multi = n > 1      # the decoders are used for several items

    def byts(self, k): return [self.r.choice((0, 1, 2, 7, 65, 200, 252)) for _ in range(k)]

    def sized(self, p):
        """does every item have the same size?"""
        return len({z for _, _, z in p[2]}) == 1

    def one(self, depth):
        """a self-delimiting pair"""
        r = self.r
        k = r.choice(["fix", "fix", "copy", "len", "thenlen", "tuple", "tuple", "thencn", "opt", "thenomit", "map", "trymap", "wrap", "wrap", "pre", "peek", "null", "utf8", "count", "window"] if depth else ["fix", "copy", "thenlen", "null"])
        many = range(self.n)
        if k == "fix":
            ty = r.choice(FIX)
            vs = [B(*([0] * (vwidth(ty) - width(ty)) + self.byts(width(ty)))) for _ in many]
            return fix(ty), fix(ty), [(v, v, width(ty)) for v in vs]
        if k in ("copy", "len"):
            n = r.randrange(1 if k == "copy" else 0, 4)
            vs = [B(*self.byts(n)) for _ in many]
            return leng(n, by), copy(n) if k == "copy" else leng(n, REM), [(v, v, n) for v in vs]
        if k == "null":
            return NULL, NULL, [(U, U, 0)] * self.n
        if k == "utf8":
            s = r.choice(["", "a", "é", "a€", "𝄞"]).encode()
            return leng(len(s), ut), utf8(copy(len(s))), [(B(*s), B(*s), len(s))] * self.n
        if k == "thenlen":
            h = r.choice(["u8", "u16be", "u16le", "u24be", "u32le", "u64be"])
            vs = [self.byts(r.randrange(4)) for _ in many]
            return tup(fix(h), by), then(fix(h), "len", REM), [(T(self.num(h, len(v)), B(*v)), B(*v), width(h) + len(v)) for v in vs]
        if k == "tuple":
            ps = [self.one(depth - 1) for _ in range(r.choice((2, 2, 3)))]
            user = {"user": True} if r.random() < .2 else {}
            return (tup(*[p[0] for p in ps], **user), tup(*[p[1] for p in ps], **user),
                    [(T(*[p[2][i][0] for p in ps]), T(*[p[2][i][1] for p in ps]), sum(p[2][i][2] for p in ps)) for i in many])
        if k == "thencn":
            ks = [r.randrange(3) for _ in many]
            e, d, vs = self.more(sum(ks) or 1, depth - 1)
            out = []
            for c in ks:
                part, vs = vs[:c], vs[c:]
                out.append((T(B(c), L(*[v[0] for v in part])), L(*[v[1] for v in part]), 1 + sum(v[2] for v in part)))
            return tup(U8, rep(e)), then(U8, "cn", d), out
        if k == "count":
            c = r.randrange(1, 4)
            e, d, vs = self.more(c * self.n, depth - 1)
            if self.multi:      # a counted collection is made once
                return tup(fix("u8"), rep(e)), then(fix("u8"), "cn", d), [(T(B(c), L(*[v[0] for v in vs[i * c:][:c]])), L(*[v[1] for v in vs[i * c:][:c]]), 1 + sum(v[2] for v in vs[i * c:][:c])) for i in many]
            return rep(e), colln(c, d), [(L(*[v[0] for v in vs]), L(*[v[1] for v in vs]), sum(v[2] for v in vs))]
        if k == "thenomit":
            fs = [r.randrange(2) for _ in many]
            e, d, vs = self.one(depth - 1)
            return tup(U8, opt(e)), then(U8, "omit", d), [(T(B(f), SOME(v[0]) if f else NONE), SOME(v[1]) if f else NONE, 1 + (v[2] if f else 0)) for f, v in zip(fs, vs)]
        if k == "window":       # a greedy pair in a window of its size
            e, d, vs = self.greedy(depth - 1)
            vs = [vs[0]] * self.n
            return leng(vs[0][2], e), leng(vs[0][2], d), vs
        e, d, vs = self.one(depth - 1)
        if k == "opt":
            if r.random() < .3:
                return tup(opt(e), U8), tup(omit(True, d), U8), [(T(NONE, B(5)), T(NONE, B(5)), 1)] * self.n
            return opt(e), omit(False, d), [(SOME(v[0]), SOME(v[1]), v[2]) for v in vs]
        if k == "map":
            return mf(e), mp(d), [(M(v[0]), M(v[1]), v[2]) for v in vs]
        if k == "trymap":
            ok = all(self.lead(v[0]) < 253 for v in vs)
            return (tmf(e), tmap(d), [(M(v[0]), M(v[1]), v[2]) for v in vs]) if ok else (e, d, vs)
        if k == "pre":
            return pre(e), d, vs
        if k == "peek":
            return e, peek(d), vs
        if self.sized((e, d, vs)) and r.random() < .4:
            n = vs[0][2]
            return (leng(n, e) if n else e), leng(n, d), vs
        return r.choice([box, ref, merr])(e), r.choice([box, ref, merr])(d), vs

    def num(self, ty, n):
        raw = list(n.to_bytes(vwidth(ty), "big"))
        return B(*raw)

    def lead(self, v):
        fl = []

        def go(x):
            if x[0] == "b":
                fl.extend(x[1])
            elif x[0] not in ("u", "-"):
                for y in x[1]:
                    go(y)
        go(v)
        return fl[0] if fl else 0

    def more(self, n, depth):
        n0, m0 = self.n, self.multi
        self.n, self.multi = n, m0 or n > 1
        try:
            return self.one(depth)
        finally:
            self.n, self.multi = n0, m0

    def greedy(self, depth):
        """a pair whose item ends with the stream: a single item"""
        r = self.r
        k = r.choice(["rem", "utf8", "raw", "json", "bino", "collect", "tuple", "wrap", "self"])
        if k == "rem":
            b = B(*self.byts(r.randrange(5)))
            return by, REM, [(b, b, len(b[1]))]
        if k == "utf8":
            b = r.choice(["", "ab", "é", "a€", "𝄞z"]).encode()
            return ut, utf8(REM), [(B(*b), B(*b), len(b))]
        if k == "raw":
            b = B(*self.byts(r.randrange(4)))
            return mono("raw"), mono("raw"), [(b, M(b), len(b[1]))]
        if k == "json":
            b = r.choice([b"[]", b"[1]", b"[null,20]"])
            return mono("json"), mono("json"), [(B(*b), B(*b), len(b))]
        if k == "bino":
            b = r.choice([[7, 0], [7, 1, 2, 3]])
            return mono("bino"), mono("bino"), [(B(*b), B(*b), len(b))]
        if k == "collect":
            for _ in range(20):
                e, d, vs = self.more(r.randrange(4) or 1, max(depth, 0))
                if all(v[2] for v in vs):
                    if r.random() < .2:
                        vs = []
                    return rep(e), coll(d), [(L(*[v[0] for v in vs]), L(*[v[1] for v in vs]), sum(v[2] for v in vs))]
            return self.greedy(depth)
        if k == "tuple":
            p, q = self.more(1, max(depth, 0)), self.greedy(depth - 1)
            return tup(p[0], q[0]), tup(p[1], q[1]), [(T(p[2][0][0], q[2][0][0]), T(p[2][0][1], q[2][0][1]), p[2][0][2] + q[2][0][2])]
        if k == "wrap":
            e, d, vs = self.greedy(depth - 1)
            z = r.randrange(4)
            if z == 0:
                return maxb(vs[0][2] + 1, e), maxb(vs[0][2] + 1, d), vs
            if z == 1:
                return mf(e), mp(d), [(M(v[0]), M(v[1]), v[2]) for v in vs]
            return r.choice([box, ref, merr, pre])(e), r.choice([box, ref, merr, peek])(d), vs
        return self.more(1, max(depth, 0))


def rnd(e, d, items, want, caps=(0, 1, 2, 9), ns=(1, 2)):
    return dict(s=[dict(k="enc", s=e), dict(k="dec", s=d)], items=list(items), want=list(want), caps=list(caps), ns=list(ns))


def rounds(deep=0):
    import os
    seed = os.environ.get("VERIF_SEED", "1")
    out = []
    for ty in FIX:
        vs = [B(*([0] * (vwidth(ty) - width(ty)) + bs)) for bs in ([255] * width(ty), list(range(0x80, 0x80 + width(ty))), [0x7f] + [0] * (width(ty) - 1))]
        out.append(rnd(fix(ty), fix(ty), vs, vs, caps=(1, 3, 9), ns=(1, 3)))
    out += [rnd(leng(4, tup(U8, pd)), leng(4, tup(U8, pad(9))), [T(B(1), B(9)), T(B(2), B(9))], [T(B(1), U), T(B(2), U)]),
            rnd(mono("first"), mono("first"), [B(1, 2)], [M(B(1, 2))], ns=()),
            rnd(mono("binv"), mono("binv"), [B(1, 1, 0, 0, 0, 0, 0, 0, 0, 5, 1, 0, 0, 0, 0, 0, 0, 0, 65)], [B(1, 1, 0, 0, 0, 0, 0, 0, 0, 5, 1, 0, 0, 0, 0, 0, 0, 0, 65)], caps=(1, 7, 30), ns=(1, 5)),
            rnd(U16, maybe(U16), [B(1, 2), B(3, 4)], [B(1, 2), B(3, 4)]), rnd(by, byts(3), [B(1, 2, 3)], [B(1, 2, 3)]),
            rnd(last(by, B(5, 6), B(7, 8)), REM, [], [B(7, 8, 5, 6)]), rnd(with_(U16, B(1, 2)), U16, [], [B(1, 2)]),
            rnd(rep(by), REM, [L(B(1), B(), B(2, 3))], [B(1, 2, 3)]), rnd(rep(opt(U8)), coll(U8), [L(NONE, SOME(B(1)), SOME(B(2)))], [L(B(1), B(2))]),
            rnd(opt(by), REM, [SOME(B(1)), NONE, SOME(B(2))], [B(1, 2)]), rnd(NULL, NULL, [U, U], [U, U])]
    for n in range(2, 9):
        out.append(rnd(tup(*[U8] * n), tup(*[U8] * n), [T(*[B(i + 1) for i in range(n)])], [T(*[B(i + 1) for i in range(n)])], caps=(1, 2, 9), ns=(1, 2)))
    for i in range(400 if deep else 70):
        g = Pairs("%s/%d" % (seed, i), 1 + i % 3)
        e, d, vs = g.one(2 + i % 2)
        if sum(v[2] for v in vs) <= 24:
            out.append(rnd(e, d, [v[0] for v in vs], [v[1] for v in vs], caps=(0, 1, 2, 9) if sum(v[2] for v in vs) < 10 else (1, 9), ns=(1, 2) if sum(v[2] for v in vs) < 10 else (1,)))
        g = Pairs("%s/g%d" % (seed, i), 1)
        e, d, vs = g.greedy(3)
        if vs[0][2] <= 24:
            out.append(rnd(e, d, [v[0] for v in vs], [v[1] for v in vs], caps=(0, 1, 2, 9) if vs[0][2] < 10 else (1, 9), ns=(1, 2) if vs[0][2] < 10 else (1,)))
    return out


# --- several items in one stream, in slices (MCMux) ---------------------------------------------
def muxes(deep=0):
    v3 = [val("u24be", 1, 2, 3), val("u24be", 4, 5, 6)]
    ps = [(U24, U24, v3[:1], v3[:1]), (leng(2, by), leng(2, REM), [B(7, 8), B(9, 9)], [B(7, 8), B(9, 9)]), (tup(U8, by), then(U8, "len", REM), [T(B(2), B(5, 6)), T(B(0), B())], [B(5, 6), B()]),
          (rep(U16), colln(2, U16), [L(B(1, 2), B(3, 4))], [L(B(1, 2), B(3, 4))]), (tup(U8, U16), tup(U8, U16), [T(B(1), B(2, 3))], [T(B(1), B(2, 3))]),
          (pre(rep(U8)), leng(2, coll(U8)), [L(B(1), B(2))], [L(B(1), B(2))]), (leng(2, mono("raw")), leng(2, mono("raw")), [B(1, 2)], [M(B(1, 2))]),
          (maxb(9, mf(by)), mp(copy(3)), [M(B(1, 2, 3))], [M(B(1, 2, 3))]), (opt(U8), peek(U8), [NONE, SOME(B(1))], [B(1)]), (sl(by), None, None, None)][:9]
    pick = [(0, 4), (1, 2), (5, 6), (7, 8), (3, 0)] if not deep else [(i, (i + k) % 9) for i in range(9) for k in (1,)]
    out = []
    for i, j in pick:
        a, b = ps[i], ps[j]
        out.append(dict(s=[dict(k="enc", s=sl(a[0])), dict(k="enc", s=sl(b[0])), dict(k="dec", s=sl(a[1])), dict(k="dec", s=sl(b[1]))],
                        items=[a[2], b[2]], want=[a[3], b[3]], gr=[1, 2, 3] if deep else [1, 2], caps=[1, 9] if deep else [9], ahead=3 if deep else 2))
    return out
