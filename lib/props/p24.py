"""P24: the native API, driven by an interpreter of API calls (driver/vtapi.c) and a model with reference counts."""
import os, struct
from vt import sem, pbt, drv as drvmod
from vt.pbt import Suite

TITLE = "The native API manipulates objects, fields, methods and scopes as documented"
RULE = ("One case is a history of 5 to 70 native API calls on a pool of 12 objects, made by one native method; the results, the error IDs, the "
        "exceptions and the objects destroyed by every single call are compared with a model that counts references. Non-trivial: at least 8 calls.")
ASSUMPTIONS = ["the functions that the documents declare unchecked are called with arguments that meet their requirements",
               "memory allocation does not fail"]

NSLOT = 12
NUMT = ["byte", "short", "int", "long", "float", "double"]
FMT = {"byte": "b", "short": "h", "int": "i", "long": "q", "float": "f", "double": "d"}
SZ = {"byte": 1, "short": 2, "int": 4, "long": 8, "float": 4, "double": 8}
FIELDS = {"ND": {"id": "int", "b": "byte", "s": "short", "l": "long", "f": "float", "d": "double", "o": "object", "n": "ND", "t": "string"}}
FIELDS["NE"] = dict(FIELDS["ND"], x="int")
FIELDS["NP"] = {"id": "int", "o": "object"}
CVARS = {"$B": "byte", "$S": "short", "$I": "int", "$L": "long", "$F": "float", "$D": "double", "$O": "object", "$T": "string"}
MUL = {"M_2i": ("int", 2), "M_3d": ("double", 3), "M_1b": ("byte", 1)}
PARENT = {"NE": "ND"}
IMPL = {"ND": {"NI"}, "NE": {"NI"}}
CLASSES = ("ND", "NE", "NP")

SRC = [
    ("NA", "class NA { use VT; use ND; use NE; use NP; use NErr; use M_2i; use M_3d; use M_1b; use Byte; use Short; use Int; use Long; use Float; use Double;"
           " native static method run : int ($ops : long[], $strs : string[]); }"),
    ("ND", """class ND : public { version "1.002003"; use VT; use NI; interface NI;
 has id : public int; has b : public byte; has s : public short; has l : public long; has f : public float; has d : public double;
 has o : public object; has n : public ND; has t : public string;
 our $B : public byte; our $S : public short; our $I : public int; our $L : public long; our $F : public float; our $D : public double; our $O : public object; our $T : public string;
 static method make : ND ($o : object) { my $r = new ND; $r->{id} = 500; $r->{o} = $o; return $r; }
 static method echo : object ($o : object) { return $o; }
 static method drop : object ($o : object) { my $r = new ND; $r->{id} = 600; return undef; }
 static method calc : long ($b : byte, $i : int, $l : long, $d : double, $f : float, $s : short) { VT->d($d); VT->f($f); return $b + (long)$i * 3 + $l * 5 + $s * 7; }
 static method boom : object ($o : object) { my $r = new ND; $r->{id} = 700; die "B!"; }
 static method boom2 : object ($o : object) { die NErr "C!"; }
 method get : int () { return $self->{id}; }
 method name : int () { return 1; }
 method req : int () { return $self->{id} + 3; }
 method bang : int () { die "D!"; }
 method DESTROY : void () { VT->i(-1000 - $self->{id}); }
}"""),
    ("NE", "class NE extends ND : public { has x : public int; method name : int () { return 2; } method only : int () { return $self->{x}; } }"),
    ("NP", "class NP : public pointer { version \"12.340\"; use VT; has id : public int; has o : public object; method get : int () { return $self->{id} + 9; } method DESTROY : void () { VT->i(-1000 - $self->{id}); } }"),
    ("NI", "class NI : interface_t public { required method req : int (); }"),
    ("NErr", "class NErr extends Error : public { }"),
    ("M_2i", "class M_2i : mulnum_t public { has x : int; has y : int; }"),
    ("M_3d", "class M_3d : mulnum_t public { has x : double; has y : double; has z : double; }"),
    ("M_1b", "class M_1b : mulnum_t public { has x : byte; }"),
]


class O:
    __slots__ = ("k", "bt", "dim", "v", "rc", "ro", "weak", "back", "ptr", "dead")

    def __init__(s, k, bt, dim, v):
        s.k, s.bt, s.dim, s.v = k, bt, dim, v          # k: str num mul oarr obj; v: bytes / bytearray / list / dict
        s.rc, s.ro, s.weak, s.back, s.ptr, s.dead = 0, 0, set(), [], 0, False

    def length(s):
        return 0 if s.k == "obj" else len(s.v) // s.esize() if s.k in ("num", "mul") else len(s.v)

    def esize(s):
        if s.k == "num":
            return SZ[s.bt]
        if s.k == "mul":
            t, n = MUL[s.bt]
            return SZ[t] * n
        return 8

    def tname(s):
        return s.bt + "[]" * s.dim


def is_num(bt):
    return bt in NUMT


def sub(c, d):
    while c:
        if c == d:
            return True
        c = PARENT.get(c)
    return False


def isa(o, bt, dim):
    if o is None:
        return 1
    if bt == "object":
        if dim == 0:
            return 1
        return int(o.k == "oarr") if dim == 1 else None
    if o.dim != dim:
        return 0
    if o.bt == bt or sub(o.bt, bt):
        return 1
    return int(bt in IMPL.get(o.bt, ()))


class M:
    def __init__(m):
        m.slot = [None] * NSLOT
        m.mort = []
        m.scopes = []
        m.cv = {}
        for n, t in CVARS.items():
            m.cv[n] = 0 if is_num(t) else None
        m.exc = None
        m.tr = []
        m.dead = []
        m.blocks = {}

    def inc(m, o):
        if o is not None:
            assert not o.dead
            o.rc += 1

    def dec(m, o):
        if o is None:
            return
        o.rc -= 1
        if o.rc == 0:
            o.dead = True
            for (w, f) in list(o.back):
                w.v[f] = None
                w.weak.discard(f)
            if o.k == "obj":
                m.dead.append(-1000 - o.v["id"])
                for f in [f for f, v in o.v.items() if isinstance(v, O)]:
                    m.drop_field(o, f)
            elif o.k == "oarr":
                for x in o.v:
                    m.dec(x)

    def drop_field(m, o, f):
        v = o.v[f]
        o.v[f] = None
        if v is None:
            return
        if f in o.weak:
            o.weak.discard(f)
            v.back.remove((o, f))
        else:
            m.dec(v)

    def setf(m, o, f, x):
        m.inc(x)
        old, ow = o.v[f], f in o.weak
        o.v[f] = x
        if ow:
            o.weak.discard(f)
            old.back.remove((o, f))
        else:
            m.dec(old)

    def mortal(m, o):
        if o is not None:
            m.inc(o)
            m.mort.append(o)
        return o

    def put(m, k, o):
        m.inc(o)
        old = m.slot[k]
        m.slot[k] = o
        m.dec(old)

    def leave(m, top):
        while len(m.mort) > top:
            m.dec(m.mort.pop())

    def t(m, *vs):
        for v in vs:
            m.tr.append(("i", sem.wrap("long", int(v))) if isinstance(v, int) else v)

    def err(m, e, kind="Error"):
        """An error ID that the interpreter traces; the exception is dropped."""
        if not e:
            m.t(0)
            return
        m.t(1, kind == "Error", 1)
        m.set_exc(None)

    def set_exc(m, o):
        m.inc(o)
        old, m.exc = m.exc, o
        m.dec(old)

    def new_exc(m):
        s = O("str", "string", 0, b"?")
        s.ptr = 1                                # text not modelled
        m.set_exc(s)
        return s


def rec(o):
    """The record of an object in the trace."""
    if o is None:
        return None
    if o.k == "str":
        return ("ANY",) if o.ptr else bytes(o.v)
    if o.k in ("num", "mul"):
        return ("N", o.tname(), bytes(o.v))
    if o.k == "oarr":
        return ("A", o.tname(), [rec(x) for x in o.v])
    return ("O", o.bt)


def same(a, b):
    if a == ("ANY",):
        return isinstance(b, bytes)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


def fields_of(o):
    return FIELDS.get(o.bt, {}) if o is not None and o.k == "obj" else {}


def bits_of(t, v):
    return ("i", sem.wrap("long", sem.bits32(v) if t == "float" else sem.bits64(v) if t == "double" else v))


def raw(t, v):
    """The integer that carries a value of a type to the interpreter."""
    return sem.bits32(v) if t == "float" else sem.wrap("long", sem.bits64(v)) if t == "double" else v


BTN = ["ND", "NE", "NP", "NI", "string", "int", "byte", "long", "float", "M_2i", "M_3d", "object", "Zzz", "Error", ""]
KNOWN_BT = {"double", "short", "ND", "NE", "NP", "NI", "string", "int", "byte", "long", "float", "M_2i", "M_3d", "M_1b", "object", "Error", "NErr"}


class G:
    """Draws one operation that the requirements of the API allow and applies it to the model."""
    def __init__(g, src, m):
        g.src, g.m, g.strs, g.text = src, m, [], []

    def s(g, b):
        if isinstance(b, str):
            b = b.encode()
        if b not in g.strs:
            g.strs.append(b)
        return g.strs.index(b)

    def k(g):
        return g.src.below(NSLOT)

    def pick(g, pred):
        c = [i for i, o in enumerate(g.m.slot) if pred(o)]
        return g.src.choice(c) if c else None

    def obj(g, lenient=True):
        """A slot for a by-name function: mostly an object of a class, sometimes anything."""
        if lenient and g.src.chance(1, 7):
            return g.k()
        i = g.pick(lambda o: o is not None and o.k == "obj")
        return g.k() if i is None else i

    def fname(g, o, pred=lambda t: True):
        fs = sorted(f for f, t in fields_of(o).items() if pred(t))
        if not fs or g.src.chance(1, 10):
            return g.src.choice(["id", "zz", "x", "o", "", "t"])
        return g.src.choice(fs)

    def num(g, t):
        return sem.draw_num(g.src, t)


def new_oarr(bt, dim, n):
    return O("oarr", bt, dim, [None] * n)


def compat(o, bt, dim):
    return o is None or isa(o, bt, dim) == 1


# ---------------------------------------------------------------- operations: each returns the encoded list or None
def op_numarr(g, m):
    k, t, n, nm = g.k(), g.src.below(6), g.src.int(-1, 6), g.src.below(2)
    o = None if n < 0 else O("num", NUMT[t], 1, bytearray(SZ[NUMT[t]] * n))
    m.put(k, o if nm else m.mortal(o))
    return [1, k, t, n, nm]


def op_str(g, m):
    b = g.src.choice([b"", b"a", b"abc", b"hello world", bytes([0xE3, 0x81, 0x82]), b"a\0b", b"x" * 40])
    v = g.src.below(5)
    k = g.k()
    txt = b.split(b"\0")[0] if v in (2, 3) else b"\0" * len(b) if v == 4 else b
    o = O("str", "string", 0, bytearray(txt))
    m.put(k, o if v in (1, 3) else m.mortal(o))
    return [2, k, g.s(b), v]


def op_oarr(g, m):
    k, n, v = g.k(), g.src.int(-1, 4), g.src.below(4)
    bt = g.src.choice(["ND", "NE", "NI", "string", "object", "NP", "Error"])
    if v == 2 and g.src.chance(1, 4):
        bt = g.src.choice(["int", "Zzz", "M_2i", ""])
    if v == 3:
        bt = "string"
    ok = n >= 0 and bt not in ("int", "Zzz", "M_2i", "")
    code = [3, k, g.s(bt), n, v]
    o = new_oarr(bt, 1, n) if ok else None
    if v == 2:
        if not ok:
            m.new_exc(); m.err(1)
            return code
        m.t(0)
    m.put(k, o if v == 1 else m.mortal(o))
    return code


def op_muldim(g, m):
    k, n, v, d = g.k(), g.src.int(-1, 4), g.src.below(3), g.src.int(2, 4)
    bt = g.src.choice(["ND", "NI", "string", "int", "byte", "double"])
    if v == 2 and g.src.chance(1, 5):
        bt = "Zzz"
    ok = n >= 0 and bt != "Zzz"
    code = [4, k, g.s(bt), d, n, v]
    o = new_oarr(bt, d, n) if ok else None
    if v == 2:
        if not ok:
            m.new_exc(); m.err(1)
            return code
        m.t(0)
    m.put(k, o if v == 1 else m.mortal(o))
    return code


def op_mul(g, m):
    k, n, v = g.k(), g.src.int(-1, 4), g.src.below(3)
    bt = g.src.choice(sorted(MUL))
    if v == 2 and g.src.chance(1, 5):
        bt = g.src.choice(["Zzz", "ND", "int"])
    ok = n >= 0 and bt in MUL
    code = [5, k, g.s(bt), n, v]
    o = O("mul", bt, 1, bytearray(SZ[MUL[bt][0]] * MUL[bt][1] * n)) if ok else None
    if v == 2:
        if not ok:
            m.new_exc(); m.err(1)
            return code
        m.t(0)
    m.put(k, o if v == 1 else m.mortal(o))
    return code


def op_proto(g, m):
    k, s, n, v = g.k(), g.k(), g.src.int(-2, 4), g.src.below(4)
    p = m.slot[s]
    o = None
    if v < 2:
        if p is not None and p.dim > 0 and n >= 0:
            o = O(p.k, p.bt, p.dim, bytearray(p.esize() * n)) if p.k != "oarr" else new_oarr(p.bt, p.dim, n)
    elif p is not None and n >= 0:
        o = new_oarr(p.bt, p.dim + 1, n)
    m.t(o is not None)
    m.put(k, o if v in (1, 3) else m.mortal(o))
    return [6, k, s, n, v]


def op_obj(g, m):
    k, v, i = g.k(), g.src.below(3), g.src.int(1, 400)
    bt = g.src.choice(["ND", "ND", "ND", "NE", "NP"])
    if v == 2 and g.src.chance(1, 6):
        bt = g.src.choice(["Zzz", ""])
    code = [7, k, g.s(bt), v, i]
    if bt not in CLASSES:
        m.new_exc(); m.err(1)
        return code
    o = O("obj", bt, 0, {f: (0 if is_num(t) else None) for f, t in FIELDS[bt].items()})
    if v == 2:
        m.t(0)
    m.put(k, o if v == 1 else m.mortal(o))
    o.v["id"] = i
    m.t(0)
    return code


def oarr_slot(g, m, nonempty=True, bt=None):
    return g.pick(lambda o: o is not None and o.k == "oarr" and (o.v or not nonempty) and (bt is None or (o.bt == bt and o.dim == 1)))


def value_slot(g, m, bt, dim):
    c = [i for i, o in enumerate(m.slot) if compat(o, bt, dim)]
    return g.src.choice(c) if c else None


def op_setelem(g, m):
    st = g.src.chance(1, 4)
    a = oarr_slot(g, m, bt="string" if st else None)
    if a is None:
        return None
    A = m.slot[a]
    s = value_slot(g, m, A.bt, A.dim - 1)
    if s is None or cyclic(A, m.slot[s]):
        return None
    i = g.src.below(len(A.v))
    x = m.slot[s]
    m.inc(x)
    old, A.v[i] = A.v[i], x
    m.dec(old)
    return [8, a, i, s, int(st)]


def cyclic(a, x):
    """Storing x in a would make a cycle of strong references."""
    seen, st = set(), [x]
    while st:
        o = st.pop()
        if o is None or id(o) in seen:
            continue
        if o is a:
            return True
        seen.add(id(o))
        if o.k == "obj":
            st += [v for f, v in o.v.items() if isinstance(v, O)]
        elif o.k == "oarr":
            st += o.v
    return False


def op_getelem(g, m):
    st = g.src.chance(1, 4)
    a = oarr_slot(g, m, bt="string" if st else None)
    if a is None:
        return None
    A = m.slot[a]
    i, k = g.src.below(len(A.v)), g.k()
    m.put(k, A.v[i])
    return [9, k, a, i, int(st)]


def op_numelem(g, m):
    a = g.pick(lambda o: o is not None and (o.k == "num" or (o.k == "mul")) and o.v)
    if a is None:
        return None
    A = m.slot[a]
    t = A.bt if A.k == "num" else MUL[A.bt][0]
    n = len(A.v) // SZ[t]
    i, w = g.src.below(n), g.src.below(2)
    v = 0
    if w:
        v = g.num(t)
        struct.pack_into("<" + FMT[t], A.v, i * SZ[t], v)
    else:
        m.t(bits_of(t, struct.unpack_from("<" + FMT[t], A.v, i * SZ[t])[0]))
    return [10, a, NUMT.index(t), i, w, raw(t, v)]


def op_info(g, m):
    s = g.k()
    o = m.slot[s]
    k = o.k if o is not None else ""
    m.t(k == "str", k == "obj", k == "obj" and o.bt == "NP", k in ("num", "mul", "oarr"), k == "oarr", k == "num", k == "mul", o.ro if o is not None else 0)
    if o is not None:
        if k == "str" and o.ptr:
            m.tr.append(("*",))
        else:
            m.t(o.length())
        m.t(o.dim)
        m.t(o.tname().encode(), o.bt.encode(), o.tname().encode(), 1, 1)
        if o.dim:
            m.t(o.esize())
    return [11, s]


def op_isa(g, m):
    s, d = g.k(), g.src.weighted([(5, 0), (4, 1), (2, 2)])
    bt = g.src.choice(BTN)
    o = m.slot[s]
    if o is not None and g.src.chance(1, 3):
        bt, d = o.bt, o.dim
    if bt == "object" and d > 1:
        return None
    if d == 0 and (is_num(bt) or bt in MUL):
        return None
    known = bt in KNOWN_BT
    r = isa(o, bt, d) if known else 0
    t = int(o is not None and o.bt == bt and o.dim == d)
    m.t(r, t, r if known else -1, t if known and o is not None else -1)
    return [12, s, g.s(bt), d]


def op_elemisa(g, m):
    a = oarr_slot(g, m, nonempty=False)
    if a is None:
        return None
    s = g.k()
    A = m.slot[a]
    m.t(isa(m.slot[s], A.bt, A.dim - 1))
    return [13, a, s]


def plain_str(o):
    return o is not None and o.k == "str" and not o.ptr


def op_concat(g, m):
    a, b = g.pick(plain_str), g.pick(plain_str)
    if a is None or b is None or len(m.slot[a].v) > 500:
        return None
    k, nm = g.k(), g.src.below(2)
    o = O("str", "string", 0, bytearray(m.slot[a].v + m.slot[b].v))
    m.put(k, o if nm else m.mortal(o))
    return [14, k, a, b, nm]


def op_shorten(g, m):
    s = g.pick(plain_str) if g.src.chance(3, 4) else g.k()
    if s is None:
        return None
    o = m.slot[s]
    if o is not None and o.k == "str" and o.ptr:
        return None
    n = g.src.int(-1, (len(o.v) if o is not None and o.k == "str" else 3) + 1)
    if o is not None and o.k == "str" and not o.ro and 0 <= n < len(o.v):
        del o.v[n:]
    return [15, s, n]


def op_ro(g, m):
    s = g.k()
    o = m.slot[s]
    if o is not None and o.k == "str":
        o.ro = 1
    return [16, s]


def op_copy(g, m):
    s = g.pick(lambda o: o is None or (plain_str(o) or o.k in ("num", "mul")))
    if s is None:
        return None
    k, nm, o = g.k(), g.src.below(2), m.slot[s]
    c = None if o is None else O(o.k, o.bt, o.dim, bytearray(o.v))
    m.put(k, c if nm else m.mortal(c))
    return [17, k, s, nm]


def op_dump(g, m):
    s, v = g.k(), g.src.below(3)
    if m.slot[s] is None and v == 2:
        v = 0
    m.t(1)
    return [18, s, v]


def conv(dst, v, src):
    return sem.conv(src, dst, v)


def op_getfield(g, m):
    s, t = g.obj(), g.src.below(6)
    o = m.slot[s]
    if g.src.chance(1, 3):
        f = g.fname(o)
    else:
        f = g.fname(o, lambda x: is_num(x) and NUMT.index(x) <= t)
    ft = fields_of(o).get(f)
    code = [19, s, g.s(f), t]
    if ft is None or not is_num(ft) or NUMT.index(ft) > t:
        m.new_exc(); m.err(1)
    else:
        m.t(0, bits_of(NUMT[t], conv(NUMT[t], o.v[f], ft)))
    return code


def op_setfield(g, m):
    s, t = g.obj(), g.src.below(6)
    o = m.slot[s]
    f = g.fname(o) if g.src.chance(1, 3) else g.fname(o, lambda x: is_num(x) and NUMT.index(x) >= t)
    ft = fields_of(o).get(f)
    if f == "id" and ft:
        return None
    v = g.num(NUMT[t])
    code = [20, s, g.s(f), t, raw(NUMT[t], v)]
    if ft is None or not is_num(ft) or NUMT.index(ft) < t:
        m.new_exc(); m.err(1)
    else:
        o.v[f] = conv(ft, v, NUMT[t])
        m.t(0)
    return code


def op_field(g, m):
    s = g.pick(lambda o: o is not None and o.dim == 0 and o.k in ("obj", "str"))
    if s is None:
        return None
    o = m.slot[s]
    f = g.fname(o, is_num)
    ft = fields_of(o).get(f)
    w = g.src.below(2) if f != "id" else 0
    if ft is None:
        m.t(0, 1)
        return [21, s, g.s(f), 0, 0, 0]
    if not is_num(ft):
        return None
    v = g.num(ft)
    m.t(1, 1)
    if w:
        o.v[f] = v
    else:
        m.t(bits_of(ft, o.v[f]))
    return [21, s, g.s(f), NUMT.index(ft), w, raw(ft, v)]


def op_objfield(g, m):
    v, k = g.src.below(8), g.k()
    s = g.obj(v not in (4, 5))
    o = m.slot[s]
    f = g.fname(o, lambda t: not is_num(t))
    ft = fields_of(o).get(f)
    ok = ft is not None and not is_num(ft)
    code = [22, s, g.s(f), v, k]
    if v in (4, 5) and not ok:
        return None
    if ok and v in (2, 3, 5, 7):
        kk = value_slot(g, m, ft, 0)
        if kk is None or (cyclic(o, m.slot[kk]) and m.slot[kk] is not None):
            return None
        code[4] = kk
        m.setf(o, f, m.slot[kk])
        if v != 5:
            m.t(0)
        return code
    if ok and v == 6:
        x = o.v[f]
        if x is not None and (x.k != "str" or x.ptr):
            return None
        m.t(0, None if x is None else bytes(x.v).split(b"\0")[0])
        return code
    if not ok:
        m.new_exc(); m.err(1)
        return code
    if v != 4:
        m.t(0)
    m.put(k, o.v[f])
    return code


def op_cvar(g, m):
    t, w = g.src.below(8), g.src.below(2)
    bt = g.src.weighted([(12, "ND"), (1, "NE"), (1, "Zzz"), (1, "int")])
    f = g.src.choice(sorted(CVARS) + ["$Z"]) if g.src.chance(1, 3) else g.src.choice([n for n, x in CVARS.items() if (t < 6 and x == NUMT[t]) or (t == 6 and x == "object") or (t == 7 and x == "string")])
    ft = CVARS.get(f) if bt == "ND" else None
    if t < 6:
        ok = ft is not None and is_num(ft) and (NUMT.index(ft) >= t if w else NUMT.index(ft) <= t)
        v = g.num(NUMT[t])
        code = [23, g.s(bt), g.s(f), t, w, raw(NUMT[t], v)]
        if not ok:
            m.new_exc(); m.err(1)
        elif w:
            m.cv[f] = conv(ft, v, NUMT[t])
            m.t(0)
        else:
            m.t(0, bits_of(NUMT[t], conv(NUMT[t], m.cv[f], ft)))
        return code
    ok = ft is not None and not is_num(ft)
    k = g.k()
    if ok and w:
        k = value_slot(g, m, ft, 0)
        if k is None:
            return None
        m.inc(m.slot[k])
        old, m.cv[f] = m.cv[f], m.slot[k]
        m.dec(old)
        m.t(0)
    elif ok:
        m.put(k, m.cv[f])
        m.t(0)
    else:
        m.new_exc(); m.err(1)
    return [23, g.s(bt), g.s(f), t, w, k]


def op_cvar2(g, m):
    if g.src.chance(1, 8):
        m.t(0)
        return [24, g.s(g.src.choice(["Zzz", "NE", "ND"])), g.s("$Z"), 0, 0, 0]
    f = g.src.choice(sorted(CVARS))
    ft, w = CVARS[f], g.src.below(2)
    m.t(1)
    if is_num(ft):
        v = g.num(ft)
        if w:
            m.cv[f] = v
        else:
            m.t(bits_of(ft, m.cv[f]))
        return [24, g.s("ND"), g.s(f), NUMT.index(ft), w, raw(ft, v)]
    k = g.k()
    if w:
        k = value_slot(g, m, ft, 0)
        if k is None:
            return None
        m.inc(m.slot[k])
        old, m.cv[f] = m.cv[f], m.slot[k]
        m.dec(old)
    else:
        m.put(k, m.cv[f])
    return [24, g.s("ND"), g.s(f), 6 if ft == "object" else 7, w, k]


def op_enter(g, m):
    if len(m.scopes) >= 40:
        return None
    m.scopes.append(len(m.mort))
    return [25]


def op_leave(g, m):
    if not m.scopes:
        return None
    m.leave(m.scopes.pop())
    return [26]


def op_mortal(g, m):
    s = g.k()
    m.mortal(m.slot[s])
    m.t(1)
    return [27, s]


def op_move(g, m):
    k, s = g.k(), g.src.weighted([(3, -1), (5, None)])
    s = g.k() if s is None else s
    m.put(k, None if s < 0 else m.slot[s])
    return [28, k, s]


def op_weak(g, m):
    s = g.pick(lambda o: o is not None and o.k == "obj")
    if s is None:
        return None
    o = m.slot[s]
    f = g.src.choice([f for f, t in sorted(fields_of(o).items()) if not is_num(t)])
    v = g.src.below(3)
    x = o.v[f]
    if v == 0:
        if x is not None and f not in o.weak:
            if x.rc == 1:
                o.v[f] = None
                m.dec(x)
            else:
                o.weak.add(f)
                x.back.append((o, f))
                x.rc -= 1
        m.t(1)
    elif v == 1:
        m.t(f in o.weak)
    elif x is not None and f in o.weak:
        o.weak.discard(f)
        x.back.remove((o, f))
        x.rc += 1
    return [29, s, g.s(f), v]


def op_calc(g, m):
    b, i, l, d, f, h = g.num("byte"), g.num("int"), g.num("long"), g.num("double"), g.num("float"), g.num("short")
    m.tr.append(("d", sem.bits64(d)))
    m.tr.append(("f", sem.bits32(f)))
    m.t(0, sem.wrap("long", b + i * 3 + l * 5 + h * 7))
    return [30, b, i, l, raw("double", d), raw("float", f), h, g.src.below(2)]


def op_call(g, m):
    k, s, v = g.k(), g.k(), g.src.below(3)
    bt = g.src.weighted([(12, "ND"), (1, "NE"), (1, "Zzz")])
    mn = g.src.choice(["make", "echo", "echo", "drop", "boom", "boom2", "nosuch", "get"])
    code = [31, k, g.s(bt), g.s(mn), s, v]
    if bt != "ND" or mn in ("nosuch", "get"):
        if v:
            m.t(0)
        else:
            m.new_exc(); m.err(1)
        return code
    x = m.slot[s]
    if v:
        m.t(1)
    if mn in ("boom", "boom2"):
        if mn == "boom":
            m.dead.append(-1700)
        m.new_exc(); m.err(1, "Error" if mn == "boom" else "NErr")
        return code
    m.t(0)
    r = None
    if mn == "make":
        r = O("obj", "ND", 0, {f: (0 if is_num(t) else None) for f, t in FIELDS["ND"].items()})
        r.v["id"] = 500
        r.v["o"] = x
        m.inc(x)
    elif mn == "echo":
        r = x
    else:
        m.dead.append(-1600)
    if v != 2:
        m.mortal(r)
    m.put(k, r)
    return code


def own(bt, mn):
    return {"ND": ("get", "name", "req", "bang"), "NE": ("name", "only"), "NP": ("get",)}.get(bt, ()).__contains__(mn)


def run_inst(m, o, owner, mn):
    """The result of a method or None for an exception."""
    if mn == "bang":
        return None
    if owner == "NP":
        return o.v["id"] + 9
    return {"get": o.v["id"], "req": o.v["id"] + 3, "name": 2 if owner == "NE" else 1, "only": o.v.get("x", 0)}[mn]


def op_inst(g, m):
    v = g.src.below(2)
    s = g.obj(not v)
    o = m.slot[s]
    mn = g.src.choice(["get", "name", "name", "req", "bang", "only", "nosuch", "echo"])
    stat = g.src.below(2)
    if v and (o is None or o.k != "obj"):
        return None
    if stat:
        bt = g.src.weighted([(6, "ND"), (3, "NE"), (2, "NP"), (1, "NI"), (1, "Zzz")])
        if v and not compat(o, bt, 0):
            return None
        if bt == "NI":
            return None
        code = [32, s, g.s(mn), g.s(bt), v]
        found = own(bt, mn)
        if v:
            m.t(found)
            if not found:
                return code
        elif not found or o is None or isa(o, bt, 0) != 1:
            m.new_exc(); m.err(1)
            return code
        owner = bt
    else:
        code = [32, s, g.s(mn), -1, v]
        owner = None
        if o is not None and o.k == "obj":
            c = o.bt
            while c and owner is None:
                if own(c, mn):
                    owner = c
                c = PARENT.get(c)
        if v:
            m.t(owner is not None)
            if owner is None:
                return code
        elif owner is None:
            m.new_exc(); m.err(1)
            return code
    r = run_inst(m, o, owner, mn)
    if r is None:
        m.new_exc(); m.err(1)
    else:
        m.t(0, sem.wrap("int", r))
    return code


def op_exc(g, m):
    v = g.src.below(4)
    if v == 0:
        s = g.pick(lambda o: o is None or o.k == "str")
        if s is None:
            return None
        m.set_exc(m.slot[s])
    elif v == 1:
        s = g.k()
        m.put(s, m.exc)
    elif v == 2:
        s = g.src.int(-5, 99)
        m.new_exc()
        m.t(1)
    else:
        s = 0
        m.set_exc(None)
    return [33, v, s]


def op_throw(g, m):
    bt = g.src.weighted([(8, "ND"), (1, "Zzz")])
    mn = g.src.choice(["boom", "boom2", "nosuch", "get"])
    s = g.k()
    m.t(2 if bt == "ND" and mn == "boom2" else 1)
    if bt == "ND" and mn == "boom":
        m.dead.append(-1700)
    e = m.new_exc()
    m.put(s, e)
    m.set_exc(None)
    return [34, g.s(bt), g.s(mn), s]


def op_block(g, m):
    i, n = g.src.below(8), g.src.choice([0, 1, 7, 64, 5000])
    if i in m.blocks:
        del m.blocks[i]
        m.t(-1)
    elif n == 0:
        m.t(0, 0)
    else:
        m.blocks[i] = n
        m.t(1, 1, 1)
    return [35, i, n]


def op_strerror(g, m):
    x = g.src.int(1, 40)
    t = os.strerror(x).encode()
    m.t(t, 0, t)
    return [36, x]


def op_show(g, m):
    s = g.k()
    m.t(rec(m.slot[s]))
    return [37, s]


def op_stack(g, m):
    s = g.k()
    m.t(0, 1, 1, 1, m.exc is not None)
    m.dead.append(-1700)
    return [38, s]


def op_ptr(g, m):
    k, v, w = g.k(), g.src.int(0, 1 << 40), g.src.below(3)
    o = O("obj", "NP", 0, {"id": 0, "o": None})
    o.ptr = v
    m.put(k, o if w == 1 else m.mortal(o))
    m.t(v)
    return [39, k, v, w]


def op_setptr(g, m):
    s = g.pick(lambda o: o is not None and o.k == "obj" and o.bt == "NP")
    if s is None:
        return None
    v = g.src.int(0, 1 << 40)
    m.t(v)
    m.slot[s].ptr = v
    return [40, s, v]


def op_bt(g, m):
    bt = g.src.choice(BTN)
    k = bt in KNOWN_BT
    m.t(k)
    for i in range(2):
        if k:
            m.t(0)
        else:
            m.new_exc(); m.err(1)
        if i == 0:
            m.t(k)
    return [41, g.s(bt)]


def op_ctn(g, m):
    bt, d = g.src.choice(["int", "ND", "string", "M_2i", "object"]), g.src.int(0, 3)
    fl = g.src.choice([0, 1, 2])
    if (fl == 1 and (d or bt not in ("int", "M_2i"))) or (fl == 2 and (d or bt != "string")):
        fl = 0
    m.t(("mutable " if fl == 2 else "").encode() + bt.encode() + b"[]" * d + (b"*" if fl == 1 else b""))
    return [42, g.s(bt), d, fl]


def op_box(g, m):
    t = g.src.below(6)
    v = g.num(NUMT[t])
    m.t(0, bits_of(NUMT[t], v))
    return [44, t, raw(NUMT[t], v)]


def op_hasptr(g, m):
    s = g.obj()
    o = m.slot[s]
    f = g.fname(o, lambda t: not is_num(t) and t != "string")
    ft = fields_of(o).get(f)
    x = o.v[f] if ft is not None and not is_num(ft) else None
    if x is not None and x.k != "obj":
        return None
    k = g.k()
    if x is None or x.ptr == 0:
        m.new_exc(); m.err(1)
    else:
        m.t(0)
        m.put(k, x)
    return [45, k, s, g.s(f)]


def op_version(g, m):
    bt = g.src.choice(["ND", "NP", "NE"])
    v = {"ND": b"1.002003", "NP": b"12.340", "NE": None}[bt]
    m.t(v, bits_of("double", float(v) if v else -1.0))
    return [46, g.s(bt)]


def op_strfield(g, m):
    s = g.pick(lambda o: o is not None and o.k == "obj" and o.bt != "NP")
    if s is None:
        return None
    o, w = m.slot[s], g.src.below(2)
    if w:
        k = value_slot(g, m, "string", 0)
        if k is None:
            return None
        m.setf(o, "t", m.slot[k])
    else:
        k = g.k()
        m.put(k, o.v["t"])
    return [47, s, g.s("t"), w, k]


def op_meth(g, m):
    bt = g.src.choice(["ND", "NE", "NP", "Zzz", "int"])
    mn = g.src.choice(["make", "echo", "get", "name", "only", "", "nosuch", "DESTROY"])
    st = bt == "ND" and mn in ("make", "echo")
    ins = own(bt, mn) or (mn == "DESTROY" and bt in ("ND", "NP"))
    m.t(st or ins, st, ins)
    return [48, g.s(bt), g.s(mn)]


def op_cvref(g, m):
    f = g.src.choice(["$O", "$T"])
    k = value_slot(g, m, CVARS[f], 0)
    if k is None:
        return None
    m.inc(m.slot[k])
    old, m.cv[f] = m.cv[f], m.slot[k]
    m.dec(old)
    m.t(0)
    return [49, g.s("ND"), g.s(f), k]


def op_compat(g, m):
    s = g.pick(lambda o: o is not None)
    if s is None:
        return None
    m.t(0, 1, 1, 2)
    return [50, s]


def op_burst(g, m):
    n = g.src.choice([1, 9, 40, 70, 300])
    m.t(n)
    return [51, n]


OPS = [(2, op_burst), (1, op_hasptr), (1, op_version), (2, op_strfield), (1, op_meth), (1, op_cvref), (1, op_compat), (3, op_numarr), (4, op_str), (3, op_oarr), (2, op_muldim), (2, op_mul), (3, op_proto), (9, op_obj), (5, op_setelem), (4, op_getelem), (4, op_numelem),
       (3, op_info), (3, op_isa), (2, op_elemisa), (2, op_concat), (2, op_shorten), (1, op_ro), (2, op_copy), (1, op_dump), (4, op_getfield), (4, op_setfield),
       (3, op_field), (9, op_objfield), (5, op_cvar), (4, op_cvar2), (4, op_enter), (4, op_leave), (2, op_mortal), (7, op_move), (5, op_weak), (2, op_calc),
       (6, op_call), (4, op_inst), (3, op_exc), (2, op_throw), (2, op_block), (1, op_strerror), (3, op_show), (1, op_stack), (2, op_ptr), (1, op_setptr),
       (1, op_bt), (1, op_ctn), (1, op_box)]
NAMES = {f.__name__[3:]: f for w, f in OPS}


def case_for(variant):
    def case(src, ctx):
        m = M()
        g = G(src, m)
        n = src.int(5, 70)
        steps, ops = [], []
        ends_by_die = False
        for _ in range(n):
            f = src.weighted(OPS)
            m.tr, m.dead = [], []
            code = f(g, m)
            if code is None:
                if m.tr or m.dead:
                    raise RuntimeError("op %s left effects" % f.__name__)
                continue
            steps.append((f.__name__[3:], code, m.tr, sorted(m.dead)))
            ops += code
        # the end: clear what the driver would count as leaks
        fin = []
        for v in ("$O", "$T"):
            fin.append([24, g.s("ND"), g.s(v), 6 if v == "$O" else 7, 1, 11])
        m.tr, m.dead = [], []
        m.put(11, None)
        steps.append(("move", [28, 11, -1], m.tr, sorted(m.dead)))
        for v, code in zip(("$O", "$T"), fin):
            m.tr, m.dead = [("i", 1)], []
            old, m.cv[v] = m.cv[v], None
            m.dec(old)
            steps.append(("cvar2", code, m.tr, sorted(m.dead)))
        if src.chance(1, 6):
            ends_by_die = True
            m.tr, m.dead = [], []
            steps.append(("die", [43, 7], [], []))
        else:
            m.tr, m.dead = [], []
            m.set_exc(None)
            steps.append(("exc", [33, 3, 0], [], sorted(m.dead)))
        # the slots and the mortal stack at the end
        m.tr, m.dead = [], []
        for i in range(NSLOT):
            m.put(i, None)
        m.leave(0)
        last = sorted(m.dead)
        ops = [x for s in steps for x in s[1]]

        d = ctx.drv(variant)
        c = d.program(SRC)
        if c.code:
            raise RuntimeError("the classes do not compile: %s" % c.errors[:3])
        text = "\n".join("  %2d %-9s %s" % (i, s[0], s[1][1:]) for i, s in enumerate(steps)) + "\n  strings %r" % (g.strs,)
        try:
            r = d.call("NA", "run", ("arr", "l", list(ops)), ("strs", g.strs or [b""]))
        except drvmod.Crash as e:
            raise pbt.Violation("the native method crashes: %s\n%s" % (str(e)[:1500], text))
        exp_status = 1 if ends_by_die else 0
        if (r.status != "ok") != bool(exp_status):
            raise pbt.Violation("the call ends with status %s, message %r\n%s" % (r.status, (r.msg or b"")[:300], text))
        if not ends_by_die and r.ret != 3:
            raise pbt.Violation("the return value is %r\n%s" % (r.ret, text))
        if ends_by_die and not (r.msg or b"").startswith(b"end 7\n"):
            raise pbt.Violation("the exception is %r\n%s" % (r.msg, text))
        # split the trace
        parts, cur = [], None
        for x in r.trace:
            x = ("i", x) if isinstance(x, int) else x
            if isinstance(x, tuple) and x[0] == "i" and (7770000 <= x[1] < 7771000 or x[1] == 7779999):
                cur = []
                parts.append(cur)
            elif cur is not None:
                cur.append(x)
        if len(parts) != len(steps) + 1:
            raise pbt.Violation("%d of %d operations were traced\n%s" % (len(parts) - 1, len(steps), text))
        for i, (nm, code, tr, dead) in enumerate(steps + [("end", [0], [], last)]):
            got = parts[i]
            gt, gdead = split(got, tr)
            if gt is None or gdead != dead:
                raise pbt.Violation("operation %d (%s %s): traced %r; the model: results %r, destroyed %r\n%s" % (i, nm, code[1:], got[:30], tr[:30], dead, text), key="p24-" + nm)
        if r.leak:
            raise pbt.Violation("%d memory blocks leak\n%s" % (r.leak, text), key="p24-leak")
        rem, tr, out, errt = d.done()
        if rem != 4:
            raise pbt.Violation("%d memory blocks remain in the environment\n%s" % (rem, text), key="p24-leak")
        return pbt.Info(len(steps) >= 11, tags=sorted(set(s[0] for s in steps)), sample=text[:600], digest=str(ops), evals=len(steps))
    return case


def split(got, tr):
    """Separates the destructor records from the results."""
    res, dead, k = [], [], 0
    for x in got:
        if k < len(tr) and match(tr[k], x):
            # a destructor record may look like the next result only when it is negative: prefer the result
            k += 1
            res.append(x)
        elif isinstance(x, tuple) and x[0] == "i" and -2000 <= x[1] <= -1000:
            dead.append(x[1])
        else:
            return None, None
    if k != len(tr):
        return None, None
    return res, sorted(dead)


def match(e, x):
    if e == ("*",):
        return isinstance(x, tuple) and x[0] == "i"
    return same(e, x)


SUITES = [
    Suite("history", case_for("plain"), 15000, 250000, variants=("plain",), chunk=50),
    Suite("history-asan", case_for("asan"), 4000, 60000, variants=("asan",), chunk=25),
]

META = dict(
    statement="For native code, every history of native API calls behaves as documented: objects, strings and arrays are created with the requested type, length and content or not at all, fields, class variables and elements are read and written with the documented conversions and nothing else changes, types are identified and tested exactly, methods are found and called with their arguments, results and exceptions, an invalid name, type or invocant yields an error ID of the Error class and an exception instead of an effect, weak references and scopes release every object exactly when its last reference goes, and no memory block leaks.",
    over=["inputs", "histories"], quant="all histories of native API calls that meet the documented requirements, on pools of objects of every kind of type",
    why="the unit tests call each function once or twice on fresh objects; the release of objects depends on the whole history of scopes, mortals, fields, weak references, class variables and exceptions, and the by-name functions have a product of names, types and invocants to reject",
    files=["lib/SPVM/Builder/src/spvm_api.c", "lib/SPVM/Builder/src/spvm_api_basic_type.c", "lib/SPVM/Builder/include/spvm_native.h", "lib/SPVM/Document/NativeAPI.pm"],
    mech=[("functions of the native API", "spvm_api.c"), ("native mortal stack (push_mortal, enter_scope, leave_scope)", "spvm_api.c"), ("reference counting and weak references", "spvm_api.c")],
    observe=["results and error IDs of each call", "objects destroyed by each call", "types, lengths and contents of objects", "number of live memory blocks"],
    technique="stateful model-based testing of generated histories of API calls",
    note="One native method interprets the generated history; a Python model of objects, reference counts, weak references, scopes and class variables predicts what each call returns and destroys; also with address sanitizer.")
