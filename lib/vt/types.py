"""A model of the documented assignment and cast requirements over a random universe of classes and interfaces.

A type is (name, dimension); the name "mstring" is mutable string, a name ending in '*' a reference type."""
from . import sem

NUM = sem.NUM
BOX = {"byte": "Byte", "short": "Short", "int": "Int", "long": "Long", "float": "Float", "double": "Double"}
UNBOX = {v: k for k, v in BOX.items()}
SIGS = [": int ()", ": string ()", ": void ()", ": int ($x : int)", ": object ()"]
BODY = {": int ()": "return 1;", ": string ()": "return \"a\";", ": void ()": "", ": int ($x : int)": "return $x;", ": object ()": "return undef;"}


def spell(t):
    n, d = t
    return ("mutable string" if n == "mstring" else n) + "[]" * d


class Universe:
    """Classes K0.. (single inheritance), interfaces N0.. (structural), multi-numeric types."""
    def __init__(self, src, nclass=5, niface=3, uid=""):
        self.parent, self.meths, self.req = {}, {}, {}
        self.classes, self.ifaces = [], []
        self.mulnum = ["M%s_2i" % uid, "M%s_3d" % uid]
        names = ["a", "b", "c"]
        for i in range(nclass):
            c = "K%d%s" % (i, uid)
            self.parent[c] = src.choice(self.classes) if self.classes and src.chance(2, 3) else None
            ms = {}
            for m in names:
                if src.chance(1, 3):
                    inherited = self.lookup(self.parent[c], m) if self.parent[c] else None
                    # an overriding method keeps the signature
                    ms[m] = inherited or (SIGS[0] if src.chance(2, 3) else src.choice(SIGS))
            self.meths[c] = ms
            self.classes.append(c)
        for i in range(niface):
            n = "N%d%s" % (i, uid)
            ms = {}
            for m in names:
                if src.chance(1, 2):
                    ms[m] = (SIGS[0] if src.chance(3, 4) else src.choice(SIGS), src.chance(1, 2))
            if not ms:
                ms["a"] = (SIGS[0], True)
            self.req[n] = ms
            self.ifaces.append(n)

    def lookup(self, c, m):
        while c:
            if m in self.meths[c]:
                return self.meths[c][m]
            c = self.parent[c]
        return None

    def sources(self):
        out = []
        for c in self.classes:
            p = self.parent[c]
            body = "".join("  method %s %s { %s }\n" % (m, s, BODY[s]) for m, s in self.meths[c].items())
            out.append((c, "class %s %s : public {\n%s  has f_%s : int;\n  static method new_%s : %s () { return new %s; }\n%s}\n" % (c, "extends " + p if p else "", "", c.lower(), c.lower(), c, c, body)))
        for n in self.ifaces:
            out.append((n, "class %s : interface_t public {\n%s}\n" % (n, "".join("  %smethod %s %s;\n" % ("required " if r else "", m, s) for m, (s, r) in self.req[n].items()))))
        out.append((self.mulnum[0], "class %s : mulnum_t public { has x : int; has y : int; }" % self.mulnum[0]))
        out.append((self.mulnum[1], "class %s : mulnum_t public { has x : double; has y : double; has z : double; }" % self.mulnum[1]))
        return out

    def uses(self):
        return "".join("  use %s;\n" % c for c in self.classes + self.ifaces + self.mulnum + list(BOX.values()))

    # -- relations
    def is_super(self, a, b):
        """a is a proper super class of b."""
        p = self.parent.get(b)
        while p:
            if p == a:
                return True
            p = self.parent[p]
        return False

    def satisfies(self, x, n):
        """class or interface x satisfies interface n."""
        for m, (sig, req) in self.req[n].items():
            if x in self.req:
                s = self.req[x].get(m)
                s = s and s[0]
            else:
                s = self.lookup(x, m)
            if s is None:
                if req:
                    return False
            elif not self.sig_ok(sig, s):
                return False
        return True

    @staticmethod
    def sig_ok(i, m):
        """The method with signature m may stand for the interface method with signature i."""
        if i == m:
            return True
        # ": object ()" may be implemented by a method that returns any object type
        if i == ": object ()" and m == ": string ()":
            return True
        # the interface method has at least the arguments the method requires
        if i == ": int ($x : int)" and m == ": int ()":
            return True
        return False

    def kind(self, t):
        n, d = t
        if n == "undef":
            return "undef"
        if n.endswith("*"):
            return "ref"
        if d:
            return "array"
        if n in NUM:
            return "num"
        if n in ("string", "mstring"):
            return "string"
        if n in UNBOX:
            return "box"
        if n == "object":
            return "object"
        if n in self.parent:
            return "class"
        if n in self.req:
            return "iface"
        if n in self.mulnum:
            return "mulnum"
        raise ValueError(t)

    def is_object(self, t):
        return self.kind(t) in ("array", "string", "box", "object", "class", "iface")

    def is_objarray(self, t):
        """An array whose elements are objects."""
        n, d = t
        return d >= 2 or (d == 1 and n not in NUM and n not in self.mulnum)

    def assignable(self, dst, src):
        """True/False; None where the documentation leaves it open."""
        kd, ks = self.kind(dst), self.kind(src)
        if kd == "num":
            if ks == "num":
                return sem.RANK[dst[0]] >= sem.RANK[src[0]]
            if ks == "box":
                return UNBOX[src[0]] == dst[0]
            return ks == "object"
        if kd in ("mulnum", "ref"):
            return dst == src
        if kd == "string":
            if ks == "string":
                return not (dst[0] == "mstring" and src[0] == "string")
            return ks in ("num", "undef")
        if kd == "box":
            if ks == "num":
                return BOX[src[0]] == dst[0]
            return ks == "undef" or dst == src
        if kd == "class":
            return ks == "undef" or (ks == "class" and (dst == src or self.is_super(dst[0], src[0])))
        if kd == "iface":
            if ks == "undef" or dst == src:
                return True
            if ks == "box":
                return None
            return ks in ("class", "iface") and self.satisfies(src[0], dst[0])
        if kd == "object":
            return ks in ("num", "undef") or self.is_object(src)
        if kd == "array":
            if ks == "undef":
                return True
            if ks != "array":
                return False
            dn, dd = dst
            sn, sd = src
            dn, sn = [("string" if x == "mstring" else x) for x in (dn, sn)]
            if dn == "object":
                if dd == 1:
                    return self.is_objarray(src)
                # object[][]: exactly
                return (sn, sd) == (dn, dd)
            if dd != sd:
                return False
            if dn == sn:
                return True
            if dn in self.parent and sn in self.parent:
                return self.is_super(dn, sn)
            if dn in self.req:
                if sn in UNBOX:
                    return None
                return (sn in self.parent or sn in self.req) and self.satisfies(sn, dn)
            return False
        raise ValueError((dst, src))

    def castable(self, dst, src):
        kd, ks = self.kind(dst), self.kind(src)
        if kd == "num" and ks in ("num", "object"):
            return True
        if kd == "num" and ks == "string":
            return True
        a = self.assignable(dst, src)
        if a or a is None:
            return a
        if kd == "string":
            if src == ("byte", 1):
                return True
            return ks in ("string", "object")
        if kd == "box":
            return ks == "object"
        if kd == "class":
            if ks == "iface":
                return True if self.satisfies(dst[0], src[0]) else None
            return ks == "object" or (ks == "class" and self.is_super(src[0], dst[0]))
        if kd == "iface":
            if ks == "iface":
                return None
            return ks == "object"
        if kd == "array":
            dn, dd = dst
            sn, sd = src
            if ks == "object":
                return True
            if dst == ("byte", 1) and ks == "string":
                return True
            if src == ("object", 1) and dst != ("object", 1):
                if dd == 1 and (dn in NUM or dn in self.mulnum):
                    return False
                return True
            if ks == "array" and dd == sd:
                if dn in self.parent and sn in self.parent:
                    return self.is_super(sn, dn)
                if dn in self.req and sn in self.req:
                    return None
                if dn in self.parent and sn in self.req:
                    return None
            if ks == "array" and sn == "object" and sd >= 2:
                return None
            return False
        return False

    def runtime(self, dst, dyn):
        """An object of the dynamic type may be used as the object type dst."""
        return self.assignable(dst, dyn)

    # -- drawing
    def draw(self, src, refs=True, undef=False):
        k = src.weighted([(4, "class"), (3, "num"), (3, "string"), (2, "box"), (2, "object"), (3, "iface"), (7, "array"), (1, "mulnum"), (1, "ref")] + ([(1, "undef")] if undef else []))
        if k == "num":
            return (src.choice(NUM), 0)
        if k == "string":
            return (src.choice(["string", "mstring"]), 0)
        if k == "box":
            return (src.choice(sorted(UNBOX)), 0)
        if k == "object":
            return ("object", 0)
        if k == "class":
            return (src.choice(self.classes), 0)
        if k == "iface":
            return (src.choice(self.ifaces), 0)
        if k == "mulnum":
            return (self.mulnum[src.below(2)], 0)
        if k == "undef":
            return ("undef", 0)
        if k == "ref":
            if not refs:
                return ("int", 0)
            return (src.choice(NUM) + "*", 0)
        n = src.weighted([(4, "class"), (3, "num"), (2, "string"), (3, "object"), (3, "iface"), (1, "box"), (1, "mulnum")])
        n = {"class": self.classes, "num": list(NUM), "string": ["string"], "object": ["object"], "iface": self.ifaces, "box": sorted(UNBOX), "mulnum": self.mulnum}[n]
        n = src.choice(n)
        d = 1 if n == "object" else src.weighted([(5, 1), (2, 2), (1, 3)])
        return (n, d)

    def value(self, src, t, pre):
        """An expression of exactly this static type (statements appended to pre)."""
        k = self.kind(t)
        v = "$e%d" % len(pre)
        if k == "undef":
            return "undef"
        if k == "ref":
            pre.append("my %s_b : %s = 1; my %s = \\%s_b;" % (v, t[0][:-1], v, v))
        elif k == "mulnum":
            pre.append("my %s : %s;" % (v, t[0]))
        elif k == "num":
            pre.append("my %s : %s = 7;" % (v, t[0]))
        elif k == "string":
            pre.append("my %s : %s = %s;" % (v, spell(t), "(mutable string)new_string_len 3" if t[0] == "mstring" else '"abc"'))
        elif k == "box":
            pre.append("my %s : %s = %s->new(7);" % (v, t[0], t[0]))
        else:
            pre.append("my %s : %s = undef;" % (v, spell(t)))
        return v
