"""Parser for the textual LLVM IR that clang emits for the code under test."""
import re

TOK = re.compile(r'''c"(?:[^"\\]|\\.)*"|"(?:[^"\\]|\\.)*"|[%@](?:[\w.$-]+|"[^"]*")|![\w.]*|\#\d+|-?\d+\.\d+(?:e[+-]?\d+)?|0x[0-9A-Fa-fKLMHR]+|-?\d+|[a-zA-Z_][\w.]*|\.\.\.|[(){}\[\]<>,=*:|]''')


class Ty:
    __slots__ = ("k", "n", "e", "size", "al", "offs", "name")

    def __init__(self, k, n=0, e=None, name=None):
        self.k, self.n, self.e, self.name = k, n, e, name
        self.size = None

    def __repr__(self):
        return {"i": "i%d" % self.n, "a": "[%d x %r]" % (self.n, self.e), "v": "<%d x %r>" % (self.n, self.e)}.get(self.k, self.k)


class Module:
    def __init__(self):
        self.types = {}
        self.globals = {}
        self.funcs = {}
        self.aliases = {}
        self.declared = set()
        self.triple = ""

    # -- layout
    def lay(self, t):
        if t.size is not None:
            return t
        k = t.k
        if k == "i":
            b = (t.n + 7) // 8
            s = 1
            while s < b:
                s *= 2
            t.size, t.al = s, min(s, 16)
        elif k == "ptr":
            t.size = t.al = 8
        elif k == "double":
            t.size = t.al = 8
        elif k == "float":
            t.size = t.al = 4
        elif k == "x86_fp80":
            t.size = t.al = 16
        elif k == "a":
            self.lay(t.e)
            t.size, t.al = t.e.size * t.n, t.e.al
        elif k == "v":
            self.lay(t.e)
            t.size = (t.e.n if t.e.k == "i" else t.e.size * 8) * t.n // 8
            t.al = min(16, t.size)
        elif k == "s" or k == "ps":
            off, al, offs = 0, 1, []
            for e in t.e:
                self.lay(e)
                if k == "s":
                    off = (off + e.al - 1) // e.al * e.al
                    al = max(al, e.al)
                offs.append(off)
                off += e.size
            t.offs = offs
            t.al = al
            t.size = (off + al - 1) // al * al
        elif k == "n":
            r = self.res(t)
            self.lay(r)
            t.size, t.al = r.size, r.al
        elif k in ("void", "label", "metadata", "opaque", "fn"):
            t.size, t.al = 0, 1
        else:
            raise Exception("layout " + k)
        return t

    def res(self, t):
        while t.k == "n":
            t = self.types[t.name]
        return t


class Val:
    """operand: kind reg/int/glob/null/undef/zero/agg/str/fp/gep/cast"""
    __slots__ = ("k", "v", "ty", "x")

    def __init__(self, k, v, ty, x=None):
        self.k, self.v, self.ty, self.x = k, v, ty, x


class Ins:
    __slots__ = ("op", "d", "ty", "ops", "x", "text")


class Block:
    def __init__(self, name):
        self.name = name
        self.ins = []


class Func:
    pass


SKIPW = set("""noundef nonnull zeroext signext noalias nocapture readonly writeonly readnone returned inreg nofree immarg
 noinline nest swiftself allocptr nosync willreturn dso_local unnamed_addr local_unnamed_addr internal external private
 linkonce_odr weak_odr weak linkonce hidden protected default available_externally common appending thread_local
 noprofile mustprogress tail musttail notail fastcc ccc coldcc externally_initialized inbounds nuw nsw exact nnan ninf nsz arcp contract afn reassoc fast
 disjoint nneg dead_on_unwind writable extern_weak dllimport""".split())


class P:
    def __init__(self, m, s):
        self.m = m
        self.t = TOK.findall(s)
        self.i = 0

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else ""

    def next(self):
        v = self.peek()
        self.i += 1
        return v

    def eat(self, s):
        if self.peek() == s:
            self.i += 1
            return True
        return False

    def need(self, s):
        v = self.next()
        if v != s:
            raise Exception("expected %r got %r in %s" % (s, v, " ".join(self.t)))

    def skip_attrs(self):
        while True:
            w = self.peek()
            if w in SKIPW:
                self.next()
            elif w in ("align", "addrspace", "dereferenceable", "dereferenceable_or_null", "sret", "byval", "elementtype", "allocsize", "memory", "captures", "range", "nofpclass", "preallocated", "inalloca", "byref"):
                self.next()
                if self.peek() == "(":
                    d = 0
                    while True:
                        v = self.next()
                        if v == "(":
                            d += 1
                        elif v == ")":
                            d -= 1
                            if d == 0:
                                break
                elif w == "align":
                    self.next()
            elif w[:1] == "#":
                self.next()
            else:
                return

    def type(self):
        w = self.next()
        if w[0] == "i" and w[1:].isdigit():
            t = Ty("i", int(w[1:]))
        elif w in ("ptr", "void", "double", "float", "label", "metadata", "opaque", "x86_fp80"):
            t = Ty(w)
            if w == "ptr" and self.peek() == "addrspace":
                self.skip_attrs()
        elif w == "[":
            n = int(self.next())
            self.need("x")
            e = self.type()
            self.need("]")
            t = Ty("a", n, e)
        elif w == "<" and self.peek() == "{":
            self.next()
            t = Ty("ps", 0, self.tlist("}"))
            self.need(">")
        elif w == "<":
            n = int(self.next())
            self.need("x")
            e = self.type()
            self.need(">")
            t = Ty("v", n, e)
        elif w == "{":
            t = Ty("s", 0, self.tlist("}"))
        elif w[0] == "%":
            t = Ty("n", name=w.replace('"', ''))
        else:
            raise Exception("type %r in %s" % (w, " ".join(self.t)))
        # function type
        while self.peek() == "(":
            d = 0
            while True:
                v = self.next()
                if v == "(":
                    d += 1
                elif v == ")":
                    d -= 1
                    if d == 0:
                        break
            t = Ty("fn", 0, t)
        return t

    def tlist(self, end):
        out = []
        if self.eat(end):
            return out
        while True:
            out.append(self.type())
            if self.eat(end):
                return out
            self.need(",")

    def val(self, ty):
        w = self.next()
        if w[0] == "%":
            return Val("reg", w.replace('"', ''), ty)
        if w[0] == "@":
            return Val("glob", w.replace('"', ''), ty)
        if w == "true":
            return Val("int", 1, ty)
        if w == "false":
            return Val("int", 0, ty)
        if w == "null":
            return Val("int", 0, ty)
        if w in ("undef", "poison"):
            return Val("undef", None, ty)
        if w == "zeroinitializer" or w == "none":
            return Val("zero", None, ty)
        if w[0] == "c" and w[1:2] == '"':
            return Val("str", unesc(w[2:-1]), ty)
        if w in ("[", "{") or (w == "<" and self.peek() != "{"):
            end = {"[": "]", "{": "}", "<": ">"}[w]
            out = []
            if not self.eat(end):
                while True:
                    t = self.type()
                    out.append(self.val(t))
                    if self.eat(end):
                        break
                    self.need(",")
            return Val("agg", out, ty)
        if w == "<" and self.peek() == "{":
            self.next()
            out = []
            if not self.eat("}"):
                while True:
                    t = self.type()
                    out.append(self.val(t))
                    if self.eat("}"):
                        break
                    self.need(",")
            self.need(">")
            return Val("agg", out, ty)
        if w == "getelementptr":
            self.skip_attrs()
            self.need("(")
            st = self.type()
            self.need(",")
            ops = self.ops(")")
            return Val("gep", ops, ty, st)
        if w in ("ptrtoint", "inttoptr", "bitcast", "trunc", "addrspacecast"):
            self.need("(")
            t = self.type()
            v = self.val(t)
            self.need("to")
            self.type()
            self.need(")")
            return Val("cast", v, ty, w)
        if w[:2] == "0x":
            import struct
            return Val("fp", struct.unpack(">d", bytes.fromhex(w[2:].rjust(16, "0")))[0], ty)
        if "." in w:
            return Val("fp", float(w), ty)
        if w.lstrip("-").isdigit():
            if ty.k in ("double", "float"):
                return Val("fp", float(w), ty)
            return Val("int", int(w) & ((1 << ty.n) - 1) if ty.k == "i" else int(w), ty)
        raise Exception("value %r in %s" % (w, " ".join(self.t)))

    def ops(self, end):
        out = []
        if self.eat(end):
            return out
        while True:
            if self.peek() == "...":
                self.next()
            else:
                t = self.type()
                self.skip_attrs()
                if t.k == "metadata":
                    while self.peek() not in (",", end):
                        self.next()
                    out.append(None)
                else:
                    out.append(self.val(t))
            if self.eat(end):
                return out
            self.need(",")

    def tv(self):
        t = self.type()
        self.skip_attrs()
        return self.val(t)


def unesc(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == "\\":
            if s[i + 1] == "\\":
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


BIN = set("add sub mul udiv sdiv urem srem shl lshr ashr and or xor fadd fsub fmul fdiv frem".split())
CAST = set("trunc zext sext bitcast ptrtoint inttoptr uitofp sitofp fptoui fptosi fpext fptrunc addrspacecast".split())


def parse_ins(m, line):
    I = Ins()
    I.text = line
    I.d = None
    I.x = None
    I.ty = None
    s = line
    mm = re.match(r'(%(?:[\w.$-]+|"[^"]*")) = ', s)
    if mm:
        I.d = mm.group(1).replace('"', '')
        s = s[mm.end():]
    p = P(m, s)
    op = p.next()
    while op in ("tail", "musttail", "notail"):
        op = p.next()
    I.op = op
    if op in BIN:
        p.skip_attrs()
        I.ty = p.type()
        a = p.val(I.ty)
        p.need(",")
        I.ops = [a, p.val(I.ty)]
    elif op in CAST:
        p.skip_attrs()
        a = p.tv()
        p.need("to")
        I.ops = [a]
        I.ty = p.type()
    elif op == "fneg" or op == "freeze":
        p.skip_attrs()
        I.ops = [p.tv()]
        I.ty = I.ops[0].ty
    elif op in ("icmp", "fcmp"):
        p.skip_attrs()
        I.x = p.next()
        t = p.type()
        a = p.val(t)
        p.need(",")
        I.ops = [a, p.val(t)]
        I.ty = Ty("i", 1) if t.k != "v" else Ty("v", t.n, Ty("i", 1))
    elif op == "select":
        p.skip_attrs()
        a = p.tv()
        p.need(",")
        b = p.tv()
        p.need(",")
        I.ops = [a, b, p.tv()]
        I.ty = b.ty
    elif op == "alloca":
        p.skip_attrs()
        I.x = p.type()
        I.ops = []
        if p.eat(",") and p.peek() != "align" and p.peek() != "addrspace":
            I.ops = [p.tv()]
        I.ty = Ty("ptr")
    elif op == "load":
        p.eat("volatile")
        p.eat("atomic")
        I.ty = p.type()
        p.need(",")
        I.ops = [p.tv()]
    elif op == "store":
        p.eat("volatile")
        p.eat("atomic")
        a = p.tv()
        p.need(",")
        I.ops = [a, p.tv()]
    elif op == "getelementptr":
        p.skip_attrs()
        I.x = p.type()
        p.need(",")
        I.ops = []
        while True:
            I.ops.append(p.tv())
            if not p.eat(","):
                break
            if p.peek()[:1] == "!":
                break
        I.ty = I.ops[0].ty
    elif op == "phi":
        p.skip_attrs()
        I.ty = p.type()
        I.ops = []
        while True:
            p.need("[")
            v = p.val(I.ty)
            p.need(",")
            l = p.next().replace('"', '')
            p.need("]")
            I.ops.append((v, l))
            if not p.eat(","):
                break
            if p.peek()[:1] == "!":
                break
    elif op == "br":
        if p.peek() == "label":
            p.next()
            I.ops = []
            I.x = [p.next().replace('"', '')]
        else:
            c = p.tv()
            p.need(",")
            p.need("label")
            a = p.next().replace('"', '')
            p.need(",")
            p.need("label")
            I.ops = [c]
            I.x = [a, p.next().replace('"', '')]
    elif op == "switch":
        c = p.tv()
        p.need(",")
        p.need("label")
        d = p.next().replace('"', '')
        p.need("[")
        cases = []
        while not p.eat("]"):
            v = p.tv()
            p.need(",")
            p.need("label")
            cases.append((v.v, p.next().replace('"', '')))
        I.ops = [c]
        I.x = (d, cases)
    elif op == "ret":
        I.ops = []
        if p.peek() != "void":
            I.ops = [p.tv()]
    elif op in ("call", "invoke"):
        p.skip_attrs()
        t = p.type()
        while t.k == "fn":
            t = t.e
        I.ty = t
        p.skip_attrs()
        if p.peek() == "asm":
            I.op = "asm"
            p.next()
            while p.peek() in ("sideeffect", "alignstack", "inteldialect", "unwind"):
                p.next()
            a = p.next()
            p.need(",")
            I.x = (a, p.next())
            p.need("(")
            I.ops = p.ops(")")
            return I
        c = p.next().replace('"', '')
        p.need("(")
        I.ops = p.ops(")")
        I.x = c
        if op == "invoke":
            p.skip_attrs()
            while p.peek() != "to":
                p.next()
            p.need("to")
            p.need("label")
            n = p.next().replace('"', '')
            p.need("unwind")
            p.need("label")
            I.x = (c, n, p.next().replace('"', ''))
    elif op == "extractelement":
        a = p.tv()
        p.need(",")
        I.ops = [a, p.tv()]
        I.ty = a.ty.e
    elif op == "insertelement":
        a = p.tv()
        p.need(",")
        b = p.tv()
        p.need(",")
        I.ops = [a, b, p.tv()]
        I.ty = a.ty
    elif op == "shufflevector":
        a = p.tv()
        p.need(",")
        b = p.tv()
        p.need(",")
        c = p.tv()
        I.ops = [a, b, c]
        I.ty = Ty("v", c.ty.n, a.ty.e)
    elif op == "extractvalue":
        a = p.tv()
        ix = []
        while p.eat(","):
            if p.peek()[:1] == "!":
                break
            ix.append(int(p.next()))
        I.ops = [a]
        I.x = ix
    elif op == "insertvalue":
        a = p.tv()
        p.need(",")
        b = p.tv()
        ix = []
        while p.eat(","):
            if p.peek()[:1] == "!":
                break
            ix.append(int(p.next()))
        I.ops = [a, b]
        I.x = ix
        I.ty = a.ty
    elif op in ("unreachable", "resume", "landingpad", "fence"):
        I.ops = []
    else:
        raise Exception("instruction " + line)
    return I


def parse(text):
    m = Module()
    lines = text.split("\n")
    i = 0
    n = len(lines)
    # named types first
    for l in lines:
        if l.startswith("%") and " = type " in l:
            a, b = l.split(" = type ", 1)
            m.types[a.replace('"', '')] = P(m, b).type() if b != "opaque" else Ty("opaque")
    while i < n:
        l = lines[i]
        i += 1
        if l.startswith("target triple"):
            m.triple = l.split('"')[1]
        elif l.startswith("@"):
            mm = re.match(r'(@(?:[\w.$-]+|"[^"]*")) = ', l)
            name = mm.group(1).replace('"', '')
            rest = l[mm.end():]
            p = P(m, rest)
            p.skip_attrs()
            k = p.next()
            if k == "alias":
                p.type()
                p.need(",")
                p.type()
                m.aliases[name] = p.next().replace('"', '')
                continue
            assert k in ("global", "constant"), l[:200]
            t = p.type()
            ini = None
            if not re.match(r'.*\bexternal\b', rest.split("global")[0].split("constant")[0]):
                if p.i < len(p.t) and p.peek() != ",":
                    ini = p.val(t)
            m.globals[name] = (t, ini, k == "constant")
        elif l.startswith("declare"):
            mm = re.search(r'@((?:[\w.$-]+|"[^"]*"))\(', l)
            m.declared.add("@" + mm.group(1).replace('"', ''))
        elif l.startswith("define"):
            p = P(m, l[6:])
            p.skip_attrs()
            f = Func()
            f.rty = p.type()
            p.skip_attrs()
            f.name = p.next().replace('"', '')
            p.need("(")
            f.args = []
            f.argtys = []
            while not p.eat(")"):
                if p.eat("..."):
                    continue
                t = p.type()
                p.skip_attrs()
                f.argtys.append(t)
                f.args.append(p.next().replace('"', ''))
                p.eat(",")
            f.blocks = []
            cur = None
            nextnum = len(f.args)
            while True:
                l = lines[i]
                i += 1
                if l == "}":
                    break
                if not l.strip():
                    continue
                mm = re.match(r'((?:[\w.$-]+|"[^"]*")):', l)
                if mm and not l.startswith(" "):
                    cur = Block("%" + mm.group(1).replace('"', ''))
                    f.blocks.append(cur)
                    continue
                if cur is None:
                    cur = Block("%" + str(nextnum))
                    f.blocks.append(cur)
                s = l.strip()
                if s.startswith("switch") and not s.endswith("]"):
                    while not s.endswith("]"):
                        s += " " + lines[i].strip()
                        i += 1
                if re.match(r'(%\S+ = )?landingpad', s):
                    while lines[i].strip().startswith(("catch", "cleanup", "filter")):
                        i += 1
                elif re.search(r'\binvoke\b', s) and " unwind label" not in s:
                    s += " " + lines[i].strip()
                    i += 1
                if s.startswith("#dbg"):
                    continue
                s = re.sub(r', ![\w.]+ !\d+.*$', '', s)
                cur.ins.append(parse_ins(m, s))
            m.funcs[f.name] = f
    return m
