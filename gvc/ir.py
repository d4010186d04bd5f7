"""Front end: textual LLVM IR (clang -O0, produced from /repo on every run) -> instruction objects.

Only what clang 18 -O0 -fno-exceptions emits for this code base is accepted; anything else raises
Unsupported, which ends the run as an error (never as a verdict)."""
import re, struct
from fractions import Fraction


class Unsupported(Exception):
    pass


# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ("k", "a", "n", "name", "_size", "_align", "_offs")

    def __init__(s, k, a=None, n=None, name=None):
        s.k = k; s.a = a; s.n = n; s.name = name
        s._size = None; s._align = None; s._offs = None

    def __repr__(s):
        if s.k == "i":
            return "i%d" % s.n
        if s.k == "named":
            return "%" + s.name
        if s.k == "arr":
            return "[%d x %r]" % (s.n, s.a)
        if s.k == "struct":
            return "{%s}" % ",".join(map(repr, s.a))
        return s.k


PTR = Ty("ptr"); DBL = Ty("double"); FLT = Ty("float"); VOID = Ty("void"); FP80 = Ty("x86_fp80")
OPAQUE = Ty("opaque"); LABEL = Ty("label"); META = Ty("metadata")
_INT = {}


def INT(n):
    if n not in _INT:
        _INT[n] = Ty("i", n=n)
    return _INT[n]


TOK = re.compile(r'''\s*(?:
   (?P<cstr>c"(?:[^"\\]|\\.)*")
 | (?P<id>[%@$](?:"[^"]*"|[-\w.$]+))
 | (?P<hex>0x[KMH]?[0-9A-Fa-f]+)
 | (?P<num>-?\d+\.\d+(?:e[+-]?\d+)?|-?\d+)
 | (?P<word>[A-Za-z_][\w.]*)
 | (?P<meta>![\w.]*)
 | (?P<attr>\#\d+)
 | (?P<str>"[^"]*")
 | (?P<p>\.\.\.|[()\[\]{}<>,=*:|])
)''', re.X)


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        m = TOK.match(s, pos)
        if not m:
            if s[pos:].strip() == "":
                break
            raise Unsupported("token: " + s[pos:pos + 40])
        out.append((m.lastgroup, m.group(m.lastgroup)))
        pos = m.end()
    return out


def unq(name):
    if name[1:2] == '"':
        return name[2:-1]
    return name[1:]


class P:
    """token cursor"""

    def __init__(s, toks, mod):
        s.t = toks; s.i = 0; s.mod = mod

    def peek(s):
        return s.t[s.i][1] if s.i < len(s.t) else None

    def kind(s):
        return s.t[s.i][0] if s.i < len(s.t) else None

    def next(s):
        v = s.t[s.i][1]; s.i += 1
        return v

    def accept(s, v):
        if s.i < len(s.t) and s.t[s.i][1] == v:
            s.i += 1
            return True
        return False

    def expect(s, v):
        if not s.accept(v):
            raise Unsupported("expected %s at %r" % (v, s.t[s.i:s.i + 5]))

    # -- types
    def type(s):
        k, v = s.t[s.i]
        if k == "word":
            s.i += 1
            if v == "ptr":
                r = PTR
            elif v == "double":
                r = DBL
            elif v == "float":
                r = FLT
            elif v == "void":
                r = VOID
            elif v == "x86_fp80":
                r = FP80
            elif v == "opaque":
                r = OPAQUE
            elif v == "label":
                r = LABEL
            elif v == "metadata":
                r = META
            elif v[0] == "i" and v[1:].isdigit():
                r = INT(int(v[1:]))
            else:
                raise Unsupported("type " + v)
        elif k == "id":
            s.i += 1
            r = s.mod.named(unq(v))
        elif v == "[":
            s.i += 1
            n = int(s.next()); s.expect("x"); a = s.type(); s.expect("]")
            r = Ty("arr", a=a, n=n)
        elif v == "<":
            s.i += 1
            if s.peek() == "{":
                s.i += 1
                r = Ty("struct", a=s._fields("}"), n=1)
                s.expect(">")
            else:
                n = int(s.next()); s.expect("x"); a = s.type(); s.expect(">")
                r = Ty("vec", a=a, n=n)
        elif v == "{":
            s.i += 1
            r = Ty("struct", a=s._fields("}"), n=0)
        else:
            raise Unsupported("type %r" % (s.t[s.i:s.i + 4],))
        if s.peek() == "(":  # function type
            depth = 0
            while True:
                w = s.next()
                if w == "(":
                    depth += 1
                elif w == ")":
                    depth -= 1
                    if depth == 0:
                        break
        return r

    def _fields(s, end):
        out = []
        while not s.accept(end):
            out.append(s.type())
            s.accept(",")
        return out

    def addrspace(s):
        pass

    # -- operands: ('reg',name) ('glob',name) ('int',v) ('flt',Fraction|'nan'..) ('null',) ('undef',) ('agg',[..]) ('zero',) ('gep',...)
    def operand(s, ty):
        k, v = s.t[s.i]
        if k == "id":
            s.i += 1
            return ("reg", unq(v)) if v[0] == "%" else ("glob", unq(v))
        if k == "num":
            s.i += 1
            if ty.k in ("double", "float", "x86_fp80"):
                return ("flt", v)
            return ("int", int(v))
        if k == "hex":
            s.i += 1
            return ("flt", v)
        if k == "cstr":
            s.i += 1
            return ("cstr", v)
        if k == "word":
            s.i += 1
            if v == "true":
                return ("bool", True)
            if v == "false":
                return ("bool", False)
            if v == "null":
                return ("null",)
            if v in ("undef", "poison"):
                return ("undef",)
            if v == "zeroinitializer":
                return ("zero",)
            if v == "getelementptr":
                s.accept("inbounds")
                if s.accept("inrange"):
                    pass
                s.expect("(")
                st = s.type(); s.expect(",")
                bt = s.type(); base = s.operand(bt)
                idx = []
                while s.accept(","):
                    s.accept("inrange")
                    it = s.type()
                    idx.append((it, s.operand(it)))
                s.expect(")")
                return ("gep", st, base, idx)
            if v in ("inttoptr", "ptrtoint", "bitcast", "addrspacecast", "trunc"):
                s.expect("(")
                t = s.type(); o = s.operand(t); s.expect("to"); t2 = s.type(); s.expect(")")
                return ("cast", v, t, o, t2)
            if v in ("add", "sub", "mul"):
                while s.peek() in ("nuw", "nsw"):
                    s.next()
                s.expect("(")
                t = s.type(); a = s.operand(t); s.expect(","); t2 = s.type(); b = s.operand(t2); s.expect(")")
                return ("cbin", v, t, a, b)
            raise Unsupported("const " + v)
        if v in ("{", "["):
            s.i += 1
            end = "}" if v == "{" else "]"
            out = []
            while not s.accept(end):
                t = s.type()
                out.append((t, s.operand(t)))
                s.accept(",")
            return ("agg", out)
        if v == "<":
            s.i += 1
            if s.peek() in ("{",):
                r = s.operand(ty)
                s.expect(">")
                return r
            out = []
            while not s.accept(">"):
                t = s.type()
                out.append((t, s.operand(t)))
                s.accept(",")
            return ("agg", out)
        raise Unsupported("operand %r" % (s.t[s.i:s.i + 5],))


PARAM_ATTRS_PAREN = {"dereferenceable", "dereferenceable_or_null", "sret", "byval", "align", "memory", "elementtype", "byref", "inalloca", "preallocated", "allocsize", "range", "initializes"}
PARAM_ATTRS = {"noundef", "nonnull", "signext", "zeroext", "noalias", "nocapture", "readonly", "readnone", "writeonly",
               "returned", "immarg", "inreg", "nofree", "swiftself", "allocptr", "allocalign", "nest", "noalias", "writable", "dead_on_unwind", "dead_on_return"}
CALL_PRE = {"tail", "musttail", "notail"}
FMF = {"fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"}
CC = {"fastcc", "ccc", "coldcc"}


def skip_attrs(p):
    byval = None; sret = None
    while True:
        w = p.peek()
        if w in PARAM_ATTRS_PAREN:
            p.next()
            if w == "align" and p.kind() == "num":
                p.next()
                continue
            if p.peek() == "(":
                if w in ("byval", "sret"):
                    p.next()
                    t = p.type()
                    p.expect(")")
                    if w == "byval":
                        byval = t
                    else:
                        sret = t
                    continue
                d = 0
                while True:
                    x = p.next()
                    if x == "(":
                        d += 1
                    elif x == ")":
                        d -= 1
                        if d == 0:
                            break
        elif w in PARAM_ATTRS:
            p.next()
        else:
            break
    return byval, sret


class Inst:
    __slots__ = ("op", "dst", "ty", "args", "x")

    def __init__(s, op, dst=None, ty=None, args=None, x=None):
        s.op = op; s.dst = dst; s.ty = ty; s.args = args; s.x = x

    def __repr__(s):
        return "%s = %s %r %r %r" % (s.dst, s.op, s.ty, s.args, s.x)


class Func:
    def __init__(s, name):
        s.name = name; s.params = []; s.ret = None; s.blocks = {}; s.order = []; s.entry = None
        s.mod = None
        s._cfg = None

    # CFG utilities ------------------------------------------------------------
    def succs(s, b):
        i = s.blocks[b][-1]
        if i.op == "br":
            return list(dict.fromkeys(i.x))
        if i.op == "switch":
            return list(dict.fromkeys([i.x[0]] + [t for _, t in i.x[1]]))
        return []

    def analyse(s):
        if s._cfg:
            return s._cfg
        reach = []
        seen = set()
        st = [(s.entry, iter(s.succs(s.entry)))]
        seen.add(s.entry)
        post = []
        while st:
            b, it = st[-1]
            for n in it:
                if n not in seen:
                    seen.add(n)
                    st.append((n, iter(s.succs(n))))
                    break
            else:
                post.append(b)
                st.pop()
        rpo = post[::-1]
        num = {b: i for i, b in enumerate(rpo)}
        preds = {b: [] for b in rpo}
        for b in rpo:
            for n in s.succs(b):
                preds[n].append(b)

        def domtree(order, num, preds, root):
            idom = {root: root}
            ch = True
            while ch:
                ch = False
                for b in order:
                    if b == root:
                        continue
                    new = None
                    for q in preds[b]:
                        if q in idom:
                            if new is None:
                                new = q
                            else:
                                x, y = q, new
                                while x != y:
                                    while num[x] > num[y]:
                                        x = idom[x]
                                    while num[y] > num[x]:
                                        y = idom[y]
                                new = x
                    if new is not None and idom.get(b) != new:
                        idom[b] = new
                        ch = True
            return idom
        idom = domtree(rpo, num, preds, s.entry)

        def dominates(a, b):
            while True:
                if a == b:
                    return True
                if b == s.entry:
                    return False
                b = idom[b]
        loops = {}
        for b in rpo:
            for n in s.succs(b):
                if dominates(n, b):
                    L = loops.setdefault(n, {"nodes": {n}, "latches": set()})
                    L["latches"].add(b)
                    stack = [b]
                    while stack:
                        x = stack.pop()
                        if x not in L["nodes"]:
                            L["nodes"].add(x)
                            stack.extend(preds[x])
        # post dominators (virtual exit)
        EXIT = "$exit"
        rs = {b: list(s.succs(b)) for b in rpo}
        for b in rpo:
            if not rs[b]:
                t = s.blocks[b][-1].op
                if t != "unreachable":
                    rs[b] = [EXIT]
        rp = {b: [] for b in rpo}
        rp[EXIT] = []
        for b in rpo:
            for n in rs[b]:
                rp[n].append(b)
        # reverse graph rpo from EXIT
        seen = {EXIT}
        post = []
        st = [(EXIT, iter(rp[EXIT]))]
        while st:
            b, it = st[-1]
            for n in it:
                if n not in seen:
                    seen.add(n)
                    st.append((n, iter(rp[n])))
                    break
            else:
                post.append(b)
                st.pop()
        order = post[::-1]
        num2 = {b: i for i, b in enumerate(order)}
        predr = {b: [n for n in rs.get(b, []) if n in num2] for b in order}
        ipdom = domtree(order, num2, predr, EXIT)
        s._cfg = dict(rpo=rpo, num=num, preds=preds, loops=loops, ipdom=ipdom, idom=idom)
        return s._cfg


class Module:
    def __init__(s, path, key):
        s.path = path; s.key = key
        s.types = {}
        s.typedefs = {}
        s.gtext = {}
        s.ftext = {}
        s.funcs = {}
        s.decls = set()
        cur = None
        with open(path) as f:
            # string literals are private to their translation unit
            lines = f.read().replace("@.str", "@.str_" + re.sub(r"\W", "_", str(key))).split("\n")
        s.aliases = {}
        i = 0
        n = len(lines)
        while i < n:
            l = lines[i]
            if l.startswith("define"):
                j = i
                while lines[j] != "}":
                    j += 1
                m = re.search(r'@("[^"]*"|[\w.$]+)\(', l)
                s.ftext[unq("@" + m.group(1))] = (i, j)
                i = j
            elif l.startswith("%"):
                m = re.match(r'%("[^"]*"|[\w.$]+) = type (.*)$', l)
                s.typedefs[unq("%" + m.group(1))] = m.group(2)
            elif l.startswith("@"):
                m = re.match(r'@("[^"]*"|[\w.$]+) = (.*)$', l)
                s.gtext[unq("@" + m.group(1))] = m.group(2)
            elif l.startswith("declare"):
                m = re.search(r'@("[^"]*"|[\w.$]+)\(', l)
                s.decls.add(unq("@" + m.group(1)))
            i += 1
        s.lines = lines
        s._gl = {}

    def named(s, nm):
        t = s.types.get(nm)
        if t is None:
            t = s.types[nm] = Ty("named", name=nm)
            t.a = None
        return t

    def resolve(s, t):
        if t.k != "named":
            return t
        if t.a is None:
            d = s.typedefs.get(t.name)
            if d is None:
                raise Unsupported("unknown type " + t.name)
            t.a = P(tokenize(d), s).type()
        return t.a

    def size(s, t):
        if t._size is None:
            s._lay(t)
        return t._size

    def align(s, t):
        if t._align is None:
            s._lay(t)
        return t._align

    def offsets(s, t):
        if t._offs is None:
            s._lay(t)
        return t._offs

    def _lay(s, t):
        k = t.k
        if k == "i":
            b = 1
            while b * 8 < t.n:
                b *= 2
            t._size = t._align = b
        elif k in ("ptr", "double"):
            t._size = t._align = 8
        elif k == "float":
            t._size = t._align = 4
        elif k == "x86_fp80":
            t._size = t._align = 16
        elif k == "arr":
            t._size = t.n * s.size(t.a); t._align = s.align(t.a)
        elif k == "vec":
            t._size = t._align = t.n * s.size(t.a)
        elif k == "struct":
            off = 0; al = 1; offs = []
            for f in t.a:
                a = 1 if t.n else s.align(f)
                off = (off + a - 1) // a * a
                offs.append(off)
                off += s.size(f)
                al = max(al, a)
            t._size = (off + al - 1) // al * al
            t._align = al; t._offs = offs
        elif k == "named":
            r = s.resolve(t)
            if r.k == "opaque":
                raise Unsupported("size of opaque " + t.name)
            t._size = s.size(r); t._align = s.align(r); t._offs = r._offs
        else:
            raise Unsupported("layout " + k)

    def leaves(s, t, base=0, out=None):
        """[(byte offset, scalar type)]"""
        if out is None:
            out = []
        if t.k == "named":
            return s.leaves(s.resolve(t), base, out)
        if t.k == "struct":
            for o, f in zip(s.offsets(t), t.a):
                s.leaves(f, base + o, out)
        elif t.k == "arr":
            z = s.size(t.a)
            for i in range(t.n):
                s.leaves(t.a, base + i * z, out)
        else:
            out.append((base, t))
        return out

    # ------------------------------------------------------------ globals
    def glob(s, name):
        """-> (type, init operand or None)"""
        if name in s._gl:
            return s._gl[name]
        txt = s.gtext.get(name)
        if txt is None:
            return None
        # linkage words up to 'global' or 'constant'
        m = re.match(r'(.*?)\b(global|constant|alias)\b (.*)$', txt)
        pre, kind, rest = m.groups()
        p = P(tokenize(rest.split(", align")[0].split(", comdat")[0]), s)
        t = p.type()
        init = None
        if "external" not in pre and p.i < len(p.t):
            init = p.operand(t)
        s._gl[name] = (t, init, kind)
        return s._gl[name]

    # ------------------------------------------------------------ functions
    def func(s, name):
        f = s.funcs.get(name)
        if f is None and name in s.ftext:
            f = s._parse(name)
            s.funcs[name] = f
        return f

    def _parse(s, name):
        a, b = s.ftext[name]
        f = Func(name)
        f.mod = s
        hdr = s.lines[a]
        toks = tokenize(hdr)
        # locate '@name' token
        gi = next(i for i, (k, v) in enumerate(toks) if k == "id" and v[0] == "@" and unq(v) == name)
        # return type: parse backwards is awkward; scan forward skipping words that are not types
        p = P(toks, s)
        p.next()
        LINK = {"private", "internal", "available_externally", "linkonce", "weak", "common", "appending", "extern_weak",
                "linkonce_odr", "weak_odr", "external", "dso_local", "dso_preemptable", "hidden", "protected", "default",
                "unnamed_addr", "local_unnamed_addr"} | CC
        while p.peek() in LINK:
            p.next()
        skip_attrs(p)
        f.ret = p.type()
        assert p.i == gi, (hdr, p.i, gi)
        p.next()
        p.expect("(")
        while not p.accept(")"):
            if p.accept("..."):
                continue
            t = p.type()
            byval, sret = skip_attrs(p)
            nm = unq(p.next()) if p.kind() == "id" else None
            f.params.append((t, nm, byval, sret))
            p.accept(",")
        # unnamed params get numbers
        cnt = 0
        for i, (t, nm, bv, sr) in enumerate(f.params):
            if nm is None:
                f.params[i] = (t, str(cnt), bv, sr)
                cnt += 1
        cur = None
        li = a + 1
        lines = s.lines
        while li < b:
            l = lines[li]
            li += 1
            if not l:
                continue
            if l[0] != " ":
                m = re.match(r'("[^"]*"|[-\w.$]+):', l)
                lab = m.group(1)
                if lab[0] == '"':
                    lab = lab[1:-1]
                cur = lab
                f.blocks[cur] = []
                f.order.append(cur)
                continue
            if cur is None:
                cur = "$entry"
                f.blocks[cur] = []
                f.order.append(cur)
            if "switch " in l and l.rstrip().endswith("["):
                while lines[li].strip() != "]":
                    l += " " + lines[li].strip()
                    li += 1
                l += " ]"
                li += 1
            f.blocks[cur].append(l)
        f.entry = f.order[0]
        if f.entry == "$entry":
            pass
        for bl in f.order:
            f.blocks[bl] = [s._inst(l) for l in f.blocks[bl]]
        return f

    def _inst(s, line):
        # strip metadata suffixes
        c = line.find(", !")
        if c >= 0 and '"' not in line[c:]:
            line = line[:c]
        toks = tokenize(line)
        p = P(toks, s)
        dst = None
        if p.kind() == "id" and len(toks) > 1 and toks[1][1] == "=":
            dst = unq(p.next())
            p.next()
        op = p.next()
        while op in CALL_PRE:
            op = p.next()
        if op == "alloca":
            t = p.type()
            cnt = None
            if p.accept(","):
                if p.peek() != "align":
                    ct = p.type()
                    cnt = (ct, p.operand(ct))
            return Inst("alloca", dst, t, cnt)
        if op == "load":
            p.accept("atomic"); p.accept("volatile")
            t = p.type(); p.expect(","); pt = p.type()
            return Inst("load", dst, t, p.operand(pt))
        if op == "store":
            p.accept("atomic"); p.accept("volatile")
            t = p.type(); v = p.operand(t); p.expect(","); pt = p.type()
            return Inst("store", None, t, (v, p.operand(pt)))
        if op == "getelementptr":
            p.accept("inbounds")
            t = p.type(); p.expect(","); bt = p.type(); base = p.operand(bt)
            idx = []
            while p.accept(","):
                it = p.type()
                idx.append((it, p.operand(it)))
            return Inst("gep", dst, t, base, idx)
        if op in ("add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "and", "or", "xor", "shl", "lshr", "ashr",
                  "fadd", "fsub", "fmul", "fdiv", "frem"):
            fl = set()
            while p.peek() in ("nuw", "nsw", "exact", "disjoint") or p.peek() in FMF:
                fl.add(p.next())
            t = p.type(); x = p.operand(t); p.expect(","); y = p.operand(t)
            return Inst(op, dst, t, (x, y), fl)
        if op == "fneg":
            while p.peek() in FMF:
                p.next()
            t = p.type()
            return Inst(op, dst, t, (p.operand(t),))
        if op in ("icmp", "fcmp"):
            while p.peek() in FMF:
                p.next()
            pred = p.next()
            t = p.type(); x = p.operand(t); p.expect(","); y = p.operand(t)
            return Inst(op, dst, t, (x, y), pred)
        if op == "br":
            if p.accept("label"):
                return Inst("br", None, None, None, (unq(p.next()),))
            t = p.type(); c = p.operand(t); p.expect(","); p.expect("label")
            a = unq(p.next()); p.expect(","); p.expect("label")
            return Inst("br", None, None, c, (a, unq(p.next())))
        if op == "switch":
            t = p.type(); v = p.operand(t); p.expect(","); p.expect("label"); d = unq(p.next())
            p.expect("[")
            cs = []
            while not p.accept("]"):
                ct = p.type(); cv = p.operand(ct); p.expect(","); p.expect("label")
                cs.append((cv[1], unq(p.next())))
            return Inst("switch", None, t, v, (d, cs))
        if op == "ret":
            t = p.type()
            return Inst("ret", None, t, None if t.k == "void" else p.operand(t))
        if op == "unreachable":
            return Inst("unreachable")
        if op == "call":
            while p.peek() in FMF or p.peek() in CC:
                p.next()
            skip_attrs(p)
            rt = p.type()
            callee = p.operand(PTR)
            p.expect("(")
            args = []
            while not p.accept(")"):
                t = p.type()
                bv, sr = skip_attrs(p)
                if t.k == "metadata":
                    # debug intrinsics are not generated without -g
                    raise Unsupported("metadata arg")
                args.append((t, p.operand(t), bv))
                p.accept(",")
            return Inst("call", dst, rt, args, callee)
        if op in ("trunc", "zext", "sext", "fptrunc", "fpext", "fptoui", "fptosi", "uitofp", "sitofp", "ptrtoint", "inttoptr", "bitcast", "freeze"):
            while p.peek() in ("nneg", "nuw", "nsw"):
                p.next()
            t = p.type(); v = p.operand(t)
            t2 = t
            if p.accept("to"):
                t2 = p.type()
            return Inst(op, dst, t2, (v,), t)
        if op == "phi":
            t = p.type()
            inc = []
            while True:
                p.expect("[")
                v = p.operand(t); p.expect(","); lab = unq(p.next()); p.expect("]")
                inc.append((v, lab))
                if not p.accept(","):
                    break
            return Inst("phi", dst, t, inc)
        if op == "select":
            while p.peek() in FMF:
                p.next()
            ct = p.type(); c = p.operand(ct); p.expect(","); t = p.type(); a = p.operand(t); p.expect(","); t2 = p.type()
            return Inst("select", dst, t, (c, a, p.operand(t2)))
        if op == "extractvalue":
            t = p.type(); v = p.operand(t)
            ix = []
            while p.accept(","):
                ix.append(int(p.next()))
            return Inst(op, dst, t, (v,), ix)
        if op == "insertvalue":
            t = p.type(); v = p.operand(t); p.expect(","); t2 = p.type(); e = p.operand(t2)
            ix = []
            while p.accept(","):
                ix.append(int(p.next()))
            return Inst(op, dst, t, (v, e), ix)
        if op == "fence":
            return Inst("nop")
        return Inst("unsupported", dst, None, None, line.strip())


def fp_value(txt, ty):
    """literal -> Fraction, or 'inf','-inf','nan'"""
    if txt.startswith("0x"):
        if txt[2] in "KMH":
            raise Unsupported("fp80 literal " + txt)
        v = struct.unpack(">d", int(txt[2:], 16).to_bytes(8, "big"))[0]
    else:
        v = float(txt)
    return rationalise(v)


_rat = {}


def rationalise(v):
    if v != v:
        return "nan"
    if v in (float("inf"), float("-inf")):
        return "inf" if v > 0 else "-inf"
    r = _rat.get(v)
    if r is None:
        exact = Fraction(v)
        r = exact
        if exact.denominator != 1:
            # the nearest simple rational that rounds to this very double (1.0/3.0 -> 1/3), else the shortest decimal
            for d in (1000, 10 ** 5, 10 ** 7):
                c = exact.limit_denominator(d)
                if c != 0 and c.numerator.__abs__() < 10 ** 12 and abs(c - exact) <= abs(exact) * Fraction(1, 2 ** 52) and (c.denominator < 10 ** 5 or float(c) == v):
                    r = c
                    break
            else:
                c = Fraction(repr(v))
                r = c if float(c) == v else exact
        _rat[v] = r
    return r
