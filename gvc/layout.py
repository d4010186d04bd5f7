"""C++ record layouts of the code under verification, as printed by clang for the current sources."""
import re
from .ir import INT, DBL, PTR, FLT, Ty

BASE = {"FLOAT": DBL, "DOUBLE": DBL, "double": DBL, "float": FLT, "int": INT(32), "unsigned int": INT(32), "uint": INT(32),
        "long": INT(64), "unsigned long": INT(64), "size_t": INT(64), "size_type": INT(64), "std::size_t": INT(64), "bool": INT(8), "_Bool": INT(8),
        "char": INT(8), "unsigned char": INT(8), "short": INT(16), "unsigned short": INT(16),
        "long long": INT(64), "unsigned long long": INT(64), "long int": INT(64), "uint64_t": INT(64), "unsigned long int": INT(64)}
SIZE = {"i": None, "double": 8, "float": 4, "ptr": 8}


def tsize(t):
    return t.n // 8 if t.k == "i" else SIZE[t.k]


class Layouts:
    def __init__(s, text):
        s.rec = {}
        s.size = {}
        s._leaf = {}
        s._names = {}
        for blk in text.split("*** Dumping AST Record Layout")[1:]:
            lines = blk.strip("\n").split("\n")
            ents = []
            name = None
            for l in lines:
                m = re.match(r"\s*(\d+)(?::[\d-]+)? \|( +)(.*)$", l)
                if m:
                    off = int(m.group(1)); dep = len(m.group(2)); txt = m.group(3).rstrip()
                    if name is None:
                        name = re.sub(r"\b(class|struct|union) ", "", txt).strip()
                        name = re.sub(r" \(empty\)$", "", name)
                        continue
                    ents.append((off, dep, txt))
                else:
                    m = re.search(r"sizeof=(\d+)", l)
                    if m and name is not None:
                        s.size[name] = int(m.group(1))
            if name and name not in s.rec:
                s.rec[name] = ents

    def cls(s, name):
        if name in s.rec:
            return name
        # tolerate spacing / default differences
        k = name.replace(" ", "")
        for n in s.rec:
            if n.replace(" ", "") == k:
                return n
        raise KeyError("no record layout for " + name)

    def fields(s, name):
        """list of (offset, Ty, dotted name) for scalar leaves, arrays expanded"""
        name = s.cls(name)
        if name in s._leaf:
            return s._leaf[name]
        out = []
        stack = []   # (depth, prefix)
        ents = s.rec[name]
        for n, (off, dep, txt) in enumerate(ents):
            while stack and stack[-1][0] >= dep:
                stack.pop()
            pre = stack[-1][1] if stack else ""
            nested = n + 1 < len(ents) and ents[n + 1][1] > dep
            if txt.endswith("base)") or txt.endswith("(empty)") and nested:
                stack.append((dep, pre))
                continue
            if txt.endswith("vtable pointer)"):
                out.append((off, PTR, pre + "$vptr"))
                continue
            if txt.endswith("(empty)") or txt.endswith("base) (empty)"):
                continue
            m = re.match(r"(.*?)\s*([A-Za-z_$]\w*)?$", txt)
            ty, nm = m.group(1), m.group(2)
            if re.match(r"(class|struct|union|enum) ", ty) or "::" in ty or "<" in ty:
                pass
            if nested:
                if nm is None or ty.startswith("union ") and "anonymous" in txt and txt.rstrip().endswith(")"):
                    stack.append((dep, pre))
                else:
                    stack.append((dep, pre + nm + "."))
                continue
            t = ty.strip()
            dims = [int(x) for x in re.findall(r"\[(\d+)\]", t)]
            base = re.sub(r"\[\d+\]", "", t).strip()
            base = re.sub(r"^(const|volatile|mutable) ", "", base)
            if base.endswith(" const"):
                base = base[:-6]
            if base.endswith("*") or base.endswith("&") or base.endswith("pointer") or base.endswith("iterator") or "(*)" in base or base.endswith("*const"):
                lt = PTR
            elif base in BASE:
                lt = BASE[base]
            elif base.startswith("enum ") or base.endswith("enum") or base.endswith("Enum"):
                lt = INT(32)
            elif re.match(r"(class|struct) ", base) or base in s.rec or re.sub(r"^(class|struct) ", "", base) in s.rec:
                b2 = re.sub(r"^(class|struct) ", "", base)
                if dims and b2 in s.rec:
                    cnt = 1
                    for d in dims:
                        cnt *= d
                    for i in range(cnt):
                        for (o2, t2, n2) in s.fields(b2):
                            out.append((off + i * s.size[b2] + o2, t2, "%s%s[%d].%s" % (pre, nm, i, n2)))
                continue
            else:
                lt = INT(32) if base in ("aviscenum", "acondenum", "tdaviscenum", "eosenum", "integration") else None
                if lt is None:
                    continue
            if dims:
                def rec(pfx, o, ds):
                    if not ds:
                        out.append((o, lt, pfx))
                        return
                    z = tsize(lt)
                    for d in ds[1:]:
                        z *= d
                    for i in range(ds[0]):
                        rec("%s[%d]" % (pfx, i), o + i * z, ds[1:])
                n = 1
                for d in dims:
                    n *= d
                if n <= 4096:
                    rec(pre + nm, off, dims)
            else:
                out.append((off, lt, pre + nm))
        s._leaf[name] = out
        d = {}
        byoff = {}
        for o, t, nm in out:
            d.setdefault(nm, (o, t))
            byoff.setdefault(o, nm)
        s._names[name] = (d, byoff)
        return out

    def field(s, cls, nm):
        cls = s.cls(cls)
        s.fields(cls)
        d = s._names[cls][0]
        if nm in d:
            return d[nm]
        raise KeyError("%s has no field %s" % (cls, nm))

    def has(s, cls, nm):
        try:
            s.field(cls, nm)
            return True
        except KeyError:
            return False

    def member_offset(s, cls, nm):
        """offset of a (possibly class-typed) direct or inherited member"""
        cls = s.cls(cls)
        for off, dep, txt in s.rec[cls]:
            t = re.sub(r" \(empty\)$", "", txt)
            if re.search(r"\b%s$" % re.escape(nm), t):
                return off
        raise KeyError("%s has no member %s" % (cls, nm))

    def name_at(s, cls, off):
        try:
            cls = s.cls(cls)
        except KeyError:
            return None
        s.fields(cls)
        return s._names[cls][1].get(off)

    def leaves(s, cls):
        d = {}
        for o, t, nm in s.fields(cls):
            d.setdefault(o, t)
        return d

    def sizeof(s, cls):
        return s.size[s.cls(cls)]
