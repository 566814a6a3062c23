"""Normalised program graph of one translation unit (output of tool/kir)."""
import json
import re


MAPFIND = re.compile(r"^std::(unordered_map|unordered_multimap|map|multimap|unordered_set|set)::(find|begin|lower_bound|upper_bound)$")


class AnalysisBroken(Exception):
    """The check cannot give an answer (anchor gone, nothing to analyse)."""


STRIP_TAGS = {"typedef", "const_type", "volatile_type", "restrict_type"}
PTR_TAGS = {"pointer_type", "reference_type", "rvalue_reference_type"}


class Inst:
    __slots__ = ("i", "op", "ty", "d", "blk", "pos", "fn", "ops")

    def __init__(self, d, blk, pos, fn):
        self.i = d["i"]
        self.op = d["op"]
        self.ty = d.get("ty")
        self.d = d
        self.blk = blk
        self.pos = pos
        self.fn = fn
        self.ops = d.get("ops", [])

    def get(self, k, default=None):
        return self.d.get(k, default)

    @property
    def callee(self):
        """Template-free qualified name of a direct callee, or None."""
        return self.d.get("sq")

    def is_call(self):
        return self.op in ("call", "invoke")

    def where(self):
        return self.fn.where(self)

    def __repr__(self):
        return "<%%%d %s %s>" % (self.i, self.op, self.d.get("sq", ""))


class Fn:
    def __init__(self, prog, d):
        self.prog = prog
        self.d = d
        self.name = d["name"]
        self.dem = d["dem"]
        self.sq = d["sq"]
        self.args = d["args"]
        self.access = d.get("acc", "public")
        self.file = d.get("file", "")
        self.line = d.get("line", 0)
        self.blocks = {}
        self.insts = {}
        self.order = []
        self.succ = {}
        self.pred = {}
        for b in d["blocks"]:
            bid = b["id"]
            lst = [Inst(x, bid, n, self) for n, x in enumerate(b["insts"])]
            self.blocks[bid] = lst
            self.order.append(bid)
            for x in lst:
                self.insts[x.i] = x
        self.entry = self.order[0]
        for bid, lst in self.blocks.items():
            self.succ[bid] = self._succ(lst[-1])
            self.pred.setdefault(bid, [])
        for bid in self.order:
            for s in self.succ[bid]:
                self.pred[s].append(bid)
        self.vars = {}
        self.vtypes = {}
        self.allocainfo = {}
        self.argvar = {}
        nargs = len(self.args)
        for v in d["vars"]:
            if v.get("frag") is not None:
                continue
            if not v["plain"]:
                continue
            if v["decl"]:
                self.allocainfo.setdefault(v["v"], (v["name"], v["ty"]))
            else:
                self.vars.setdefault(v["v"], []).append(v["name"])
                self.vtypes.setdefault(v["v"], v["ty"])
            if v["v"] < nargs and v["arg"] and not v["inl"]:
                self.argvar[v["v"]] = (v["name"], v["ty"])
        self._addr_cache = {}
        self._dom = None
        self._pdom = {}
        self._uses = None

    # ---------------------------------------------------------------- cfg
    @staticmethod
    def _succ(t):
        if t.op == "br":
            return list(dict.fromkeys(t.get("succ")))
        if t.op == "switch":
            return list(dict.fromkeys([t.get("def")] + [c[1] for c in t.get("cases")]))
        if t.op == "invoke":
            return [t.get("normal"), t.get("unwind")]
        return []

    def term(self, b):
        return self.blocks[b][-1]

    def all(self):
        for b in self.order:
            for x in self.blocks[b]:
                yield x

    def calls(self, pat=None):
        for x in self.all():
            if x.is_call() and (pat is None or (x.callee and re.search(pat, x.callee))):
                yield x

    # ---------------------------------------------------------------- loc
    def where(self, x):
        loc = x.get("loc")
        files = self.prog.files
        if not loc:
            return "%s:%d (%s)" % (self.prog.rel(self.file), self.line, self.sq)
        # innermost frame inside the repository
        for f, l, q in loc:
            p = files[f]
            if self.prog.in_repo(p) and l:
                return "%s:%d (%s)" % (self.prog.rel(p), l, q)
        f, l, q = loc[-1]
        return "%s:%d (%s)" % (self.prog.rel(files[f]), l, q)

    def here(self):
        return "%s:%d (%s)" % (self.prog.rel(self.file), self.line, self.sq)

    # ---------------------------------------------------------------- uses
    def uses(self):
        if self._uses is None:
            u = {}
            for x in self.all():
                for o in x.ops:
                    if isinstance(o, int):
                        u.setdefault(o, []).append(x)
                if x.op == "phi":
                    for v, _ in x.get("inc"):
                        if isinstance(v, int):
                            u.setdefault(v, []).append(x)
                for v, _ in x.get("var", []) or []:
                    if isinstance(v, int):
                        u.setdefault(v, []).append(x)
            self._uses = u
        return self._uses

    # ---------------------------------------------------------------- types
    def argname(self, n):
        return self.argvar.get(n, (self.args[n]["name"] or "arg%d" % n,))[0] if n < len(self.args) else None

    def field(self, name, arg=0):
        """-> (offset, size, type) of a data member of what argument arg points to"""
        t = self.argtype(arg)
        t = t[1] if isinstance(t, tuple) else self.prog.ptr_target(t)
        r = self.prog.field_of(t, name)
        if r is None:
            raise AnalysisBroken("no data member %s in %s" % (name, self.sq))
        return r

    def argtype(self, n):
        if n in self.argvar:
            return self.argvar[n][1]
        sig = self.d.get("sig")
        if sig:
            sret = 1 if self.args and self.args[0]["sret"] else 0
            k = n - sret + 1
            if n >= sret and k < len(sig):
                return sig[k]
            if sret and n == 0:
                return ("ptrto", sig[0])
        return None

    def valtype(self, v):
        """DI type id of an SSA value, best effort."""
        if not isinstance(v, int):
            return None
        if v < len(self.args):
            return self.argtype(v)
        x = self.insts.get(v)
        if x is None:
            return None
        if x.op == "load":
            a = self.addr(x.ops[0])
            t = a.type
            if t is not None and self.prog.ptr_target(t) is not None:
                return t
            if t is not None and x.ty != "ptr":
                return t
        if x.is_call() and x.get("sig") and not x.get("sret"):
            return x.get("sig")[0]
        if x.op in ("phi", "select"):
            if v in self.vtypes:
                return self.vtypes[v]
            srcs = [q for q, _ in x.get("inc")] if x.op == "phi" else x.ops[1:]
            for q in srcs:
                if isinstance(q, int) and q < v:
                    t = self.valtype(q)
                    if t is not None:
                        return t
        return self.vtypes.get(v)

    # ---------------------------------------------------------------- addresses
    def addr(self, v):
        key = v if isinstance(v, int) else json.dumps(v, sort_keys=True)
        r = self._addr_cache.get(key)
        if r is None:
            self._addr_cache[key] = Addr(self, ("busy",), None, ())  # recursion guard
            r = self._addr(v)
            self._addr_cache[key] = r
        return r

    def _addr(self, v):
        """Address denoted by pointer value v, as root + field path (to a leaf)."""
        root, off, var, ty = self._base(v)
        return Addr(self, root, ty, var, off)

    def _base(self, v):
        """-> (root, constoff, vars, pointee type id)"""
        P = self.prog
        if not isinstance(v, int):
            if v.get("null"):
                return (("null",), 0, (), None)
            if "g" in v:
                return (("global", v["g"], v.get("str")), 0, (), None)
            if "f" in v:
                return (("func", v["f"]), 0, (), None)
            if "cgep" in v:
                r, o, va, t = self._base(v["cgep"])
                return (r, o + v["off"], va, t)
            return (("const", json.dumps(v, sort_keys=True)), 0, (), None)
        if v < len(self.args):
            t = self.argtype(v)
            if isinstance(t, tuple):
                pt = t[1]
            else:
                pt = P.ptr_target(t) if t is not None else None
                if pt is None and t is not None and self.args[v].get("ty") == "ptr" and P.is_record(t):
                    pt = P.strip(t)      # passed by value through memory
            nm = self.argvar.get(v, (self.args[v]["name"] or "arg%d" % v, None))[0]
            if self.args[v]["sret"]:
                nm = "<ret>"
            return (("arg", nm, v), 0, (), pt)
        x = self.insts[v]
        if x.op == "getelementptr":
            r, o, va, t = self._base(x.ops[0])
            if x.get("off") is None:
                return (("val", v), 0, (), None)
            if t is None and not va and o == 0:
                t = P.type_by_llvm(x.get("sty"))
            return (r, o + x.get("off"), va + tuple((a if isinstance(a, int) else ("c", a.get("c")), s) for a, s in x.get("var")), t)
        if x.op == "alloca":
            nm, ty = self.allocainfo.get(v, (x.get("name"), None))
            if ty is None:
                ty = P.type_by_llvm(x.get("aty"))
            return (("alloca", nm, v), 0, (), ty)
        if x.op == "load":
            a = self.addr(x.ops[0])
            pt = P.ptr_target(a.type) if a.type is not None else None
            if pt is None and v in self.vtypes:
                pt = P.ptr_target(self.vtypes[v])
            return (("load", a.key(), v), 0, (), pt)
        if x.op in ("bitcast", "addrspacecast", "freeze"):
            return self._base(x.ops[0])
        t = self.valtype(v)
        pt = P.ptr_target(t) if t is not None else None
        if pt is None and t is not None:
            pt = P.iter_target(t)
        if x.is_call():
            k = MAPFIND.match(x.get("sq") or "")
            if k and pt is None:
                n = self.node_type(x)
                if n is not None:
                    # a node: bookkeeping, then the value
                    return (("call", x.get("sq"), v), -8 if "unordered" in k.group(1) else -32, (), n)
            return (("call", x.get("sq") or "?", v), 0, (), pt)
        if x.op in ("phi", "select"):
            return ((x.op, v), 0, (), pt)
        return (("val", v), 0, (), pt)

    def node_type(self, x):
        """value type of the associative container a call with a node as result is made on"""
        P = self.prog
        s = x.get("sig") or []
        for t in s[1:2]:
            t = P.ptr_target(t) if t is not None and t >= 0 else None
            t = P.strip(t) if t is not None else None
            ta = P.types[t].get("targs", []) if t is not None else []
            al = P.strip(ta[-1]) if ta else None
            if al is not None and P.types[al].get("targs"):
                return P.strip(P.types[al]["targs"][0])
        return None

    # ---------------------------------------------------------------- printing
    def show(self, v, depth=4):
        if not isinstance(v, int):
            for k in ("c", "str", "g", "f", "fp"):
                if k in v:
                    return repr(v[k]) if k == "str" else str(v[k])
            if "null" in v:
                return "null"
            return json.dumps(v)
        if v < len(self.args):
            return self.argvar.get(v, (self.args[v]["name"] or "arg%d" % v,))[0]
        x = self.insts[v]
        nm = "/".join(dict.fromkeys(self.vars.get(v, [])))
        tag = "%%%d" % v + ("{%s}" % nm if nm else "")
        if x.ty == "ptr" and x.op in ("getelementptr", "alloca", "load"):
            return "%s=&%s" % (tag, self.addr(v)) if x.op != "load" else "%s=ptr(%s)" % (tag, self.addr(v))
        if depth <= 0:
            return tag
        if x.op == "load":
            return "%s=[%s]" % (tag, self.addr(x.ops[0]))
        if x.op in ("phi",) or x.is_call():
            return tag
        if x.op == "icmp":
            return "(%s %s %s)" % (self.show(x.ops[0], depth - 1), x.get("pred"), self.show(x.ops[1], depth - 1))
        return "%s(%s)" % (x.op, ", ".join(self.show(o, depth - 1) for o in x.ops))

    def dump(self):
        out = ["== %s   [%s]" % (self.dem, self.here())]
        for b in self.order:
            out.append(" b%d:  <- %s" % (b, self.pred[b]))
            for x in self.blocks[b]:
                out.append("   " + self.dump_inst(x))
        return "\n".join(out)

    def dump_inst(self, x):
        nm = "/".join(dict.fromkeys(self.vars.get(x.i, [])))
        l = "%%%d%s = " % (x.i, "{%s}" % nm if nm else "") if x.ty else ""
        if x.op == "store":
            s = "store[%s] %s <- %s" % (x.get("ord"), self.addr(x.ops[1]), self.show(x.ops[0]))
        elif x.op == "load":
            s = "load[%s] %s" % (x.get("ord"), self.addr(x.ops[0]))
        elif x.op == "getelementptr":
            s = "gep %s" % self.addr(x.i)
        elif x.op == "phi":
            s = "phi " + ", ".join("b%d:%s" % (b, self.show(v, 1)) for v, b in x.get("inc"))
        elif x.is_call():
            s = "%s %s(%s)" % (x.op, x.get("sq") or ("IND " + self.callee_name(x)), ", ".join(self.show(o, 1) for o in x.ops))
            if x.op == "invoke":
                s += " -> b%d / b%d" % (x.get("normal"), x.get("unwind"))
            if x.get("noreturn"):
                s += " NORETURN"
        elif x.op == "br":
            s = "br %s -> %s" % (self.show(x.ops[0]) if x.ops else "", x.get("succ"))
        elif x.op == "switch":
            s = "switch %s %s def %s" % (self.show(x.ops[0]), x.get("cases"), x.get("def"))
        elif x.op == "cmpxchg":
            s = "cmpxchg[%s/%s%s] %s exp %s new %s" % (x.get("ord"), x.get("ford"), " weak" if x.get("weak") else "", self.addr(x.ops[0]), self.show(x.ops[1]), self.show(x.ops[2]))
        elif x.op == "atomicrmw":
            s = "rmw %s[%s] %s %s" % (x.get("rmw"), x.get("ord"), self.addr(x.ops[0]), self.show(x.ops[1]))
        elif x.op == "landingpad":
            s = "landingpad %s cleanup=%s" % (x.get("clauses"), x.get("cleanup"))
        else:
            s = "%s%s %s" % (x.op, " " + x.get("pred") if x.get("pred") else "", ", ".join(self.show(o) for o in x.ops))
        loc = x.get("loc")
        ls = ""
        if loc:
            f, ln, q = loc[0]
            ls = "   ; %s:%d" % (self.prog.files[f].split("/")[-1], ln)
        return l + s + ls

    def callee_name(self, x):
        """Name of the callee: direct, or Class::method for a virtual call."""
        if x.get("sq"):
            return x.get("sq")
        r = self.virtual(x, lambda t, idx: self.prog.vmethod(t, idx))
        return r or "indirect"

    def virtual_const(self, x, k):
        r = self.virtual(x, lambda t, idx: self.prog.vconst(t, idx, k) or None)
        return r is True

    def virtual(self, x, ask):
        f = x.get("ind")
        if isinstance(f, int) and f in self.insts:
            fi = self.insts[f]
            if fi.op == "load":
                g = fi.ops[0]
                idx = 0
                if isinstance(g, int) and g in self.insts and self.insts[g].op == "getelementptr":
                    idx = (self.insts[g].get("off") or 0) // 8
                    g = self.insts[g].ops[0]
                if isinstance(g, int) and g in self.insts and self.insts[g].op == "load":
                    a = self.addr(self.insts[g].ops[0])
                    for t in a.owner_types():
                        m = ask(t, idx)
                        if m:
                            return m
                    return "vcall#%d(%s)" % (idx, a)
        return None


class Addr:
    """root (tuple) + list of field names down to the leaf at this offset."""

    def __init__(self, fn, root, ty, var, off=0):
        self.fn = fn
        self.root = root
        self.off = off
        self.var = var
        self.base_type = ty
        self.segs, self.type, self.chain = fn.prog.descend(ty, off, var) if root[0] != "busy" else ((), None, [])

    def owner_types(self):
        r = [t for t, _ in self.chain]
        if self.base_type is not None:
            r.insert(0, self.base_type)
        return r

    def root_str(self):
        r = self.root
        if r[0] == "load":
            return r[1] + "->"
        if r[0] == "arg":
            return r[1]
        if r[0] == "alloca":
            return "%s#%d" % (r[1], r[2])
        if r[0] == "global":
            return "@" + r[1]
        if r[0] == "call":
            return "%s()#%d" % (r[1], r[2])
        return "#".join(str(z) for z in r)

    def key(self):
        s = self.root_str()
        if self.segs:
            sep = "" if s.endswith("->") else "."
            s += sep + ".".join(self.segs)
        return s.replace(".[]", "[]")

    __str__ = key

    def __repr__(self):
        return "Addr(%s)" % self.key()

    def fields(self):
        """All field names on the access path (including through loads)."""
        return re.split(r"\.|->|\[\]", self.key())


class Program:
    def __init__(self, data, repo="/repo"):
        self.repo = repo
        self.files = data["files"]
        self.types = data["types"]
        self.fns = {}
        self._byllvm = {}
        for t, d in enumerate(self.types):
            q = d.get("q")
            if q and d["tag"] in ("class_type", "structure_type", "union_type") and d["size"]:
                self._byllvm.setdefault(q.replace(" ", ""), t)
        for f in data["functions"]:
            fn = Fn(self, f)
            self.fns[fn.name] = fn

    def in_repo(self, p):
        return p.startswith(self.repo + "/")

    def rel(self, p):
        return p[len(self.repo) + 1:] if self.in_repo(p) else p

    # ---- types
    def strip(self, t):
        while t is not None and t >= 0 and self.types[t]["tag"] in STRIP_TAGS:
            t = self.types[t].get("base", -1)
        return t if t is not None and t >= 0 else None

    def ptr_target(self, t):
        if isinstance(t, tuple):
            return t[1]
        t = self.strip(t)
        if t is None or self.types[t]["tag"] not in PTR_TAGS:
            return None
        return self.strip(self.types[t].get("base", -1))

    def is_record(self, t):
        t = self.strip(t)
        return t is not None and self.types[t]["tag"] in ("class_type", "structure_type", "union_type")

    def type_name(self, t):
        t = self.strip(t)
        if t is None:
            return ""
        d = self.types[t]
        return d.get("q") or d["name"]

    def type_by_llvm(self, s):
        if not s:
            return None
        m = re.match(r'%"?(?:class|struct|union)\.(.*?)"?$', s)
        if not m:
            return None
        n = re.sub(r"\.\d+$", "", m.group(1)).replace(" ", "")
        if n in self._byllvm:
            return self._byllvm[n]
        return None

    def vmethod(self, t, idx, seen=None):
        t = self.strip(t)
        if t is None:
            return None
        d = self.types[t]
        for m in d.get("virt", []):
            if m["vidx"] == idx:
                return d.get("q", d["name"]) + "::" + m["name"]
        for m in d.get("mem", []):
            if m["inh"] and m["off"] == 0:
                r = self.vmethod(m["ty"], idx)
                if r:
                    return r
        return None

    def iter_target(self, t):
        """what a record that is just one pointer (an iterator) points to"""
        t = self.strip(t)
        if t is None or self.types[t].get("size") != 8 or not self.types[t].get("mem"):
            return None
        leaf = self.descend(t, 0, ())[1]
        return self.ptr_target(leaf) if leaf is not None else None

    def vconst(self, t, idx, k):
        """does the virtual method take its k-th argument (0: the object) as pointer or reference to const?"""
        t = self.strip(t)
        if t is None:
            return None
        d = self.types[t]
        for m in d.get("virt", []):
            if m["vidx"] == idx:
                return k < len(m.get("cp", [])) and m["cp"][k]
        for m in d.get("mem", []):
            if m["inh"] and m["off"] == 0:
                r = self.vconst(m["ty"], idx, k)
                if r is not None:
                    return r
        return None

    def descend(self, ty, off, var):
        """Follow offsets down to a leaf. -> (segs, leaf type, chain[(type, seg)])"""
        segs = []
        chain = []
        t = self.strip(ty) if ty is not None else None
        scales = [s for _, s in var]
        first = True
        while True:
            if t is None:
                if off or scales:
                    segs.append("+%d%s" % (off, "[]" if scales else ""))
                return tuple(segs), None, chain
            d = self.types[t]
            size = d.get("size", 0)
            tag = d["tag"]
            if d.get("name", "").startswith(("__aligned_buffer<", "__aligned_membuf<")) and d.get("targs"):
                # raw storage of an object
                t = self.strip(d["targs"][0])
                continue
            if first:
                first = False
                if tag != "array_type" and size:
                    hit = [s for s in scales if abs(s) == size]
                    if hit:
                        scales = [s for s in scales if abs(s) != size]
                        segs.append("[]")
                        off %= size
                    elif off < 0 or off >= size:
                        k = off // size
                        segs.append("[%d]" % k)
                        off -= k * size
            if tag == "array_type":
                el = self.strip(d.get("base", -1))
                es = self.types[el].get("size", 0) if el is not None else 0
                if es:
                    if scales:
                        segs.append("[]")
                        scales = [s for s in scales if abs(s) != es]
                    else:
                        segs.append("[%d]" % (off // es))
                    off %= es
                    chain.append((t, segs[-1]))
                    t = el
                    continue
                return tuple(segs), t, chain
            if tag in ("class_type", "structure_type", "union_type"):
                best = None
                for m in d["mem"]:
                    if m["virt"]:
                        continue
                    ms = m["size"]
                    if m["inh"]:
                        bt = self.strip(m["ty"])
                        ms = self.types[bt].get("size", 0) if bt is not None else 0
                        if bt is not None and not self._nonempty(bt):
                            continue
                    if m["off"] <= off < m["off"] + max(ms, 1):
                        best = m
                        if not m["inh"]:
                            pass
                        break
                if best is None:
                    if off or scales:
                        segs.append("+%d%s" % (off, "[]" if scales else ""))
                    return tuple(segs), t, chain
                if not best["inh"]:
                    segs.append(best["name"] or "(anon)")
                    chain.append((t, segs[-1]))
                off -= best["off"]
                t = self.strip(best["ty"])
                continue
            if off or scales:
                segs.append("+%d%s" % (off, "[]" if scales else ""))
            return tuple(segs), t, chain

    def _nonempty(self, t):
        d = self.types[t]
        for m in d.get("mem", []):
            if not m["inh"]:
                return True
            b = self.strip(m["ty"])
            if b is not None and self._nonempty(b):
                return True
        return False

    def field_of(self, t, name):
        """-> (offset, size, type) of a (possibly inherited) data member, or None"""
        t = self.strip(t) if t is not None else None
        if t is None:
            return None
        for m in self.types[t].get("mem", []):
            if m["virt"]:
                continue
            if not m["inh"] and m["name"] == name:
                return m["off"], m["size"], m["ty"]
            if m["inh"]:
                r = self.field_of(m["ty"], name)
                if r:
                    return m["off"] + r[0], r[1], r[2]
        return None

    def all(self):
        return sorted(self.fns.values(), key=lambda f: f.dem)

    # ---- lookup
    def find(self, sq, must=True, dem=None, nargs=None, where=None):
        """Functions by template-free qualified name."""
        r = [f for f in self.fns.values() if f.sq == sq and (dem is None or re.search(dem, f.dem))]
        if must and not r:
            raise AnalysisBroken("anchor not found: %s %s" % (sq, dem or ""))
        return sorted(r, key=lambda f: f.dem)

    def methods(self, cls, public=True, dem=None, must=True):
        """Member functions of a class (template-free name)."""
        r = [f for f in self.fns.values() if f.sq.rsplit("::", 1)[0] == cls and (not public or f.access == "public")
             and (dem is None or re.search(dem, f.dem))]
        if must and not r:
            raise AnalysisBroken("no member function of %s %s" % (cls, dem or ""))
        return sorted(r, key=lambda f: f.dem)

    def find_re(self, pat):
        return sorted((f for f in self.fns.values() if re.search(pat, f.sq)), key=lambda f: f.dem)

    def closure_of(self, x):
        """The operator() of the lambda that a call installs (std::function constructor, assignment, thread...), or None."""
        d = (x.get("dem") or "").replace("kpsr::", "kpsr::")
        best = None
        for f in self.fns.values():
            k = f.dem.rfind("::operator()(")
            if k < 0 or "'lambda" not in f.dem:
                continue
            p = f.dem[:k]
            j = d.find(p)
            while j >= 0:
                nx = d[j + len(p):j + len(p) + 1]
                if nx in (">", ",", "&", " ", "") and (best is None or len(p) > best[0]):
                    best = (len(p), f)
                j = d.find(p, j + 1)
        return best[1] if best else None


def api(fns, known):
    """Operations a user calls: the known names, and every new public one that is not merely a step of another operation."""
    known = set(known.split())
    steps = set()
    for f in fns:
        for x in f.insts.values():
            for l in x.get("loc") or []:
                if l[2] != f.sq:
                    steps.add(l[2])
    return [f for f in fns if f.sq.rsplit("::", 1)[1] in known or f.sq not in steps]
