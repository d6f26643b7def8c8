"""Generates the specification functions of the contracts (Verus) and the
description for the oracle (JSON) from the format grammar in formats.py."""
import ast
import copy
import json
import formats
import contracts

PRIM = {"u8": 1, "u16": 2, "i16": 2, "u32": 4, "i32": 4, "q32": 4, "Tag": 4, "NameID": 2}
RUST = {"q32": "crate::typeface::q32", "Tag": "crate::truetype::Tag", "NameID": "crate::truetype::tables::names::NameID"}


class Gen:
    def __init__(self, features):
        self.features = set(features)
        self.types = {}
        self.T = copy.deepcopy(formats.T)   # each configuration resolves its own
        for s in self.T:
            self.types[s.module + "::" + s.name] = s
        for s in self.T:
            s.fields = [self.resolve_field(s, f) for f in s.fields]

    # ---- names
    def resolve(self, s, t):
        """The full name of a type used in structure s."""
        if t in PRIM or t == "U":
            return t
        if t.startswith("Vec<"):
            return "Vec<" + self.resolve(s, t[4:-1]) + ">"
        base = t.split("<")[0]
        gen = "<U>" if t.endswith("<U>") else ""
        if base in self.types:
            return base + gen
        full = s.module + "::" + base
        assert full in self.types, (s.name, t)
        return full + gen

    def resolve_field(self, s, f):
        g = formats.F(f.kind)
        g.__dict__.update(f.__dict__)
        if g.kind == "dir":
            g.kind = "atd" if "ignore-incomplete-directories" in self.features else "at"
        if g.kind == "mark":
            g.kind = "atd" if "ignore-incomplete-marks" in self.features else "at"
        if g.type and g.kind != "bytes0":
            g.type = self.resolve(s, g.type)
        return g

    def st(self, t):
        return self.types.get(t.split("<")[0])

    def rust(self, t):
        if t in RUST:
            return RUST[t]
        if t in PRIM or t == "U":
            return t
        if t.startswith("Vec<"):
            return "Vec<" + self.rust(t[4:-1]) + ">"
        return "crate::" + t

    def short(self, s):
        return (s.module + "::" + s.name).replace("::", "_")

    # ---- sizes
    def const_size(self, t):
        """Number of bytes of a type if constant and if the tape is left behind it."""
        if t in PRIM:
            return PRIM[t]
        s = self.st(t)
        if s is None:
            return None
        if s.kind == "flags":
            return 2
        if s.kind != "table" or s.params:
            return None
        total = 0
        for f in s.fields:
            if f.kind == "req":
                continue
            if f.kind not in ("i", "c") or f.args:
                return None
            x = self.const_size(f.type)
            if x is None:
                return None
            total += x
        return total

    def framed(self, s):
        return self.const_size(s.module + "::" + s.name) is not None or s.size is not None

    # ---- expressions of the grammar to expressions of Verus
    def value(self, t, off):
        """The mathematical value of a scalar at an offset."""
        if t in ("u16", "NameID"):
            return f"be16(d, {off})"
        if t == "u32":
            return f"be32(d, {off})"
        if t == "i16":
            return f"bei16(d, {off})"
        if t == "u8":
            return f"d[{off}]"
        if t == "Tag":
            return f"be32(d, {off})"
        s = self.st(t)
        if s and s.kind == "flags":
            return f"{self.rust(t)}(be16(d, {off}))"
        return None

    def expr(self, e, env):
        node = ast.parse(e, mode="eval").body if isinstance(e, str) else e
        return self._x(node, env)

    def _x(self, n, env):
        x = lambda m: self._x(m, env)
        if isinstance(n, ast.Constant):
            return str(n.value)
        if isinstance(n, ast.Name):
            if n.id == "k":
                return "k"
            if n.id == "here":
                return env["here"]
            return env["fields"][n.id]["int"]
        if isinstance(n, ast.Subscript):
            f = env["fields"][n.value.id]
            return f"({self.value(f['type'], 'stride(%s, %s, %s)' % (f['off'], x(n.slice), f['size']))} as int)"
        if isinstance(n, ast.Attribute):
            f = env["fields"][n.value.value.id]
            at = f"stride({f['off']}, {x(n.value.slice)}, {f['size']})"
            cur = 0
            for g in self.st(f["type"]).fields:
                if g.name == n.attr:
                    return f"({self.value(g.type, f'{at} + {cur}')} as int)"
                cur += self.const_size(g.type)
            raise KeyError(n.attr)
        if isinstance(n, ast.BinOp):
            op = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.FloorDiv: "/", ast.Mod: "%"}[type(n.op)]
            # pow2 is spelled out so that multiplication stays linear.
            for a, b in ((n.left, n.right), (n.right, n.left)):
                if isinstance(n.op, ast.Mult) and isinstance(b, ast.Call) and b.func.id == "pow2":
                    v, f = x(a), x(b.args[0])
                    return f"(if {f} == 1 {{ 2 * {v} }} else if {f} == 2 {{ 4 * {v} }} else {{ 8 * {v} }})"
            return f"({x(n.left)} {op} {x(n.right)})"
        if isinstance(n, ast.Compare):
            out, left = [], n.left
            for o, r in zip(n.ops, n.comparators):
                op = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">="}[type(o)]
                out.append(f"{x(left)} {op} {x(r)}")
                left = r
            return "(" + " && ".join(out) + ")"
        if isinstance(n, ast.BoolOp):
            op = " && " if isinstance(n.op, ast.And) else " || "
            return "(" + op.join(x(v) for v in n.values) + ")"
        if isinstance(n, ast.IfExp):
            b, o = (f"{v}int" if v.isdigit() else v for v in (x(n.body), x(n.orelse)))
            return f"(if {x(n.test)} {{ {b} }} else {{ {o} }})"
        if isinstance(n, ast.Call):
            fn = n.func.id
            if fn == "u16":
                return f"(be16(d, p + {x(n.args[0])}) as int)"
            if fn == "u32":
                return f"(be32(d, p + {x(n.args[0])}) as int)"
            if fn == "u16s":
                return f"(be16(d, stride(p + {x(n.args[0])}, {x(n.args[1])}, 2)) as int)"
            if fn == "has":
                f = env["fields"][n.args[0].id]
                return f"fbit({f['raw']}, {n.args[1].value}u16)"
            if fn == "forall":
                return f"(forall|k: int| 0 <= k < {x(n.args[0])} && #[trigger] ix(k) ==> {x(n.args[1])})"
        raise NotImplementedError(ast.dump(n))

    def typed(self, e, t, env):
        """An expression as an argument of (executable) type t."""
        if e == "here":
            return f"({env['here']} as u64)"
        if e in env["fields"]:
            f = env["fields"][e]
            if f["type"] == t or t is None:
                return f["typed"]
        if t in ("u16", "u64", "usize"):
            return f"({self.expr(e, env)} as {t})"
        raise NotImplementedError((e, t))

    def param_types(self, s, t):
        if t.startswith("Vec<"):
            return ["usize"]
        if t == "U":
            return ["u16"]
        r = self.st(t)
        return [self.resolve(r, x) if x not in ("u64", "usize") else x for _, x in r.params]

    def args(self, s, f, env):
        ts = self.param_types(s, f.type)
        vs = [self.typed(a, t, env) for a, t in zip(f.args, ts)]
        assert len(ts) == len(f.args), (s.name, f.name)
        return vs[0] if len(vs) == 1 else "(" + ", ".join(vs) + ")"

    # ---- specification functions
    def layout(self, s):
        """Places the fields: a list of (field, accepts, matches)."""
        env = {"fields": {}, "here": "p"}
        for j, (name, t) in enumerate(s.params):
            acc = "param" if len(s.params) == 1 else f"param.{j}"
            rt = self.resolve(s, t) if t not in ("u64", "usize") else t
            fl = self.st(rt) is not None
            env["fields"][name] = dict(type=rt, typed=acc, raw=acc + ".0" if fl else acc,
                                       int=f"({acc + '.0' if fl else acc} as int)")
            if name == "position":
                env["here"] = f"({acc} as int)"
        here = env["here"]
        cur, fixed = "p", 0
        sizes = []      # of the inline part
        out = []

        def off():
            return cur if fixed == 0 else f"{cur} + {fixed}"

        heavy = sum(f.kind in ("o", "d") for f in s.fields) > 2
        for f in s.fields:
            v = f"v.{'r#type' if f.name == 'type' else f.name}"
            R = self.rust(f.type) if f.type and f.kind != "bytes0" else None
            k = f.kind
            if k == "req":
                out.append((f, self.expr(f.cond, env), None))
                continue
            if k in ("i", "c", "o", "d"):
                at = off()
                args = self.args(s, f, env) if f.args else None
                if k in ("i", "c"):
                    if args:
                        acc, mat = f"<{R} as WalueSpec>::waccepts(d, {at}, {args})", f"<{R} as WalueSpec>::wmatches(d, {at}, {args}, {v})"
                    else:
                        acc, mat = f"<{R} as ValueSpec>::accepts(d, {at})", f"<{R} as ValueSpec>::matches(d, {at}, {v})"
                    if k == "c":
                        acc += f" && {self.value(f.type, at)} == {f.value}"
                else:
                    cond = self.expr(f.cond, env)
                    if k == "d":
                        acc = f"opt_accepts::<{R}>({cond}, d, {at})"
                        dv = f"{v} == {f.default}" if f.type != "NameID" else f"{v}.is({f.default})"
                        mat = f"(if {cond} {{ <{R} as ValueSpec>::matches(d, {at}, {v}) }} else {{ {dv} }})"
                    elif args:
                        acc = f"wopt_accepts::<{R}>({cond}, d, {at}, {args})"
                        mat = f"wopt_matches::<{R}>({cond}, d, {at}, {args}, {v})"
                    else:
                        h, hm = ("hopt", "hoptm") if heavy else ("opt_accepts", "opt_matches")
                        acc = f"{h}::<{R}>({cond}, d, {at})"
                        mat = f"{hm}::<{R}>({cond}, d, {at}, {v})"
                out.append((f, acc, mat))
                sz = self.const_size(f.type) if not args else f"<{R} as WalueSpec>::wsize({args})"
                if k in ("i", "c"):
                    val = self.value(f.type, at)
                    if val is not None:
                        fl = self.st(f.type) is not None
                        raw = f"be16(d, {at})" if fl else val
                        env["fields"][f.name] = dict(type=f.type, typed=val, raw=raw, int=f"({raw} as int)")
                    if isinstance(sz, int):
                        fixed += sz
                        sizes.append(str(sz))
                    elif sz is not None and (not args or self.framed(self.st(f.type))):
                        cur, fixed = f"({off()} + {sz})", 0
                        sizes.append(sz)
                    else:
                        cur = None
                else:
                    val = self.value(f.type, at)
                    if val is not None:
                        env["fields"][f.name] = dict(type=f.type, typed=val, raw=val, int=f"({val} as int)", eff=f"eff16({cond}, d, {at})")
                        if k == "d":
                            env["fields"][f.name]["int"] = f"(if {cond} {{ {val} as int }} else {{ {f.default} }})"
                    e = f"csz({cond}, {sz} as int)"
                    cur, fixed = f"cstep({off()}, {cond}, {sz} as int)", 0
                    sizes.append(e)
                continue
            if k == "n":
                at, cnt = off(), self.expr(f.count, env)
                if f.args:
                    args = self.args(s, f, env)
                    sz = f"<{R} as WalueSpec>::wsize({args})"
                    acc = f"wseq_accepts::<{R}>(d, {at}, {cnt}, {args})"
                    mat = f"wseq_matches::<{R}>(d, {at}, {cnt}, {args}, {v}@)"
                else:
                    sz = self.const_size(f.type)
                    assert sz is not None, (s.name, f.name)
                    acc = f"seq_accepts::<{R}>(d, {at}, {cnt})"
                    mat = f"seq_matches::<{R}>(d, {at}, {cnt}, {v}@)"
                    env["fields"][f.name] = dict(type=f.type, off=at, size=sz)
                out.append((f, acc, mat))
                cur, fixed = f"({at} + stride(0, {cnt}, {sz} as int))", 0
                sizes.append(f"stride(0, {cnt}, {sz} as int)")
                continue
            if heavy and k == "ato":
                # The offset is an optional field, 0 if absent.
                x = ast.parse(f.off, mode="eval").body
                e = env["fields"][x.body.id]
                assert x.orelse.value == 0 and self.expr(x.test, env) in e["eff"], f.name
                out.append((f, f"hat::<{R}>({e['eff']}, d, {here})", f"hatm::<{R}>({e['eff']}, d, {here}, {v})"))
                continue
            o = self.expr(f.off, env)
            loc = f"{here} + {o}"
            if k in ("at", "ato", "atd"):
                args = self.args(s, f, env) if f.args else None
                if k == "at":
                    if args:
                        acc, mat = f"<{R} as WalueSpec>::waccepts(d, {loc}, {args})", f"<{R} as WalueSpec>::wmatches(d, {loc}, {args}, {v})"
                    else:
                        acc, mat = f"<{R} as ValueSpec>::accepts(d, {loc})", f"<{R} as ValueSpec>::matches(d, {loc}, {v})"
                else:
                    acc = f"opt_accepts::<{R}>({o} > 0, d, {loc})"
                    if k == "ato":
                        mat = f"opt_matches::<{R}>({o} > 0, d, {loc}, {v})"
                    else:
                        mat = f"(if {o} > 0 {{ <{R} as ValueSpec>::matches(d, {loc}, {v}) }} else {{ <{R} as crate::typeface::DefaultSpec>::is_default({v}) }})"
            elif k == "l":
                cnt = self.expr(f.count, env)
                q = f"forall|k: int| 0 <= k < {cnt} && #[trigger] ix(k) ==> "
                if f.args:
                    args = self.args(s, f, env)
                    acc = f"({q}<{R} as WalueSpec>::waccepts(d, {loc}, {args}))"
                    mat = f"{v}@.len() == {cnt} && ({q}<{R} as WalueSpec>::wmatches(d, {loc}, {args}, {v}@[k]))"
                else:
                    acc = f"({q}<{R} as ValueSpec>::accepts(d, {loc}))"
                    mat = f"{v}@.len() == {cnt} && ({q}<{R} as ValueSpec>::matches(d, {loc}, {v}@[k]))"
            elif k == "lo":
                cnt = self.expr(f.count, env)
                q = f"forall|k: int| 0 <= k < {cnt} && #[trigger] ix(k) ==> "
                acc = f"({q}opt_accepts::<{R}>({o} > 0, d, {loc}))"
                mat = f"{v}@.len() == {cnt} && ({q}opt_matches::<{R}>({o} > 0, d, {loc}, {v}@[k]))"
            elif k == "bytes0":
                acc, mat = None, f"(if {o} > 0 {{ {v} is Some && {v}->Some_0@.len() == 0 }} else {{ {v} is None }})"
            else:
                raise NotImplementedError(k)
            out.append((f, acc, mat))
        size = self.const_size(s.module + "::" + s.name)
        if size is not None:
            sz = str(size)
        elif s.size == "auto":
            sz = " + ".join(sizes) or "0"
        elif s.size is not None:
            sz = self.expr(s.size, env)
        else:
            sz = "0"
        # The size of the inline part as placed must agree with the declared size.
        return out, sz, " + ".join(sizes) or "0"

    def inline_closure(self, s, seen=None):
        seen = [] if seen is None else seen
        name = s.module + "::" + s.name
        if name in seen:
            return seen
        seen.append(name)
        for f in s.fields:
            if f.kind in ("i", "c", "o", "d"):
                r = self.st(f.type)
                if r is not None:
                    self.inline_closure(r, seen)
        if s.kind == "choice":
            for _, _, t in s.variants:
                r = self.st(self.resolve(s, t))
                if self.st(self.resolve(s, t)).fields and all(g.kind in ("i", "c", "n", "req") for g in r.fields):
                    self.inline_closure(r, seen)
        return seen

    def spec(self, s):
        name, R = self.short(s), self.rust(s.module + "::" + s.name)
        g = "<U: WalueSpec<Parameter = u16>>" if s.generic else ""
        gu = "::<U>" if s.generic else ""
        if s.generic:
            R += "<U>"
        full = s.module + "::" + s.name
        params = [self.resolve(s, t) if t not in ("u64", "usize") else t for _, t in s.params]
        ptype = None
        if params:
            rp = [self.rust(t) for t in params]
            rp = [t.replace("crate::u", "u") for t in rp]
            ptype = rp[0] if len(rp) == 1 else "(" + ", ".join(rp) + ")"
        P = f", param: {ptype}" if ptype else ""
        PA = ", param" if ptype else ""
        acc, mat, size = [], [], "0"
        if s.kind == "table":
            out, size, inline = self.layout(s)
            acc = [a for _, a, _ in out if a]
            mat = [m for _, _, m in out if m]
        elif s.kind == "flags":
            acc = ["readable(d, p, 2)", f"!fbit(be16(d, p), {s.invalid}u16)"]
            mat = ["v.0 == be16(d, p)"]
            size = "2"
        elif s.kind == "choice":
            w, off = s.peek
            key = f"be{16 if w == 'u16' else 32}(d, p + {off})"
            acc.append(f"readable(d, p, {off + (2 if w == 'u16' else 4)})")
            a, arms = "false", []
            for val, var, t in reversed(s.variants):
                t = self.rust(self.resolve(s, t))
                cond = f"{key} == {val}" if isinstance(val, int) else f"{val[0]} <= {key} <= {val[1]}"
                a = f"if {cond} {{ <{t} as ValueSpec>::accepts(d, p) }} else {{ {a} }}"
                arms.append(f"{R}::{var}(x) => {cond} && <{t} as ValueSpec>::matches(d, p, x)")
            acc.append("(" + a + ")")
            mat.append("(match v { " + ", ".join(arms) + " })")
        elif s.kind == "select":
            a, arms = "false", []
            for val, var, t in reversed(s.variants):
                t = self.rust(self.resolve(s, t))
                a = f"if param == {val} {{ <{t} as ValueSpec>::accepts(d, p) }} else {{ {a} }}"
                arms.append(f"{R}::{var}(x) => param == {val} && <{t} as ValueSpec>::matches(d, p, x)")
            acc.append("(" + a + ")")
            mat.append("(match v { " + ", ".join(arms) + " })")
        const = self.const_size(full)
        opaque = const is None
        s.opaque = opaque
        op = "#[verifier::opaque]\n" if opaque else ""
        and_ = lambda xs: "\n    &&& " + "\n    &&& ".join(xs) if xs else "true"
        tr, w = ("WalueSpec", "w") if ptype else ("ValueSpec", "")
        o = []
        o.append(f"{op}pub open spec fn {name}_accepts{g}(d: Seq<u8>, p: int{P}) -> bool {{{and_(acc)}\n}}")
        o.append(f"{op}pub open spec fn {name}_matches{g}(d: Seq<u8>, p: int{P}, v: {R}) -> bool {{{and_(mat)}\n}}")
        body = [f"open spec fn {w}framed() -> bool {{ {'true' if self.framed(s) else 'false'} }}",
                f"open spec fn {w}size({P[2:]}) -> int {{ {size} }}",
                f"open spec fn {w}accepts(d: Seq<u8>, p: int{P}) -> bool {{ {name}_accepts{gu}(d, p{PA}) }}",
                f"open spec fn {w}matches(d: Seq<u8>, p: int{P}, v: Self) -> bool {{ {name}_matches{gu}(d, p{PA}, v) }}"]
        if ptype:
            body.insert(0, f"type Parameter = {ptype};")
        o.append(f"impl{g} {tr} for {R} {{\n    " + "\n    ".join(body) + "\n}")
        if self.framed(s) and not ptype:
            o.append(f"impl{g} Framed for {R} {{ proof fn is_framed() {{ }} }}")
        d = self.default(s)
        if d is not None:
            o.append(f"impl{'<U>' if s.generic else ''} DefaultSpec for {R} {{ open spec fn is_default(self) -> bool {{ {d} }} }}")
        if s.kind == "flags":
            o.append(f"impl ParamSpec for {R} {{ open spec fn ok(self) -> bool {{ true }} }}")
        return "\n".join(o)

    # ---- defaults
    def field_type(self, f):
        """The type of a field (of the crate), as far as defaults depend on it."""
        if f.kind in ("n", "l", "lo"):
            return "Vec"
        if f.kind in ("o", "ato", "bytes0"):
            return "Option"
        return "Vec" if f.type.startswith("Vec<") else f.type

    def default(self, s):
        name = s.module + "::" + s.name
        if s.kind == "flags":
            return "self.0 == 0"
        if s.kind == "table":
            out = []
            for f in s.fields:
                if f.kind == "req":
                    continue
                t, v = self.field_type(f), f"self.{'r#type' if f.name == 'type' else f.name}"
                if t == "Vec":
                    out.append(f"{v}@.len() == 0")
                elif t == "Option":
                    out.append(f"{v} is None")
                else:
                    out.append(f"<{self.rust(t)} as DefaultSpec>::is_default({v})")
            return " && ".join(out) or "true"
        if s.kind in ("choice", "select"):
            _, var, t = s.variants[0]
            t = self.rust(self.resolve(s, t))
            return f"match self {{ {self.rust(name)}::{var}(x) => <{t} as DefaultSpec>::is_default(x), _ => false }}"
        return None

    def types_with_default(self):
        return [s.module + "::" + s.name for s in self.T if self.default(s) is not None]

    def all(self):
        out = ["pub mod specs {", "use vstd::prelude::*;", "use crate::typeface::*;",
               "broadcast use crate::typeface::facts;"]
        out.append(contracts.VOCABULARY)
        for s in self.T:
            out.append(self.spec(s))
        out.append(contracts.table_specs())
        out.append(contracts.EXTRA)
        out.append("}")
        return "\n".join(out)

    def reveals(self):
        """What the reader of each structure reveals."""
        r = {}
        for s in self.T:
            names = []
            for t in self.inline_closure(s):
                q = self.types[t]
                if getattr(q, "opaque", False):
                    names += [self.short(q) + "_accepts", self.short(q) + "_matches"]
            gens = []
            r[s.module + "::" + s.name] = names
        return r

    def variants(self):
        """What the readers of choices may see of their variants, should it be needed."""
        r = {}
        for s in self.T:
            if s.kind == "choice":
                vs = [self.st(self.resolve(s, t)) for _, _, t in s.variants]
                r[s.module + "::" + s.name] = [self.short(q) + "_accepts" for q in vs if q is not None and getattr(q, "opaque", False)]
        return r

    def chains(self):
        """The lemmas about optional fields in a row that the reader of each structure uses."""
        r = {}
        for s in self.T:
            n = sum(f.kind in ("o", "d") for f in s.fields)
            if n:
                r[s.module + "::" + s.name] = f"chain_{n}" if n > 2 else "chain_1"
        return r

    def json(self):
        res = []
        for s in self.T:
            e = dict(kind=s.kind, module=s.module, name=s.name, owner=s.owner, params=[list(p) for p in s.params],
                     generic=s.generic, framed=self.framed(s), size=s.size)
            if s.kind == "table":
                e["fields"] = []
                for f in s.fields:
                    g = {k: v for k, v in f.__dict__.items() if v is not None}
                    for k in ("cond", "count", "off"):
                        if k in g:
                            g[k] = self.jexpr(g[k])
                    if "args" in g:
                        g["args"] = [self.jexpr(a) for a in g["args"]]
                    e["fields"].append(g)
            elif s.kind == "flags":
                e["invalid"], e["bits"] = s.invalid, s.bits
            else:
                if s.kind == "choice":
                    e["peek"] = list(s.peek)
                e["variants"] = [[([v, v] if isinstance(v, int) else list(v)), n, self.resolve(s, t)] for v, n, t in s.variants]
            res.append(e)
        return res

    def jexpr(self, e):
        n = ast.parse(e, mode="eval").body if isinstance(e, str) else e
        x = self.jexpr
        if isinstance(n, ast.Constant):
            return n.value
        if isinstance(n, ast.Name):
            return ["var", n.id]
        if isinstance(n, ast.Subscript):
            return ["idx", n.value.id, x(n.slice)]
        if isinstance(n, ast.Attribute):
            return ["idxf", n.value.value.id, x(n.value.slice), n.attr]
        if isinstance(n, ast.BinOp):
            return [{ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.FloorDiv: "/", ast.Mod: "%"}[type(n.op)], x(n.left), x(n.right)]
        if isinstance(n, ast.Compare):
            out, left = [], n.left
            for o, r in zip(n.ops, n.comparators):
                op = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">="}[type(o)]
                out.append([op, x(left), x(r)])
                left = r
            return out[0] if len(out) == 1 else ["and"] + out
        if isinstance(n, ast.BoolOp):
            return ["and" if isinstance(n.op, ast.And) else "or"] + [x(v) for v in n.values]
        if isinstance(n, ast.IfExp):
            return ["if", x(n.test), x(n.body), x(n.orelse)]
        if isinstance(n, ast.Call):
            return [n.func.id] + [x(a) for a in n.args]
        raise NotImplementedError(ast.dump(n))


if __name__ == "__main__":
    import sys
    g = Gen(sys.argv[1:])
    print(g.all())
    json.dumps(g.json())
