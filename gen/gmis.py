#!/usr/bin/env python3
"""Generates programs which must be rejected by the macro, their valid neighbours, and arbitrary ones: gmis.py OUTDIR SEED

bad.rs: programs to be rejected, and arbitrary ones. good.rs: programs to be accepted by the macro.
index.json: where each program is and what is expected about it.
"""
import itertools, json, os, random, sys

# form: (name, text, active). An inactive one ("off") doesn't conflict with anything.
STRUCT = [
    ("sync", "sync", 1), ("sync", "sync(off)", 0), ("async", "r#async", 1), ("async", "r#async(off)", 0),
    ("mode", "mode(sync)", 1), ("mode", "mode(async)", 1), ("mode", "mode(plain)", 1),
    ("builder", "builder", 1), ("builder", "builder(off)", 0), ("builder", 'builder("with_", into)', 1), ("builder", "builder(opt_in)", 1),
    ("builder", "builder(post_build)", 1), ("builder", "builder(post_build(fin), error(MyErr))", 1), ("builder", "builder(required, private)", 1),
    ("into", "into", 1), ("into", "into(off)", 0), ("no_new", "no_new", 1), ("no_new", "no_new(off)", 0), ("default", "default", 1), ("default", "default(off)", 0),
    ("rc", "rc", 1), ("rc", "rc(off)", 0), ("rc", 'rc("me")', 1),
    ("attributes", "attributes(derive(Clone))", 1), ("attributes_impl", "attributes_impl(allow(dead_code))", 1),
    ("fallible", "fallible(error(MyErr))", 1), ("fallible", "fallible(off, error(MyErr))", 0), ("fallible", "fallible(off)", 0),
    ("lazy", "lazy", 1), ("lazy", "lazy(off)", 0), ("lazy", 'lazy("make_")', 1),
    ("get", "get", 1), ("get", "get(off)", 0), ("get", 'get("get_", public(crate))', 1), ("get", "get(clone)", 1), ("get", "get(copy)", 1), ("get", "get(as_ref)", 1),
    ("get_mut", "get_mut", 1), ("get_mut", "get_mut(private)", 1), ("set", "set", 1), ("set", "set(into)", 1), ("set", 'set("put_")', 1),
    ("reader", "reader", 1), ("reader", "reader(off)", 0), ("writer", "writer", 1), ("clearer", "clearer", 1), ("clearer", "clearer(attributes_fn(inline))", 1),
    ("predicate", "predicate", 1), ("optional", "optional", 1), ("optional", "optional(off)", 0),
    ("public", "public", 1), ("public", "public(crate)", 1), ("public", "public(super)", 1), ("private", "private", 1), ("private", "private(off)", 0),
    ("clone", "clone", 1), ("clone", "clone(off)", 0), ("copy", "copy", 1), ("copy", "copy(off)", 0),
    ("lock", "lock", 1), ("lock", "lock(off)", 0), ("inner_mut", "inner_mut", 1), ("inner_mut", "inner_mut(off)", 0),
    ("serde", "serde", 1), ("serde", "serde(off)", 0), ("serde", "serde(serialize(off))", 1), ("serde", 'serde("Shade", public)', 1),
]
FIELD = [
    ("skip", "skip", 1),
    ("sync", "sync", 1), ("sync", "sync(off)", 0), ("async", "r#async", 1), ("mode", "mode(sync)", 1), ("mode", "mode(async)", 1), ("mode", "mode(plain)", 1),
    ("attributes_fn", "attributes_fn(inline)", 1),
    ("fallible", "fallible(error(MyErr))", 1), ("fallible", "fallible(off)", 0),
    ("lazy", "lazy", 1), ("lazy", "lazy(off)", 0), ("lazy", 'lazy("make_it")', 1),
    ("rename", 'rename("other")', 1),
    ("get", "get", 1), ("get", "get(off)", 0), ("get", 'get("getit", public(crate))', 1), ("get", "get(clone)", 1), ("get", "get(copy)", 1), ("get", "get(as_ref)", 1),
    ("get_mut", "get_mut", 1), ("get_mut", 'get_mut("mutit")', 1), ("set", "set", 1), ("set", "set(into)", 1), ("set", "set(off)", 0),
    ("reader", "reader", 1), ("reader", "reader(off)", 0), ("writer", "writer", 1), ("clearer", "clearer", 1), ("clearer", "clearer(off)", 0),
    ("predicate", "predicate", 1), ("optional", "optional", 1), ("optional", "optional(off)", 0),
    ("public", "public", 1), ("public", "public(super)", 1), ("private", "private", 1), ("private", "private(off)", 0),
    ("default", "default(12)", 1), ("default", "default", 1), ("default", "default(off)", 0),
    ("builder", "builder", 1), ("builder", "builder(off)", 0), ("builder", 'builder("give", into)', 1), ("builder", "builder(required)", 1),
    ("into", "into", 1), ("into", "into(off)", 0),
    ("clone", "clone", 1), ("clone", "clone(off)", 0), ("copy", "copy", 1), ("copy", "copy(off)", 0),
    ("lock", "lock", 1), ("lock", "lock(off)", 0), ("inner_mut", "inner_mut", 1), ("inner_mut", "inner_mut(off)", 0),
    ("serde", "serde", 1), ("serde", "serde(off)", 0), ("serde", 'serde("nm", default(1))', 1),
]
# Arguments of different sets of a group contradict
S_EXCL = [[["public"], ["private"]], [["copy"], ["clone"]], [["sync", "async"], ["inner_mut"], ["mode"]], [["lazy"], ["optional", "inner_mut"]], [["serde"], ["rc"]]]
F_EXCL = [[["public"], ["private"]], [["copy"], ["clone"]], [["lazy"], ["optional", "inner_mut"]], [["fallible"], ["lock", "optional", "inner_mut"]],
          [["sync"], ["async"], ["inner_mut"], ["mode"]]]
HELPERS_S = ["get", "get_mut", "set", "reader", "writer", "clearer", "predicate", "lazy", "builder", "rc"]
HELPERS_F = ["get", "get_mut", "set", "reader", "writer", "clearer", "predicate", "lazy", "builder"]
KEYWORDS_S = ["sync", "r#async", "into", "no_new", "default", "optional", "clone", "copy", "lock", "inner_mut", "private"]
KEYWORDS_F = ["sync", "r#async", "into", "optional", "clone", "copy", "lock", "inner_mut", "private"]


def conflict(a, b, excl):
    """Names of arguments of which at least one must be mentioned, or None if there's no conflict"""
    if a[0] == b[0]:
        return [a[0]]
    if not (a[2] and b[2]):
        return None
    for g in excl:
        ia = [i for i, s in enumerate(g) if a[0] in s]
        ib = [i for i, s in enumerate(g) if b[0] in s]
        if ia and ib and ia != ib:
            return [a[0], b[0]]
    return None


class Gen:
    def __init__(self, seed):
        self.r = random.Random(seed * 31 + 11)
        self.bad, self.good, self.index = [], [], {"bad": [], "good": []}

    def put(self, which, lines, **info):
        dst = self.bad if which == "bad" else self.good
        n = len(self.index[which])
        dst.append(f"mod p{n} {{ use fieldx::fxstruct; use serde::{{Serialize, Deserialize}}; #[derive(Debug)] pub struct MyErr;")
        start = len(dst) + 1
        dst.extend(lines)
        dst.append("}")
        self.index[which].append(dict(info, start=start, end=len(dst), text="\n".join(lines)))

    def struct(self, sargs, fargs, bare_field=False, generics=""):
        l = [f"#[fxstruct({sargs})]" if sargs is not None else "#[fxstruct]", f"pub struct S{generics} {{"]
        if fargs is not None:
            l.append(f"#[fieldx({fargs})]")
        l += ["a: u32,", "}"]
        return l

    def reject(self, lines, mention, what, line=None):
        self.put("bad", lines, kind="reject", mention=mention, what=what, line=line)

    def accept(self, lines, what):
        self.put("good", lines, kind="accept", what=what)

    def pairs(self):
        for pool, excl, lvl in ((STRUCT, S_EXCL, "struct"), (FIELD, F_EXCL, "field")):
            for a, b in itertools.combinations(pool, 2):
                if self.r.random() < 0.5:
                    a, b = b, a
                c = conflict(a, b, excl)
                t = f"{a[1]}, {b[1]}"
                lines = self.struct(t, "get" if self.r.random() < 0.3 else None) if lvl == "struct" else self.struct("", t)
                if c:
                    self.reject(lines, c, f"contradicting {lvl} arguments", 0 if lvl == "struct" else 2)
                elif self.sensible(a, b, lvl):
                    self.accept(lines, f"compatible {lvl} arguments")

    def sensible(self, a, b, lvl):
        """Arguments which don't contradict but can't be used together for other reasons: a value is demanded by something"""
        names = {a[0], b[0]}
        txt = {a[1], b[1]}
        return True

    def triples(self, n):
        """More than two arguments where there is exactly one contradiction"""
        for _ in range(n):
            lvl = self.r.choice(["struct", "field"])
            pool, excl = (STRUCT, S_EXCL) if lvl == "struct" else (FIELD, F_EXCL)
            k = self.r.randint(3, 6)
            l = self.r.sample(pool, k)
            cs = [c for a, b in itertools.combinations(l, 2) for c in [conflict(a, b, excl)] if c]
            t = ", ".join(x[1] for x in l)
            lines = self.struct(t, None) if lvl == "struct" else self.struct("", t)
            if cs:
                self.reject(lines, [x for c in cs for x in c], f"contradicting {lvl} arguments", 0 if lvl == "struct" else 2)
            else:
                self.accept(lines, f"compatible {lvl} arguments")

    def forms(self):
        r = self.r

        def s(args, mention, what):
            self.reject(self.struct(args, None), mention, what, 0)

        def f(args, mention, what):
            self.reject(self.struct("", args), mention, what, 2)

        bogus = ["bogus", "gett", "getter", "async_", "skp", "Get", "on", "enable"]
        for b in bogus:
            s(b, [b], "unknown struct argument")
            s(f"get, {b}(1)", [b], "unknown struct argument")
            f(b, [b], "unknown field argument")
            f(f"{b} = 1, get", [b], "unknown field argument")
        # Arguments of another level
        for a in ["skip", 'rename("x")', "attributes_fn(inline)"]:
            s(a, [a.split("(")[0]], "field argument at struct level")
        for a in ["no_new", "rc", "attributes(inline)", "attributes_impl(inline)"]:
            f(a, [a.split("(")[0]], "struct argument at field level")
        for fn, hs, kws in ((s, HELPERS_S, KEYWORDS_S), (f, HELPERS_F, KEYWORDS_F)):
            for h in hs:
                fn(f"{h}(bogus)", ["bogus"], "unknown subargument")
                fn(f"{h}(public, private)", ["public", "private"], "contradicting subarguments")
                fn(f"{h}(public(crate), private)", ["public", "private"], "contradicting subarguments")
                fn(f'{h}("one", "two")', ["literal"], "too many literals")
                for lit in ("1", "'c'", "2.5", "true", 'b"bytes"'):
                    fn(f"{h}({lit})", ["literal", "Str", "type", "bool", "unexpected", "string"], "literal of wrong type")
                fn(f"{h}(public(everywhere(1)))", ["everywhere", "path", "`(`", "(", "token"], "wrong visibility")
                fn(f'{h}(public("crate"))', ["iteral", "string", "few"], "wrong visibility")
                fn(f"{h}(public(crate, super))", ["many"], "wrong visibility")
                fn(f"{h}(off, off)", ["off"], "duplicated subargument")
                fn(f"{h}(attributes_fn)", ["word", "format"], "attributes without a list")
                fn(f"{h} = 3", ["type", "literal", "format", "nexpected"], "wrong kind of argument")
            for k in kws:
                fn(f'{k}("text")', ["literal", "Literal"], "literal for a keyword")
                fn(f"{k}(bogus)", ["bogus"], "unknown subargument")
                fn(f"{k}(1)", ["literal"], "literal for a keyword")
                fn(f"{k}(off, off)", ["off"], "duplicated subargument")
            for p in ("copy, clone", "clone, as_ref", "as_ref, copy"):
                fn(f"get({p})", [x.strip() for x in p.split(",")], "contradicting subarguments")
            fn("mode(bogus)", ["sync"], "wrong mode")
            self.reject(self.struct("mode()", None) if fn is s else self.struct("", "mode()"), ["sync", "ident", "expected", "nexpected"], "wrong mode")
            fn("mode", ["keyword", "argument"], "wrong mode")
            fn("mode(sync, async)", ["nexpected"], "wrong mode")
            fn("fallible(bogus)", ["bogus"], "unknown subargument")
            fn("fallible(error)", ["keyword", "argument"], "no error type")
            fn('fallible(error("MyErr"))', ["expected", "ident"], "error type of wrong kind")
            fn("public(somewhere(1))", ["somewhere", "path", "(", "token"], "wrong visibility")
            fn("serde(public, private)", ["public", "private"], "contradicting subarguments")
            fn("serde(bogus)", ["bogus"], "unknown subargument")
            fn('serde("a", "b")', ["literal"], "too many literals")
        for a, m in (("lazy", "lazy"), ("lazy, get", "lazy")):
            s(f"{a}, fallible", ["error type"], "fallible without error type")
            f(f"{a}, fallible", ["error type"], "fallible without error type")
        for a in ("opt_in", "post_build", "post_build(x)", "error(MyErr)"):
            f(f"builder({a})", [a.split("(")[0]], "struct-only subargument of builder")
        s("builder(error)", ["keyword", "argument"], "no error type")
        s("builder(error())", ["few", "error"], "no error type")
        s("builder(error(A, B, C))", ["many"], "too many error types")
        s("builder(post_build(1))", ["ident"], "wrong method name")
        s("builder(post_build(a, b))", ["nexpected"], "wrong method name")
        f("rename", ["literal", "argument"], "no name")
        f("rename(1)", ["type", "literal", "int"], "wrong name")
        f('rename("a", "b")', ["literal"], "too many names")
        f("default(off, 1, 2)", ["many"], "too many values")
        f("default(1, 2)", ["off"], "too many values")
        f("skip(off)", ["skip", "format"], "argument of a flag")
        # Names which can't be ones of methods
        for nm in ("two words", "1st", "a-b", "a.b", "a::b", "!"):
            for h in HELPERS_F:
                f(f'{h}("{nm}")' + (", get" if h == "lazy" else ""), ["identifier", nm], "invalid method name")
            f(f'get, rename("{nm}")', ["identifier", nm], "invalid field alias")
        for nm in ("two words ", "1", "a-", "a.", "a::", "!"):
            for h in HELPERS_S:
                if h in ("rc", "get_mut"):
                    continue
                self.reject(self.struct(f'{h}("{nm}"), sync' + (", get" if h == "lazy" else ""), None), ["identifier", nm], "invalid method prefix", 0)
            s(f'rc("{nm}")', ["identifier", nm], "invalid method name")
        for nm in ("two words", "1st", "a-b"):
            s(f'serde("{nm}")', ["identifier", nm], "invalid struct name")
            s(f'serde(default("{nm}"))', ["default", nm, "expected"], "invalid function name")
        # Items
        for item in ("pub struct S(u32);", "pub struct S;", "pub enum S { A, B }", "pub union S { a: u32 }"):
            self.reject([f"#[fxstruct(get)]", item], ["shape", "struct", "union", "upported"], "not a struct with named fields")
        for item in ("pub fn f() {}", "pub trait T {}", "pub type T = u32;", "pub const C: u32 = 1;", "impl Clone for MyErr { fn clone(&self) -> Self { MyErr } }"):
            self.reject([f"#[fxstruct(get)]", item], ["expected", "struct"], "not a struct")
        # Several fields: the wrong one is pointed at
        for _ in range(40):
            n = r.randint(2, 6)
            k = r.randrange(n)
            w, m = r.choice([("lazy, optional", ["lazy", "optional"]), ("bogus", ["bogus"]), ("get(copy, clone)", ["copy", "clone"]), ("public, private", ["public", "private"]),
                             ("get, get", ["get"]), ("rename(3)", ["literal", "type"]), ("fallible(error(MyErr)), lock", ["fallible", "lock"]), ("sync, mode(async)", ["sync", "mode"])])
            lines = [f"#[fxstruct({r.choice(['', 'get', 'sync', 'builder, set'])})]", "pub struct S {"]
            at = None
            for i in range(n):
                if i == k:
                    at = len(lines)
                    lines.append(f"#[fieldx({w})]")
                elif r.random() < 0.5:
                    lines.append(f"#[fieldx({r.choice(['get', 'set', 'clearer', 'default(1)', 'optional, get', 'lock', 'inner_mut'])})]")
                lines.append(f"f{i}: u32,")
            lines.append("}")
            self.reject(lines, m, "one wrong field among others", at)

    # Arbitrary arguments
    WORDS = ["get", "get_mut", "set", "reader", "writer", "clearer", "predicate", "lazy", "builder", "rc", "sync", "r#async", "async", "mode", "plain", "into", "no_new", "default",
             "optional", "clone", "copy", "as_ref", "lock", "inner_mut", "private", "public", "crate", "super", "self", "Self", "serde", "serialize", "deserialize", "forward_attrs", "attributes",
             "attributes_fn", "attributes_impl", "fallible", "error", "off", "rename", "skip", "required", "opt_in", "post_build", "init", "MyErr", "u32", "fn", "derive", "Clone", "Debug", "allow", "cfg",
             "r#type", "_", "x", "in", "doc", "inline", "String"]
    LITS = ['"name"', '""', '"two words"', '"1x"', '"fn"', '"self"', '"r#fn"', '"a::b"', '"a b::c"', '"_"', "1", "-1", "1.5", "'c'", "true", 'b"b"', '"\\u{e9}t\\u{e9}"', '"Self::f"', '" "', '"{}"', "1u8", "0xff", "c\"c\"", 'r"raw"', "b'x'"]
    PUNCT = ["=", "::", ".", "<", ">", "!", "#", "&", "|", ";", "?", "$", "'a", "=>", "+", "-", "..", "@", "*"]

    def soup(self, depth=0):
        r = self.r
        o = []
        for _ in range(r.choice([0, 1, 1, 1, 2, 2, 3])):
            k = r.random()
            if k < 0.5:
                o.append(r.choice(self.WORDS))
                if r.random() < 0.45 and depth < 3:
                    o[-1] += r.choice(["({})", "({})", "({})", "[{}]", "{{{}}}"]).format(self.soup(depth + 1))
            elif k < 0.75:
                o.append(r.choice(self.LITS))
            elif k < 0.85:
                o.append(r.choice(self.WORDS) + " = " + r.choice(self.LITS + self.WORDS))
            elif k < 0.93:
                o.append(r.choice(self.WORDS) + "::" + r.choice(self.WORDS))
            else:
                o.append(r.choice(self.PUNCT))
        return r.choice([", ", ", ", ", ", " ", ",, "]).join(o) + r.choice(["", "", "", "", ","])

    def mutated(self, pool):
        r = self.r
        l = [x[1] for x in r.sample(pool, r.randint(1, 4))]
        out = []
        for t in l:
            k = r.random()
            if k < 0.35 and "(" in t:
                head, rest = t.split("(", 1)
                t = f"{head}({r.choice([self.soup(1), rest[:-1] + ', ' + self.soup(1)])})"
            elif k < 0.6 and "(" not in t:
                t = f"{t}({self.soup(1)})"
            elif k < 0.66:
                t = t.split("(")[0] + " = " + r.choice(self.LITS)
            elif k < 0.7:
                t = self.soup()
            out.append(t)
        return ", ".join(out)

    ITEMS = [("", "a: u32,"), ("<T: Clone>", "a: T,"), ("<'a, T: 'a>", "a: &'a T,"), ("<const N: usize>", "a: [u8; N],"), ("<T> where_", "a: Option<T>,"), ("", "r#type: String,"),
             ("", "a: Box<dyn Fn(u32) -> u32>,"), ("", "a: (u32, String),"), ("", "_a: [u8; { 1 + 1 }],"), ("", ""), ("", "a: fn(),"), ("", "pub(crate) a: u32,"), ("", "a: impl_,"), ("", "__a__: u32,"), ("", "\u00e9t\u00e9: u32,")]

    def fuzz(self, n):
        r = self.r
        for _ in range(n):
            g, fl = r.choice(self.ITEMS) if r.random() < 0.4 else self.ITEMS[0]
            wh = ""
            if g.endswith("where_"):
                g, wh = "<T>", " where T: Clone"
            fl = fl.replace("impl_", "Vec<<u32 as std::str::FromStr>::Err>")
            k = r.random()
            sa = self.mutated(STRUCT) if k < 0.6 else ", ".join(x[1] for x in r.sample(STRUCT, r.randint(0, 4)))
            fa = self.mutated(FIELD) if k > 0.4 else ", ".join(x[1] for x in r.sample(FIELD, r.randint(0, 4)))
            l = [f"#[fxstruct({sa})]", f"pub struct S{g}{wh} {{"]
            if fl and r.random() < 0.85:
                l.append(f"#[fieldx({fa})]" if r.random() < 0.95 else r.choice(["#[fieldx]", "#[fieldx = 1]", '#[fieldx = "x"]', "#[fieldx[get]]", "#[fieldx{get}]", "#[fieldx(get)] #[fieldx(set)]", "#[fieldx(get)] #[fieldx(get)]", "#[fieldx()]"]))
            if fl:
                l.append(fl)
            l.append("}")
            self.put("bad", l, kind="fuzz", what="arbitrary arguments")


def main():
    out, seed = sys.argv[1], int(sys.argv[2])
    nf = int(sys.argv[3]) if len(sys.argv) > 3 else 3000
    g = Gen(seed)
    g.pairs()
    g.triples(300)
    g.forms()
    g.fuzz(nf)
    os.makedirs(out, exist_ok=True)
    for n, t in (("bad.rs", "\n".join(g.bad) + "\n"), ("good.rs", "\n".join(g.good) + "\ncompile_error!(\"the end\");\n"), ("index.json", json.dumps(g.index))):
        with open(os.path.join(out, n), "w") as fh:
            fh.write(t)
    print({k: len(v) for k, v in g.index.items()}, file=sys.stderr)


if __name__ == "__main__":
    main()
