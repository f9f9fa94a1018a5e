"""Generates programs for H01: ghyg.py DIR SEED NSTRUCTS NSCOPES

A scenario (structs, and code which uses them) written with absolute paths only is repeated in scopes: a friendly one, one where there is no
prelude, and ones where names of the prelude, of library types and traits, of macros and modules mean something of the user's.
"""
import json, os, random, sys

VARIANTS = ["Some", "None", "Ok", "Err"]
STRUCTS = ["Option", "Result", "Vec", "Box", "Rc", "Arc", "Weak", "OnceCell", "OnceLock", "RefCell", "Cell", "Ref", "RefMut", "AtomicBool", "Ordering", "RwLock", "Mutex",
           "RwLockReadGuard", "RwLockWriteGuard", "MappedRwLockReadGuard", "FieldXError", "PhantomData", "FXProxySync", "FXProxyAsync", "FXRwLockSync",
           "FXRwLockAsync", "FXStruct", "FXBuilderFallible", "FXBuilderInfallible", "String", "Pin", "Builder", "Self_", "Error", "Cow", "Infallible"]
TRAITS = ["Default", "Into", "From", "TryFrom", "Future", "Debug", "Display", "Copy", "Send", "Sync", "Sized", "Clone", "Fn", "FnOnce", "FnMut", "ToString", "AsRef", "AsMut", "Borrow",
          "Deref", "DerefMut", "Iterator", "IntoIterator", "Drop", "Eq", "PartialEq", "Unpin", "Any", "ToOwned", "FXStructSync", "FXStructAsync"]
FNS = ["drop", "take", "replace", "default", "from", "swap", "block_on"]
MODS = ["std", "core", "alloc", "fieldx", "traits", "error", "mem", "cell", "rc", "sync", "once_cell", "parking_lot", "tokio", "serde", "serde_json", "async_trait"]
MACROS = ["panic", "format", "vec", "unreachable", "todo", "matches", "assert", "write", "unimplemented", "debug_assert", "compile_error"]
O, S = "::std::option::Option", "::std::string::String"


class Struct:
    def __init__(self, r, i):
        self.name = f"S{i}"
        self.kind = kind = r.choice(["plain", "sync", "async"])
        self.rc = r.random() < 0.3
        self.serde = not self.rc and r.random() < 0.4
        self.aw = ".await" if kind == "async" else ""
        a = {"plain": [], "sync": ["sync"], "async": ["r#async"]}[kind]
        if self.rc:
            a.append("rc")
        self.err = r.random() < 0.5
        self.post = r.random() < 0.5
        b = []
        if self.post:
            b.append("post_build")
        if self.err:
            b.append("error(E)" if r.random() < 0.6 else "error(E, E::Why)")
        self.binto = r.random() < 0.3
        if self.binto:
            b.append("into")
        a.append("builder" + (f"({', '.join(b)})" if b else ""))
        if r.random() < 0.2:
            a.append("no_new")
        if r.random() < 0.3:
            a.append("default")
        r.shuffle(a)
        self.args = a
        self.fields = []
        menu = ["plain", "plain", "optional", "optional", "lazy", "lazy", "fallible", "default", "skip", "required", "late"] + (["inner", "inner"] if kind == "plain" else ["lock", "rw", "optlock"])
        for k in range(r.randint(4, 8)):
            self.field(r, f"f{k}", r.choice(menu))
        # Lazy proxies of async structs have no Clone
        can = not (kind == "async" and any(f["what"] in ("lazy", "fallible") for f in self.fields))
        self.clone = not self.rc and can and (self.serde or r.random() < 0.6)
        self.ser = self.serde and self.clone
        if self.serde:
            x = r.choice(["", "default", f"\"Shad{i}\""])
            if not self.ser:
                x = "deserialize" + (", " + x if x else "")
            a.insert(r.randint(0, len(a)), "serde" + (f"({x})" if x else ""))

    def field(self, r, n, what):
        f = dict(n=n, what=what, attrs=[], body=[], use=[])
        aw, kind = self.aw, self.kind
        t = r.choice(["u32", S])
        val = f"{r.randint(10, 99)}u32" if t == "u32" else f"::std::borrow::ToOwned::to_owned(\"v{r.randint(10, 99)}\")"
        other = f"{r.randint(100, 999)}u32" if t == "u32" else f"::std::borrow::ToOwned::to_owned(\"w{r.randint(10, 99)}\")"
        log = lambda e: f"log.push(::std::format!(\"{self.name} {n} {{:?}}\", {e}));"
        sharp = self.rc
        a, u = f["attrs"], f["use"]
        f["set_in_builder"] = False
        if what == "plain":
            a += ["get" + r.choice(["", "(clone)"] + (["(copy)"] if t == "u32" else []))]
            u.append(log(f"s.{n}()"))
            f["set_in_builder"] = True
            if not sharp:
                a += ["get_mut", r.choice(["set", "set(into)"])]
                u += [f"*s.{n}_mut() = {other};", log(f"s.set_{n}({val if t == 'u32' else val})"), log(f"s.{n}()")]
        elif what == "optional":
            a += ["optional", "get" + r.choice(["", "(clone)"] + (["(as_ref)"] if kind == "plain" else []) + (["(copy)"] if t == "u32" else []))]
            f["set_in_builder"] = r.random() < 0.5
            d = r.random() < 0.3
            if d:
                a.append(f"default({'::std::string::String::from(' if t != 'u32' else ''}{val if t == 'u32' else '%s' % json.dumps('dd')}{')' if t != 'u32' else ''})")
            u.append(log(f"s.{n}(){aw}"))
            if self.kind == "plain" and not sharp:
                a += ["predicate", "clearer", "set", "get_mut"]
                u += [log(f"s.has_{n}()"), log(f"s.clear_{n}()"), log(f"s.set_{n}({val})"), f"if let {O}::Some(x) = s.{n}_mut() {{ *x = {other}; }}", log(f"s.{n}()")]
            elif self.kind != "plain":
                a += ["predicate", "clearer", "set", "reader", "writer"]
                u += [log(f"s.has_{n}(){aw}"), log(f"s.clear_{n}(){aw}"), log(f"s.set_{n}({val}){aw}"), f"*s.write_{n}(){aw} = {O}::Some({other});", log(f"s.{n}(){aw}"), log(f"s.read_{n}(){aw}")]
        elif what == "late":
            a += ["optional", "builder(off)"]
            if self.kind == "plain" and sharp:
                a += ["inner_mut", "get(clone)", "set", "predicate"]
                u += [log(f"s.set_{n}({val})"), log(f"s.{n}()"), log(f"s.has_{n}()")]
            elif not sharp:
                a += ["get(clone)", "set"]
                u += [log(f"s.set_{n}({val}){aw}"), log(f"s.{n}(){aw}")]
        elif what in ("lazy", "fallible"):
            fal = what == "fallible"
            a += ["lazy", "get" + r.choice(["", "(clone)"] + (["(copy)"] if t == "u32" else []))] + r.sample(["predicate", "clearer"], r.randint(0, 2)) + ([r.choice(["set", "set(into)"])] if r.random() < 0.5 else [])
            if fal:
                a.append("fallible(error(E))")
            if self.rc:
                pass
            ret = f"::std::result::Result<{t}, E>" if fal else t
            v = f"::std::result::Result::Ok({val})" if fal else val
            f["body"].append(f"{'async ' if self.kind == 'async' else ''}fn build_{n}(&self) -> {ret} {{ {v} }}")
            u += [log(f"s.has_{n}()")] if "predicate" in a else []
            u.append(log(f"s.{n}(){aw}"))
            if self.kind != "plain" or not sharp:
                if any(x.startswith("set") for x in a):
                    u += [log(f"s.set_{n}({other}){aw}"), log(f"s.{n}(){aw}")]
                if "clearer" in a:
                    u += [log(f"s.clear_{n}(){aw}"), log(f"s.{n}(){aw}")]
                if "predicate" in a and self.kind != "plain":
                    u.append(log(f"s.has_{n}()"))
            f["set_in_builder"] = r.random() < 0.3
        elif what == "default":
            a += ["get(clone)", f"default({val if t == 'u32' else '::std::string::String::from(%s)' % json.dumps('df')})"]
            u.append(log(f"s.{n}()"))
            f["set_in_builder"] = r.random() < 0.4
        elif what == "skip":
            a += ["skip"]
        elif what == "required":
            a += ["builder(required)", "get(clone)"]
            u.append(log(f"s.{n}()"))
            f["set_in_builder"] = True
        elif what == "inner":
            a += ["inner_mut", "get" + r.choice(["", "(clone)"] + (["(copy)"] if t == "u32" else [])), "set", "get_mut"] + (["builder(off)"] if r.random() < 0.2 else [])
            u += [log(f"s.{n}()"), log(f"s.set_{n}({other})"), f"*s.{n}_mut() = {val};", log(f"s.{n}()")]
            f["set_in_builder"] = "builder(off)" not in a
        elif what in ("lock", "rw"):
            a += (["lock"] if what == "lock" else ["reader", "writer"]) + [r.choice(["get(clone)"] + (["get(copy)"] if t == "u32" else [])), "set"]
            if what == "lock":
                a += ["get_mut"]
            u += [log(f"s.{n}(){aw}"), log(f"s.set_{n}({other}){aw}"), log(f"s.{n}(){aw}")]
            if what == "lock":
                u += [f"{{ *s.{n}_mut(){aw} = {val}; }}"]
            else:
                u += [log(f"s.read_{n}(){aw}"), f"{{ *s.write_{n}(){aw} = {val}; }}"]
            u += [log(f"s.{n}(){aw}")]
            f["set_in_builder"] = True
        elif what == "optlock":
            a += ["optional", "lock", "get(clone)", "set", "clearer", "predicate"] + r.sample(["reader", "writer"], r.randint(0, 2))
            u += [log(f"s.has_{n}(){aw}"), log(f"s.set_{n}({val}){aw}"), log(f"s.{n}(){aw}"), log(f"s.clear_{n}(){aw}"), log(f"s.has_{n}(){aw}")]
            f["set_in_builder"] = r.random() < 0.5
        if self.serde and what != "skip" and r.random() < 0.15:
            a.append("serde(off)")
        f["t"], f["val"] = t, val
        r.shuffle(a)
        self.fields.append(f)

    def text(self):
        o = []
        if self.clone:
            o.append("#[derive(Clone)]")
        o = [f"#[::fieldx::fxstruct({', '.join(self.args)})]"] + o
        o.append(f"pub struct {self.name} {{")
        for f in self.fields:
            o.append(f"    #[fieldx({', '.join(f['attrs'])})]\n    {f['n']}: {f['t']},")
        o.append("}")
        o.append(f"impl {self.name} {{")
        for f in self.fields:
            o += ["    " + b for b in f["body"]]
        if self.post:
            ty = "::std::rc::Rc<Self>" if self.rc and self.kind == "plain" else "::std::sync::Arc<Self>" if self.rc else "Self"
            ty = "Self"
            o.append(f"    fn post_build(self) -> " + (f"::std::result::Result<{ty}, E> {{ ::std::result::Result::Ok(self) }}" if self.err else f"{ty} {{ self }}"))
        o.append("}")
        o.append(f"{'async ' if self.kind == 'async' else ''}fn use_{self.name.lower()}(log: &mut ::std::vec::Vec<{S}>) {{")
        o.append(f"    log.push(::std::format!(\"{self.name} incomplete {{}}\", {self.name}::builder().build().is_err()));" if any(f["set_in_builder"] and f["what"] in ("plain", "required") for f in self.fields) else "")
        sets = "".join(f".{f['n']}({f['val']})" for f in self.fields if f["set_in_builder"])
        o.append(f"    let mut s = match {self.name}::builder(){sets}.build() {{ ::std::result::Result::Ok(s) => s, ::std::result::Result::Err(e) => {{ log.push(::std::format!(\"{self.name} {{:?}}\", e)); return; }} }};")
        for f in self.fields:
            o += ["    " + u for u in f["use"] if u]
        if self.clone:
            o.append("    let s = ::std::clone::Clone::clone(&s);")
            for f in self.fields:
                o += ["    " + u for u in f["use"][:1] if u and "set_" not in u and "_mut" not in u]
        if self.rc:
            o.append(f"    log.push(::std::format!(\"{self.name} rc {{}}\", s.myself().is_some()));")
        if self.ser:
            o.append(f"    let j = ::serde_json::to_string(&s);")
            o.append(f"    log.push(::std::format!(\"{self.name} json {{:?}}\", j));")
        if self.serde:
            o.append(f"    let b: ::std::result::Result<{self.name}, _> = ::serde_json::from_str(\"{{}}\");")
            o.append(f"    log.push(::std::format!(\"{self.name} back {{:?}}\", b.map(|_| ())));")
        o.append("}")
        return o


PRE = """use ::fieldx::fxstruct;
use ::serde::{Serialize, Deserialize};
#[derive(Debug, Clone)]
pub enum E { Field(::fieldx::error::FieldXError), Why(::std::string::String) }
impl ::std::convert::From<::fieldx::error::FieldXError> for E { fn from(e: ::fieldx::error::FieldXError) -> Self { E::Field(e) } }
impl ::std::fmt::Display for E { fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result { ::std::fmt::Debug::fmt(self, f) } }"""

METHODS = "use ::std::{borrow::{Borrow as _, ToOwned as _, BorrowMut as _}, clone::Clone as _, convert::{AsMut as _, AsRef as _, From as _, Into as _, TryFrom as _, TryInto as _}, default::Default as _, iter::{IntoIterator as _, Iterator as _}, string::ToString as _, ops::{Deref as _, DerefMut as _}, cmp::{PartialEq as _}};"


def scope(r, k):
    """(attributes, lines put before, description)"""
    if k == 0:
        return "", ["use ::std::prelude::v1::*;"], "usual names"
    if k == 1:
        return "#[no_implicit_prelude]", [METHODS], "no prelude (traits are there for their methods only)"
    p = r.choice([0.15, 0.5, 1.0]) if k > 2 else 1.0
    pick = lambda l: [x for x in l if r.random() < p]
    vs, ss, ts, fs, ms, mc = (pick(x) for x in (VARIANTS, STRUCTS, TRAITS, FNS, MODS, MACROS))
    # The prelude is there, and what is imported by a glob or is local goes first
    lines = [METHODS] + [f"macro_rules! {m} {{ ($($t:tt)*) => {{ ::std::compile_error!(\"the user's macro {m} is called\") }} }}" for m in mc]
    lines.append("mod hostile {")
    if vs:
        lines.append("    pub enum Variants { " + ", ".join(vs) + " }\n    pub use self::Variants::*;")
    lines += [f"    pub struct {s};" for s in ss] + [f"    pub trait {t} {{}}" for t in ts] + [f"    pub fn {f}() {{}}" for f in fs] + [f"    pub mod {m} {{}}" for m in ms]
    lines.append("}\nuse self::hostile::*;")
    return "", lines, "the user's " + " ".join(vs + ss + ts + fs + [m + "::" for m in ms] + [m + "!" for m in mc])


def main():
    d, seed, ns, nscopes = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4])
    r = random.Random(seed * 7919 + 5)
    structs = [Struct(r, i) for i in range(ns)]
    body = [PRE]
    for s in structs:
        body += s.text()
    body.append(f"pub fn run() -> ::std::vec::Vec<{S}> {{\n    let mut log = ::std::vec::Vec::new();")
    for s in structs:
        c = f"use_{s.name.lower()}(&mut log)"
        body.append("    " + (f"crate::block({c});" if s.kind == "async" else f"{c};"))
    body.append("    log\n}")
    body = "\n".join(body)
    lines = ["""fn block<F: ::std::future::Future>(f: F) -> F::Output {
    let mut f = ::std::boxed::Box::pin(f);
    let w = ::std::task::Waker::noop();
    loop { if let ::std::task::Poll::Ready(v) = f.as_mut().poll(&mut ::std::task::Context::from_waker(w)) { return v; } }
}"""]
    scopes = []
    for k in range(nscopes):
        attr, pre, what = scope(r, k)
        txt = f"{attr}\nmod scope{k} {{\n" + "\n".join(pre) + "\n" + body + "\n}"
        start = "\n".join(lines).count("\n") + 2
        lines.append(txt)
        scopes.append(dict(k=k, start=start, what=what))
    lines.append("fn main() {")
    for k in range(nscopes):
        lines.append(f"    for l in scope{k}::run() {{ println!(\"{k} {{}}\", l); }}")
    lines.append("    println!(\"END\");\n}")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, "hyg.rs"), "w") as fh:
        fh.write("\n".join(lines) + "\n")
    json.dump(dict(scopes=scopes, structs=len(structs), fields=sum(len(s.fields) for s in structs)), open(os.path.join(d, "index.json"), "w"))


main()
