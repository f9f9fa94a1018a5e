#!/usr/bin/env python3
"""Generates structs to find out which methods exist, under what names, and where from they're visible: gvis.py OUTDIR [SEED [N]]

For every struct the documentation is used to predict the set of methods with their visibility. The generated program then asks
the compiler, from each of six places, what `Struct::name` resolves to, for the predicted names and for many other names which
would come out of another interpretation of the arguments.
"""
import os, random, sys
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)

HELPERS = ["get", "get_mut", "set", "clearer", "predicate", "reader", "writer"]
DEF = {"get": "", "get_mut": "", "set": "set_", "clearer": "clear_", "predicate": "has_", "reader": "read_", "writer": "write_",
       "builder": ""}
ALT = {"get": ["get_", "fetch_"], "get_mut": ["mut_", "edit_"], "set": ["put_", "assign_"], "clearer": ["reset_", "drop_"],
       "predicate": ["is_set_", "known_"], "reader": ["rd_", "look_"], "writer": ["wr_", "pen_"], "builder": ["with_", "give_"]}
SUF = {"get_mut": "_mut"}
NAMES = ["alpha", "beta", "gamma", "delta", "item", "count_of", "x", "inner", "r9", "vis_a", "r#type", "_low"]
LOCS = ["same", "child", "b", "a", "crate", "ext"]
# Visibility as an argument -> where it reaches
REACH = {"private": 2, "public(super)": 3, "public(crate::gvis::%s)": 4, "public(crate)": 5, "public": 6}
ITEM = {"": 2, "pub(super)": 3, "pub(in crate::gvis::%s)": 4, "pub(crate)": 5, "pub": 6}


class H:
    """Arguments of a helper"""
    def __init__(self):
        self.off = False
        self.lit = None
        self.vis = None
        self.attr = None      # None, True: cfg(all()), False: cfg(any())

    def subs(self):
        r = []
        if self.off:
            r.append("off")
        if self.lit is not None:
            r.append(f'"{self.lit}"')
        if self.vis:
            r.append(self.vis)
        if self.attr is not None:
            r.append(attrs_arg("attributes_fn", self.attr))
        return r

    def text(self, h, rnd):
        s = self.subs()
        rnd.shuffle(s)
        return h + (f"({', '.join(s)})" if s else "")


ARND = random.Random(1)


def attrs_arg(kw, on, impl=False):
    """An attribute of the kind which tells if it has been applied, among of ones which don't matter"""
    l = ["cfg(all())" if on else "cfg(any())"]
    for x in ["allow(dead_code)", "allow(clippy::all, unused)", 'doc = "a, b"', "rustfmt::skip"]:
        if ARND.random() < .3:
            l.append(x)
    ARND.shuffle(l)
    return f"{kw}({', '.join(l)}{',' if ARND.random() < .2 else ''})"


class F:
    @property
    def bare(self):
        return self.name.replace("r#", "")


class S:
    pass


def rand_vis(rnd, amod, p=.4):
    if rnd.random() >= p:
        return None
    v = rnd.choice(list(REACH))
    return v % amod if "%s" in v else v


def reach(v):
    for k, r in REACH.items():
        if "%s" in k:
            if v.startswith("public(crate::"):
                return r
        elif k == v:
            return r
    raise KeyError(v)


def make(rnd, i):
    s = S()
    s.name = f"V{i}"
    s.amod, s.bmod, s.mod = f"a{i % 4}", "b", f"m{i}"
    s.mode = rnd.choice(["plain", "sync", "async"])
    s.item = rnd.choice(["", "pub(super)", "pub(in crate::gvis::%s)", "pub(crate)", "pub", "pub", "pub"])
    s.reach = ITEM[s.item]
    s.item = s.item % s.amod if "%s" in s.item else s.item
    s.vis = rand_vis(rnd, s.amod, .35)
    s.generic = rnd.random() < .15
    s.h = {}
    s.rc = None
    if rnd.random() < .2:
        s.rc = H()
        s.rc.vis = rand_vis(rnd, s.amod, .6)
        if rnd.random() < .4:
            s.rc.lit = rnd.choice(["me", "own"])
    for h in HELPERS:
        if rnd.random() < .3:
            x = s.h[h] = H()
            x.off = rnd.random() < .1
            if not x.off:
                x.lit = rnd.choice(ALT[h]) if rnd.random() < .35 else None
                if x.lit is None and h in ("get", "get_mut") and rnd.random() < .1:
                    x.lit = ""
                x.vis = rand_vis(rnd, s.amod, .35)
                x.attr = rnd.choice([True, False, False]) if rnd.random() < .2 else None
    s.lazy = rnd.random() < .12
    s.inner = s.mode == "plain" and not s.lazy and rnd.random() < .1
    if s.inner:
        # Contradicts to what inner mutability is for
        s.h.pop("reader", None)
        s.h.pop("writer", None)
    s.builder = None
    if rnd.random() < .5:
        b = s.builder = H()
        b.lit = rnd.choice(ALT["builder"]) if rnd.random() < .4 else None
        b.vis = rand_vis(rnd, s.amod, .4)
        b.opt_in = rnd.random() < .25
        b.derive = rnd.random() < .4
        b.impl_attr = rnd.random() < .15
        b.attr = None
        b.ser = b.derive and not s.rc and not s.generic and rnd.random() < .8
    s.serde = None
    if not s.rc and not s.generic and rnd.random() < .25:
        s.serde = H()
        s.serde.vis = rand_vis(rnd, s.amod, .6)
        s.serde.lit = f"Shade{i}" if rnd.random() < .5 else None
        s.serde.derive = rnd.random() < .4
    s.no_new = rnd.random() < .15
    s.default = rnd.choice([None] * 6 + [True])
    s.attrs_clone = rnd.random() < .25         # attributes(derive(Clone))
    s.impl_attr = None
    if rnd.random() < .1:
        s.impl_attr = rnd.choice([True, False])
    if s.impl_attr is False and s.mode != "plain":
        # Lazy fields refer to generated methods
        s.impl_attr = True
    s.fields = []
    for k, n in enumerate(rnd.sample(NAMES, 0 if not s.generic and rnd.random() < .06 else rnd.choice([1, 2, 3]))):
        f = F()
        s.fields.append(f)
        f.name = n
        f.idx = k
        f.kind = rnd.choice({"plain": ["lazy", "opt", "val", "val", "imut", "skip"],
                             "sync": ["lazy", "opt", "val", "val", "lock", "skip", "imut"],
                             "async": ["lazy", "opt", "val", "lock", "skip"]}[s.mode])
        if s.inner and f.kind in ("lazy", "opt"):
            f.kind = "imut"
        if s.inner and f.kind == "val":
            f.kind = "imut"
        f.h = {}
        f.vis = rand_vis(rnd, s.amod, .3)
        f.rename = "al_" + f.bare if rnd.random() < .2 else None
        f.attr = rnd.choice([True, True, False]) if rnd.random() < .08 else None
        f.b_key = None
        f.default = rnd.random() < .15
        cand = list(HELPERS)
        if s.mode == "plain":
            # These would turn the field into a sync one
            cand = [h for h in cand if h not in ("reader", "writer")]
        for h in cand:
            if f.kind == "imut" and h in ("reader", "writer"):
                if h in s.h and not s.h[h].off:
                    f.h[h] = H()
                    f.h[h].off = True
                continue
            if rnd.random() < (.5 if h in ("get", "set", "get_mut") else .35):
                x = f.h[h] = H()
                x.off = rnd.random() < .15
                if not x.off:
                    x.lit = f"{rnd.choice(['', '', '_'])}{ALT[h][1]}it_{k}" if rnd.random() < .2 else None
                    if x.lit is None and rnd.random() < .12:
                        x.lit = ""       # the same as none
                    x.vis = rand_vis(rnd, s.amod, .3)
                    x.attr = rnd.choice([True, True, False]) if rnd.random() < .15 else None
        f.b = None
        if s.builder and rnd.random() < (.6 if s.builder.ser else .4) and f.kind != "skip":
            f.b = H()
            f.b.off = rnd.random() < .25
            if not f.b.off:
                f.b.lit = f"provide_{k}" if rnd.random() < .3 else None
                if f.b.lit is None and rnd.random() < .1:
                    f.b.lit = ""
                f.b.vis = rand_vis(rnd, s.amod, .3)
                f.b.attr = rnd.choice([True, False]) if rnd.random() < .1 else None
                if s.builder.ser and rnd.random() < .6:
                    f.b_key = f"key_{k}"
                    f.default = f.default or rnd.random() < .4
        if f.kind == "skip":
            f.h, f.vis, f.rename, f.b, f.attr = {}, None, None, None, None
        if s.inner and f.kind == "skip":
            f.kind = "imut"
    if s.serde:
        if s.mode == "async" and any(f.kind == "lazy" for f in s.fields):
            s.serde = None       # these can't be cloned
        elif any(f.kind == "skip" for f in s.fields):
            s.no_new = False
    # a default is necessary for what the builder doesn't set
    for f in s.fields:
        f.dflt = f.default
        if s.builder and f.kind in ("val", "lock", "imut") and not in_builder(s, f):
            f.dflt = True
        if f.kind == "lazy" and not s.builder:
            pass
    return s


def given(s, f, h):
    """Is the helper requested explicitly: None, True, False"""
    if f.kind == "skip":
        return False
    if h in f.h:
        return not f.h[h].off
    if h in s.h:
        return not s.h[h].off
    return None


def has(s, f, h):
    if f.kind == "skip":
        return False
    g = given(s, f, h)
    if g is None:
        g = h == "get" and (f.kind in ("lazy", "imut") or given(s, f, "clearer") is True or given(s, f, "predicate") is True)
    if not g:
        return False
    if h in ("reader", "writer") and (s.mode == "plain" or f.kind == "imut"):
        return False
    a = attr(s, f, h)
    return a is not False


def attr(s, f, h):
    if h in f.h and f.h[h].attr is not None:
        return f.h[h].attr
    if f.attr is not None:
        return f.attr
    if h in s.h and s.h[h].attr is not None:
        return s.h[h].attr
    return None


def fix(n):
    """An identifier"""
    return "r#" + n if n in ("type",) else n


def name(s, f, h, base=None):
    if h in f.h and f.h[h].lit:
        return f.h[h].lit
    p = s.h[h].lit if h in s.h and s.h[h].lit else DEF[h]
    return fix(p + (f.rename or f.bare) + SUF.get(h, ""))


def vis(s, f, h):
    for v in (f.h[h].vis if h in f.h else None, f.vis, s.h[h].vis if h in s.h else None, s.vis):
        if v:
            return reach(v)
    return s.reach


def in_builder(s, f):
    if not s.builder or f.kind == "skip":
        return False
    if f.b is not None:
        return not f.b.off
    return not s.builder.opt_in


def b_name(s, f):
    if f.b is not None and f.b.lit:
        return f.b.lit
    return fix((s.builder.lit or "") + (f.rename or f.bare))


def methods(s):
    """Predicted methods of the struct: name -> (reach, what it is). Reach is None where documentation has no answer."""
    m = {}

    def put(n, r, what):
        if n in m:
            return False
        m[n] = (r, what)
        return True
    for f in s.fields:
        for h in HELPERS:
            if has(s, f, h):
                if not put(name(s, f, h), vis(s, f, h), h):
                    return None
    if not s.no_new:
        if not put("new", 6, "new"):
            return None
    if s.builder:
        if not put("builder", s.reach, "builder()"):
            return None
    if s.rc:
        me = s.rc.lit or "myself"
        for n in (me, me + "_downgrade"):
            if not put(n, reach(s.rc.vis) if s.rc.vis else None, "rc"):
                return None
    if s.impl_attr is False:
        m = {}
    return m


def affected(s):
    """Names which depend on attributes"""
    r = set()
    if s.impl_attr is not None:
        r |= {"new", "builder"}
    for f in s.fields:
        for h in HELPERS:
            if f.kind != "skip" and (attr(s, f, h) is not None or s.impl_attr is not None):
                r.add(name(s, f, h))
    return r


def b_methods(s):
    m = {}
    for f in s.fields:
        if in_builder(s, f):
            if (f.b.attr if f.b is not None and f.b.attr is not None else f.attr) is False:
                continue
            n = b_name(s, f)
            if n in m or n in ("build", "new"):
                return None
            m[n] = (reach(f.b.vis) if f.b is not None and f.b.vis else 6, "setter of the builder")
    m["build"] = (reach(s.builder.vis) if s.builder.vis else s.reach, "build()")
    return m


def lazy_fields(s):
    return [f for f in s.fields if f.kind == "lazy"]


def user_fns(s):
    return {"build_" + (f.rename or f.bare) for f in lazy_fields(s)}


def candidates(s):
    c = {"new", "builder", "myself", "myself_downgrade", "me", "me_downgrade", "own", "own_downgrade"}
    for f in s.fields:
        for h in HELPERS:
            for b in {f.bare, f.rename or f.bare, "al_" + f.bare}:
                pf = {DEF[h], *ALT[h]} if b != "al_" + f.bare or f.rename else {DEF[h]}
                for p in pf:
                    c.add(p + b + SUF.get(h, ""))
                    if SUF.get(h):
                        c.add(p + b)
                if h in f.h and f.h[h].lit:
                    c.add(f.h[h].lit)
                    if h in s.h and s.h[h].lit:
                        c.add(s.h[h].lit + f.h[h].lit)
                    c.add(DEF[h] + f.h[h].lit)
                    c.add(f.h[h].lit + SUF.get(h, ""))
            c.add(f"{ALT[h][1]}it_{f.idx}")
    return {fix(x) for x in c} - user_fns(s)


def b_candidates(s):
    c = {"build"}
    for f in s.fields:
        for b in {f.bare, f.rename or f.bare}:
            for p in ("", *ALT["builder"], "set_", "put_"):
                c.add(p + b)
        c.add(f"provide_{f.idx}")
        c.add((s.builder.lit or "") + f"provide_{f.idx}")
    return {fix(x) for x in c}


def valid(s):
    m = methods(s)
    if m is None:
        return False
    u = user_fns(s)
    if u & set(m):
        return False
    for f in s.fields:
        # cfg removes methods which are used by other ones
        # a conflict of optional and explicitly requested things
        if f.kind == "imut" and s.mode != "plain" and any(given(s, f, h) for h in ("clearer", "predicate")):
            return False
        if f.kind != "skip" and f.kind == "lazy" and f.attr is False and s.mode != "plain":
            return False      # the accessor is not the only method which would vanish
        if f.kind == "skip" and s.generic and f.idx == 0:
            return False
    if s.builder:
        if b_methods(s) is None:
            return False
    return True


def field_code(s, f, rnd):
    a = []
    if f.kind == "skip":
        a.append("skip")
        if f.dflt:
            a.append("default(5)" if f.ty == "u32" else "default(None)")
    else:
        if f.kind == "lazy":
            if not s.lazy or rnd.random() < .3:
                a.append("lazy")
        elif s.lazy:
            a.append("lazy(off)")
        if f.kind == "opt":
            a.append("optional")
        if f.kind == "imut" and not s.inner:
            a.append("inner_mut")
        if f.kind == "lock":
            a.append("lock")
        if f.rename:
            a.append(f'rename("{f.rename}")')
        if f.vis:
            a.append(f.vis)
        if f.attr is not None:
            a.append(attrs_arg("attributes_fn", f.attr))
        for h, x in f.h.items():
            a.append(x.text(h, rnd))
        if f.dflt:
            a.append("default(%s)" % ("T::default()" if f.ty == "T" else "7" if f.ty == "u32" else "None"))
        if f.b is not None:
            t = f.b.text("builder", rnd)
            if f.b_key:
                k = f'attributes(allow(dead_code), serde(rename = "{f.b_key}"))'
                t = f"builder({k})" if t == "builder" else t[:-1] + f", {k})"
            a.append(t)
    rnd.shuffle(a)
    at = f"        #[fieldx({', '.join(a)})]\n" if a else ""
    return at + f"        {f.name}: {f.ty},"


def struct_code(s, rnd):
    a = []
    a.append({"plain": "mode(plain)", "sync": rnd.choice(["sync", "mode(sync)"]), "async": rnd.choice(["r#async", "mode(async)"])}[s.mode])
    if s.inner:
        a[0] = ""
        a.append("inner_mut")
    if s.vis:
        a.append(s.vis)
    if s.rc:
        a.append(s.rc.text("rc", rnd))
    for h, x in s.h.items():
        a.append(x.text(h, rnd))
    if s.lazy:
        a.append("lazy")
    if s.builder:
        sub = s.builder.subs()
        if s.builder.opt_in:
            sub.append("opt_in")
        if s.builder.derive:
            sub.append("attributes(derive(Clone, serde::Serialize))" if s.builder.ser and rnd.random() < .5 else
                       "attributes(derive(Clone), derive(serde::Serialize))" if s.builder.ser else "attributes(derive(Clone))")
        if s.builder.impl_attr:
            sub.append("attributes_impl(allow(dead_code))")
        rnd.shuffle(sub)
        a.append("builder" + (f"({', '.join(sub)})" if sub else ""))
    if s.serde:
        sub = s.serde.subs()
        if s.serde.derive:
            sub.append("attributes(derive(Clone))")
        rnd.shuffle(sub)
        a.append("serde" + (f"({', '.join(sub)})" if sub else ""))
    if s.no_new:
        a.append("no_new")
    if s.default:
        a.append("default")
    if s.attrs_clone:
        a.append("attributes(derive(Clone))")
    if s.impl_attr is not None:
        a.append(attrs_arg("attributes_impl", s.impl_attr))
    a = [x for x in a if x]
    rnd.shuffle(a)
    s.args = ", ".join(a)
    g = "<T>" if s.generic else ""
    w = " where T: Default + Clone + Send + Sync + 'static" if s.generic else ""
    for f in s.fields:
        f.ty = "T" if s.generic and f.idx == 0 else "u32"
        if f.ty == "u32" and rnd.random() < .12 and not (s.builder and (s.builder.derive or s.attrs_clone)):
            f.ty = rnd.choice(["Option<Box<Self>>", "Option<Vec<Self>>", "Option<(Box<Self>, [u8; Self::SIZE])>"] if not s.generic else ["Option<Box<Self>>"])
    o = [f"        #[fxstruct({s.args})]"] + (["        #[derive(Clone)]"] if s.serde else []) + [f"        {s.item} struct {s.name}{g}{w} {{"]
    o += [field_code(s, f, rnd) for f in s.fields]
    o.append("        }")
    if any("Self::SIZE" in f.ty for f in s.fields):
        o.append(f"        impl {s.name} {{ const SIZE: usize = 2; }}")
    if lazy_fields(s):
        o.append(f"        impl{g} {s.name}{g}{w} {{")
        for f in lazy_fields(s):
            asy = "async " if s.mode == "async" else ""
            o.append(f"            {asy}fn build_{f.rename or f.bare}(&self) -> {f.ty} {{ Default::default() }}")
        o.append("        }")
    return "\n".join(o)


def shadow(s):
    return s.serde.lit or f"__{s.name}Shadow"


def needs_default(s):
    """True, False, None where the documentation isn't definite"""
    if s.default or not s.no_new:
        return True
    if any(f.dflt for f in s.fields):
        return True
    if s.mode != "plain" and any(f.kind == "lazy" for f in s.fields):
        return None if s.lazy else True
    return False


def probe(s, loc):
    """Body of a probing function"""
    li = LOCS.index(loc)
    if s.reach <= li:
        return None, 0
    m = methods(s)
    aff = affected(s)
    root = "vis" if loc == "ext" else "crate"
    path = f"{root}::gvis::{s.amod}::{s.bmod}::{s.mod}"
    ty = f"{path}::{s.name}" + ("<u32>" if s.generic else "")
    o = []
    n = 0
    if loc == "same":
        names = sorted(candidates(s) | set(m))
    else:
        names = sorted(m)
    o.append(f"    use {root}::fallback::*;")
    o.append(f'    o.names("{s.name}", "{loc}", &[')
    for x in names:
        if x in m:
            r, what = m[x]
            if x in aff:
                what = "@" + what
            if r is None and loc != "same":
                continue
            if what.lstrip("@") == "builder()" and s.builder.vis and reach(s.builder.vis) <= li:
                # There's no way to use a function which returns an inaccessible type
                continue
            e = 1 if r is None or r > li else 0
        else:
            what, e = "@none" if x in aff else "none", 0
        o.append(f'        ("{x}", "{what}", {e}, nm(&<{ty}>::{x})),')
        n += 1
    o.append("    ]);")
    if s.builder:
        bt = s.name + "Builder"
        br = reach(s.builder.vis) if s.builder.vis else s.reach
        e = 1 if br > li else 0
        g = "<u32>" if s.generic else ""
        if loc == "same":
            o.append(f'    o.names("{s.name}", "{loc}", &[("{bt}", "type of the builder", {e}, ty::<{bt}{g}>())]);')
        else:
            o.append(f"    {{ use {root}::fallback::types::*; {{ #[allow(unused_imports)] use {path}::*; "
                     f'o.names("{s.name}", "{loc}", &[("{bt}", "type of the builder", {e}, ty::<{bt}{g}>())]); }} }}')
        n += 1
        if e and (s.impl_attr is not False or s.builder.impl_attr):
            bm = b_methods(s)
            baff = {b_name(s, f) for f in s.fields if in_builder(s, f) and (f.attr is not None or f.b is not None and f.b.attr is not None)}
            bn = sorted(b_candidates(s) | set(bm)) if loc == "same" else sorted(bm)
            o.append(f'    o.names("{bt}", "{loc}", &[')
            for x in bn:
                if x in bm:
                    r, what = bm[x]
                    if x in baff:
                        what = "@" + what
                    e = 1 if r > li else 0
                else:
                    what, e = "@none" if x in baff else "none", 0
                o.append(f'        ("{x}", "{what}", {e}, nm(&<{path}::{bt}{g}>::{x})),')
                n += 1
            o.append("    ]);")
        if e:
            if loc == "same":
                c = s.builder.derive or s.attrs_clone
                o.append(f'    o.names("{bt}", "same", &[("Clone", "attributes of the builder", {int(c)}, tr(Has::<{bt}{g}>::CLONE))]);')
                n += 1
                if s.builder.ser and not (s.impl_attr is False):
                    for f in s.fields:
                        if in_builder(s, f):
                            k = f.b_key or f.bare
                            o.append(f'    o.names("{bt}", "same", &[("{k}", "attributes of a field of the builder", 1, tr(has_key(&{ty}::builder(), "{k}")))]);')
                            n += 1
    if s.serde:
        sn = shadow(s)
        sr = reach(s.serde.vis) if s.serde.vis else None
        e = 1 if sr is None or sr > li else 0
        if loc == "same":
            c = s.serde.derive or s.attrs_clone
            o.append(f'    o.names("{s.name}", "{loc}", &[("{sn}", "shadow struct", {e}, ty::<{sn}>()), '
                     f'("Clone", "attributes of the shadow struct", {int(c)}, tr(Has::<{sn}>::CLONE))]);')
            n += 2
        elif sr is not None:
            o.append(f"    {{ use {root}::fallback::types::*; {{ #[allow(unused_imports)] use {path}::*; "
                     f'o.names("{s.name}", "{loc}", &[("{sn}", "shadow struct", {e}, ty::<{sn}>())]); }} }}')
            n += 1
    if loc == "same":
        d = needs_default(s)
        if d is not None:
            o.append(f'    o.names("{s.name}", "same", &[("Default", "Default trait", {int(d)}, tr(Has::<{ty}>::DEFAULT))]);')
            n += 1
    return "\n".join(o), n


def main():
    out = sys.argv[1]
    seed = int(sys.argv[2]) if len(sys.argv) > 2 else 1
    num = int(sys.argv[3]) if len(sys.argv) > 3 else 110
    rnd = random.Random(seed * 77 + 5)
    ARND.seed(seed)
    ss = []
    i = 0
    while len(ss) < num:
        s = make(rnd, len(ss))
        i += 1
        if valid(s):
            ss.append(s)
    # all names
    names = set()
    for s in ss:
        names |= candidates(s) | set(methods(s))
        if s.builder:
            names |= b_candidates(s) | set(b_methods(s))
    lib = ["// Generated by gen/gvis.py", "pub mod fallback {",
           "    /// Whatever a type doesn't have, or what isn't accessible, resolves to methods of this trait",
           "    pub trait Fb {"]
    lib += [f"        fn {n}() {{}}" for n in sorted(names)]
    lib += ["    }", "    impl<T: ?Sized> Fb for T {}", "    pub mod types {"]
    for s in ss:
        if s.builder:
            if s.generic:
                lib.append(f"        pub struct {s.name}Builder<T>(pub T);")
            else:
                lib.append(f"        pub struct {s.name}Builder;")
        if s.serde:
            lib.append(f"        pub struct {shadow(s)};")
    lib += ["    }", "    pub use crate::probe::*;", "}", "pub mod gvis {"]
    calls = []
    total = 0
    body = {}
    for s in ss:
        code = struct_code(s, rnd)
        for loc in LOCS:
            b, n = probe(s, loc)
            total += n
            if b is not None:
                body[(s.name, loc)] = b
        s.code = code
    for a in sorted({s.amod for s in ss}):
        lib.append(f"pub mod {a} {{ pub mod b {{")
        for s in ss:
            if s.amod != a:
                continue
            lib.append(f"    pub mod {s.mod} {{\n        use fieldx::fxstruct;\n        #[allow(unused_imports)] use serde::{{Serialize, Deserialize}};\n{s.code}")
            lib.append(f"        pub fn probe_same(o: &mut crate::probe::Out) {{\n{body[(s.name, 'same')]}\n        }}")
            calls.append(f"crate::gvis::{a}::b::{s.mod}::probe_same(o);")
            if (s.name, "child") in body:
                lib.append(f"        pub mod child {{ pub fn probe(o: &mut crate::probe::Out) {{\n{body[(s.name, 'child')]}\n        }} }}")
                calls.append(f"crate::gvis::{a}::b::{s.mod}::child::probe(o);")
            lib.append("    }")
        for loc, path in (("b", "b"), ("a", "")):
            if loc == "a":
                lib.append("}")
            lib.append(f"    pub mod sib_{loc} {{")
            for s in ss:
                if s.amod == a and (s.name, loc) in body:
                    lib.append(f"        pub fn probe_{s.name.lower()}(o: &mut crate::probe::Out) {{\n{body[(s.name, loc)]}\n        }}")
                    calls.append(f"crate::gvis::{a}::{'b::' if loc == 'b' else ''}sib_{loc}::probe_{s.name.lower()}(o);")
            lib.append("    }")
        lib.append("}")
    lib.append("}")
    lib.append("pub mod elsewhere {")
    for s in ss:
        if (s.name, "crate") in body:
            lib.append(f"    pub fn probe_{s.name.lower()}(o: &mut crate::probe::Out) {{\n{body[(s.name, 'crate')]}\n    }}")
            calls.append(f"crate::elsewhere::probe_{s.name.lower()}(o);")
    lib.append("}")
    lib.append("pub fn probe_inside(o: &mut crate::probe::Out) {\n    " + "\n    ".join(calls) + "\n}")
    lib.append(f"pub const STRUCTS: &[(&str, &str)] = &[")
    for s in ss:
        txt = s.code.replace("\\", "\\\\").replace('"', '\\"')
        lib.append(f'    ("{s.name}", "{txt}"),')
    lib.append("];")
    ext = ["// Generated by gen/gvis.py", "pub fn probe_outside(o: &mut vis::probe::Out) {"]
    for s in ss:
        if (s.name, "ext") in body:
            ext.append(f"    {{\n{body[(s.name, 'ext')]}\n    }}")
    ext.append("}")
    os.makedirs(out, exist_ok=True)
    for n, t in (("gvis.rs", lib), ("gvis_ext.rs", ext)):
        p = os.path.join(out, n)
        t = "\n".join(t) + "\n"
        if not os.path.exists(p) or open(p).read() != t:
            with open(p, "w") as fh:
                fh.write(t)
    print(total, "probes", file=sys.stderr)


if __name__ == "__main__":
    main()
