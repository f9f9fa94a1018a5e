#!/usr/bin/env python3
"""Generates struct matrices: gen.py OUTDIR [SEED]"""
import sys, os
if os.environ.get("PYTHONHASHSEED") != "0":
    # Sets are iterated over: the result must depend on nothing but the seed
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
import random
from model import *

NAMES = ["alpha", "beta", "gamma", "delta", "kappa", "sigma", "omega", "item", "count_of", "x", "value", "inner", "r9", "r#type", "r#match"]


# All structs are generic
FORCE_GENERIC = False


def pick_ty(rnd, acc, need_clone=False, generic=False):
    if acc == "copy":
        return "Cp"
    if FORCE_GENERIC and generic and rnd.random() < .5:
        return "T"
    if acc == "clone" or need_clone:
        return rnd.choice(["Val", "Val", "Cp"] + (["T"] if generic else []))
    return rnd.choice(["Val", "Val", "Val", "Uniq", "Cp"] + (["T", "T"] if generic else []))


def rand_struct(rnd, name, mode, nf, opts):
    st = Struct(name)
    st.mode = mode
    st.derives = list(opts.get("derives", []))
    st.rc = rnd.random() < opts.get("rc", .12)
    st.generic = FORCE_GENERIC or rnd.random() < opts.get("generic", .25)
    st.builder = rnd.random() < opts.get("builder", .4)
    # A struct builder has no field to use lifetimes in, futures of structs with lifetimes upset the compiler
    life = opts.get("life", True) and not st.builder and mode != "async"
    st.gform = rnd.choice([f for f in GFORMS if (life or f not in PHANTOM) and not (f == "sized" and opts.get("derives"))])
    # struct level defaults
    p = opts.get("s_level", .5)
    if rnd.random() < p:
        cand = ["get", "get_mut", "set", "clearer", "predicate"]
        if mode != "plain":
            cand += ["reader", "writer"]
        st.s_on = {h for h in cand if rnd.random() < .35}
        x = rnd.random()
        if x < .3:
            st.s_lazy = True
        elif x < .45:
            st.s_opt = True
        if mode != "plain" and rnd.random() < .25:
            st.s_lock = True
        if mode == "plain" and not st.s_lazy and not st.s_opt and rnd.random() < .15:
            st.s_inner = True
        if rnd.random() < .25:
            st.s_acc = (rnd.choice(["copy", "clone", "clone"]), rnd.choice(["get", "kw"]))
            if st.s_acc[1] == "get":
                st.s_on.add("get")
        elif rnd.random() < .1:
            # Is about optional fields without locks only
            st.s_acc = ("as_ref", "get")
            st.s_on.add("get")
        if rnd.random() < .25:
            st.s_into = rnd.choice(["set", "kw"])
            if st.s_into == "set":
                st.s_on.add("set")
        if rnd.random() < .3:
            st.s_fallible = rnd.choice(["off", "on"])
            if st.s_fallible == "on" and (st.s_inner or st.s_opt or st.s_lock):
                st.s_fallible = "off"
        for h in list(st.s_on) + (["lazy"] if st.s_lazy else []):
            if rnd.random() < .25:
                st.prefix[h] = ALT_PREFIX[h]
    st.s_lock_off = mode != "plain" and not st.s_lock and not st.s_inner and rnd.random() < .1
    if st.s_lock_off:
        st.extra = ["lock(off)"]
    if st.builder:
        if rnd.random() < .25:
            st.prefix["builder"] = ALT_PREFIX["builder"]
        st.opt_in = rnd.random() < .2
        st.s_builder_into = rnd.random() < .25
        st.s_required = rnd.random() < .15
    names = rnd.sample(NAMES, nf)
    for i in range(nf):
        f = Field(i, names[i])
        st.fields.append(f)
        # codegen mode
        f.mode = mode
        if rnd.random() < opts.get("field_mode", .12) and not st.s_inner:
            alts = [m for m in ("plain", "sync", "async") if m != mode and m in opts.get("modes", ("plain", "sync", "async"))]
            if alts:
                f.mode = rnd.choice(alts)
                if f.mode == "plain":
                    f.attr_mode = rnd.choice(["mode(plain)", "lock(off)"])
                elif f.mode == "sync":
                    f.attr_mode = rnd.choice(["sync", "sync", "mode(sync)", "sync, r#async(off)"])
                else:
                    f.attr_mode = rnd.choice(["r#async", "r#async", "mode(async)", "r#async, sync(off)"])
        kinds = {"plain": ["lazy"] * 4 + ["opt"] * 3 + ["val"] * 2 + ["imut", "imopt"],
                 "sync": ["lazy"] * 5 + ["opt"] * 3 + ["lock"] * 2 + ["val"],
                 "async": ["lazy"] * 5 + ["opt"] * 3 + ["lock"] * 2 + ["val"]}[f.mode]
        kinds = opts.get("kinds", {}).get(f.mode, kinds)
        f.kind = rnd.choice(kinds)
        if f.kind in ("imut", "imopt"):
            if f.attr_mode:
                f.attr_mode = None      # inner_mut is exclusive with modes; it makes the field plain
            if st.s_inner is False and mode != "plain":
                pass
        if st.s_inner and f.kind not in ("imut", "imopt"):
            if f.kind == "opt":
                f.kind = "imopt"
            elif f.kind == "val":
                f.kind = "imut"
        if st.s_inner and f.kind in ("imut", "imopt"):
            f.attr_mode = None
        if f.kind == "val" and f.mode == "sync" and f.attr_mode:
            f.attr_mode = None if mode == "sync" else f.attr_mode
        if f.attr_mode and f.mode == "sync" and mode == "plain" and f.kind in ("opt", "lock") and rnd.random() < .4:
            f.attr_mode = "lock"
        # helpers
        cand = ["get", "get_mut", "set"]
        if f.kind in ("lazy", "opt", "imopt"):
            cand += ["clearer", "predicate"]
        if f.mode != "plain" and f.kind in ("lazy", "opt", "lock"):
            cand += ["reader", "writer"]
        f.on = {h for h in cand if rnd.random() < opts.get("density", .6)}
        f.on |= {h for h in cand if h in st.s_on and rnd.random() < .8}
        if st.s_lock_off and f.kind == "opt" and f.mode == mode:
            # An unprotected field has an interface of a plain one
            if rnd.random() < opts.get("unlocked", .6):
                f.mode, f.attr_mode = "plain", None
                f.on -= {"reader", "writer"}
                f.unlocked = True
        if not (f.on & {"get", "reader"}) :
            f.on.add("get")
        # accessor mode
        ref_able = f.kind == "opt" and (f.mode == "plain" or f.unlocked)
        sacc = st.s_acc[0] if st.s_acc else None
        inh = None if sacc == "as_ref" and not ref_able else sacc
        f.acc = f.acc_inh = inh
        if "get" in f.on:
            if rnd.random() < .35:
                f.acc = rnd.choice(["copy", "clone"])
                if ref_able and rnd.random() < .4:
                    f.acc = "as_ref"
                if f.acc != sacc and f.acc != "as_ref" and not (inh == "as_ref") and rnd.random() < .3:
                    f.acc_kw = True
            elif inh in ("copy", "clone") and rnd.random() < .35:
                # Turning the mode of the struct off
                f.acc, f.acc_off = None, rnd.choice(["kw", "kw", "as_ref"])
                if f.acc_off == "as_ref" and ref_able:
                    f.acc = "as_ref"
            elif rnd.random() < .1:
                f.acc_off = rnd.choice(["copy(off)", "clone(off)", "as_ref"])
                if f.acc_off == "as_ref":
                    f.acc = "as_ref" if ref_able else None
                elif f.acc and f.acc_off == f.acc + "(off)":
                    f.acc = None
        f.ty = pick_ty(rnd, f.acc, need_clone=bool(st.derives), generic=st.generic)
        if f.acc == "copy" and f.kind == "lazy":
            pass
        # setter's and builder's into
        if rnd.random() < .15:
            f.into_kw = rnd.choice([True, False])
        f.set_sub = rnd.random() < .15
        f.set_into = f.set_sub or (f.into_kw if f.into_kw is not None else st.s_into in ("set", "kw"))
        # lazies
        if f.kind == "lazy":
            f.fallible = rnd.random() < opts.get("fallible", .3)
            if f.fallible and rnd.random() < .4:
                f.err = "VErrB"
            if rnd.random() < .15:
                f.default = rnd.randrange(10, 99)
        else:
            if rnd.random() < .3:
                f.default = rnd.randrange(10, 99)
        if f.ty == "T":
            f.default = None
        if f.default is not None and rnd.random() < .4:
            f.default_form = 1
        if f.default is None and rnd.random() < .12:
            f.def_kw = rnd.choice(["bare", "bare", "offv"])
        # naming
        if rnd.random() < .12:
            f.base = "al_" + f.name.replace("r#", "")
        for h in f.on | ({"lazy"} if f.kind == "lazy" else set()):
            if rnd.random() < .12:
                f.explicit[h] = {"get": "fetch", "get_mut": "edit", "set": "assign", "clearer": "wipe", "predicate": "known",
                                 "reader": "look", "writer": "pen", "lazy": "make"}[h] + f"_{i}"
        # struct builder
        if st.builder:
            f.builder = not st.opt_in
            if st.opt_in:
                f.builder = rnd.random() < .6
            elif (f.kind in ("lazy", "opt", "imopt") or f.default is not None) and rnd.random() < .12:
                f.builder = False
            f.b_sub = bool(f.builder) and rnd.random() < .15
            f.builder_into = f.b_sub or (f.into_kw if f.into_kw is not None else (st.s_builder_into or st.s_into == "kw"))
            if f.builder and rnd.random() < .12:
                f.explicit["builder"] = f"give_{i}"
            f.required = st.s_required and f.builder
            if f.builder and (f.kind in ("lazy", "opt", "imopt") or f.default is not None or f.def_kw) and rnd.random() < (.5 if st.s_required else .12):
                f.req_arg = "required" if not st.s_required or rnd.random() < .2 else "required(off)"
                f.required = f.req_arg == "required"
            if st.opt_in and not f.builder and f.kind in ("val", "lock", "imut") and f.default is None and f.def_kw is None and f.ty != "T":
                f.default = rnd.randrange(10, 99)
            if st.opt_in and not f.builder and f.ty == "T" and f.kind in ("val", "lock", "imut"):
                f.builder = True
                f.required = st.s_required
    if st.generic and not any(f.ty == "T" for f in st.fields):
        st.generic = False
    for f in st.fields:
        if f.ty == "T":
            f.ty = TPARAM.get(st.gform, "T")
    # plain rc objects have no use for &mut methods; the generator still declares them
    return st


def add_deps(rnd, st):
    """Acyclic dependencies between lazy fields of the same concurrency mode"""
    lz = [f for f in st.fields if f.kind == "lazy" and not f.fallible and "get" in f.on]
    for i, f in enumerate(lz):
        c = [g for g in lz[:i] if g.mode == f.mode]
        if c and rnd.random() < .7:
            f.deps = rnd.sample(c, min(len(c), rnd.choice([1, 1, 2])))


HEAD = """// Generated by gen/gen.py
use fieldx::fxstruct;
use harness::*;
"""


def emit(path, structs, trait, lists=True):
    out = [HEAD]
    if any(hasattr(st, "ser") for st in structs):
        out.append("use serde::{Serialize, Deserialize};")
    if any(hasattr(st, "eform") for st in structs):
        out.append(MYERR)
    for st in structs:
        trait = getattr(st, "trait", trait)
        out.append(struct_decl(st))
        out.append(impl_builders(st))
        out.append(case_code(st, trait))
        if hasattr(st, "eform"):
            out.append(bld_code(st))
        if hasattr(st, "ser"):
            out.append(ser_code(st))
        if getattr(st, "self_check", False):
            out.append(rc_code(st))
    out.append("#[macro_export]\nmacro_rules! %s {" % ("all_" + os.path.basename(path)[:-3]))
    mod = os.path.basename(path)[:-3]
    calls = " ".join(f"$m!($crate::{mod}::{st.name}Case $(, $a)*);" for st in structs)
    out.append("    ($m:ident $(, $a:expr)*) => { " + calls + " };\n}")
    for tr in ("seq", "async"):
        sub = [st for st in structs if getattr(st, "trait", None) == tr]
        calls = " ".join(f"$m!($crate::{mod}::{st.name}Case $(, $a)*);" for st in sub)
        out.append("#[macro_export]\nmacro_rules! %s {\n    ($m:ident $(, $a:expr)*) => { %s };\n}" % ("all_" + mod + "_" + tr, calls))
    for m in ("plain", "sync", "async"):
        sub = [st for st in structs if st.mode == m]
        calls = " ".join(f"$m!($crate::{mod}::{st.name}Case $(, $a)*);" for st in sub)
        out.append("#[macro_export]\nmacro_rules! %s {\n    ($m:ident $(, $a:expr)*) => { %s };\n}" % ("all_" + mod + "_mode_" + m, calls))
    with open(path, "w") as fh:
        fh.write("\n".join(out) + "\n")


MYERR = """
#[derive(Debug)]
pub enum MyErr { Fx(fieldx::error::FieldXError), Unset(String), Bad(u64) }
impl From<fieldx::error::FieldXError> for MyErr {
    fn from(e: fieldx::error::FieldXError) -> Self { MyErr::Fx(e) }
}
pub trait ToBErr { fn berr(self) -> BErr; }
impl ToBErr for fieldx::error::FieldXError {
    fn berr(self) -> BErr {
        match self {
            fieldx::error::FieldXError::UninitializedField(n) => BErr::Missing(n),
            e => BErr::Other(e.to_string()),
        }
    }
}
impl ToBErr for MyErr {
    fn berr(self) -> BErr {
        match self {
            MyErr::Fx(fieldx::error::FieldXError::UninitializedField(n)) => BErr::From(n),
            MyErr::Fx(e) => BErr::Other(e.to_string()),
            MyErr::Unset(n) => BErr::Variant(n),
            MyErr::Bad(v) => BErr::Post(v),
        }
    }
}
"""


# ---------------------------------------------------------------- selection

def features(st):
    """What is special about a struct: sets of (name, value) per field; struct-level properties are a part of each set"""
    base = {("mode", st.mode), ("rc", st.rc), ("generic", st.generic and st.gform), ("builder", st.builder), ("opt_in", st.opt_in),
            ("s_lazy", st.s_lazy), ("s_opt", st.s_opt), ("s_lock", st.s_lock), ("s_lock_off", st.s_lock_off), ("s_inner", st.s_inner),
            ("s_acc", st.s_acc), ("s_into", st.s_into), ("s_fall", st.s_fallible), ("s_binto", st.s_builder_into)}
    for h in HELPERS:
        base.add(("s_" + h, (h in st.s_on, h in st.prefix)))
    base.add(("s_pfx_lazy", "lazy" in st.prefix))
    base.add(("s_pfx_builder", "builder" in st.prefix))
    res = []
    for f in st.fields:
        k = f.mode + "." + f.kind
        b = {("kind", k), ("ty", f.ty), ("fall", f.fallible and f.err), ("def", (f.default is not None, getattr(f, "default_form", 0), f.def_kw)),
             ("acc", (f.acc if "get" in f.on else None, getattr(f, "acc_kw", False), f.acc_off)), ("set_into", f.set_into),
             ("b_into", f.builder_into), ("into_kw", f.into_kw), ("b", (f.builder, f.required, f.req_arg, st.s_required)), ("base", f.base is not None),
             ("amode", f.attr_mode), ("unlocked", getattr(f, "unlocked", False)), ("deps", len(f.deps) > 0)}
        for h in HELPERS + ["lazy", "builder"]:
            b.add((h, (h in f.on, h in f.explicit)))
        res.append((k, base, b))
    return res


def tuples(st):
    """Combinations to be covered: kind of the field with each pair of its properties, and with each property of the struct"""
    r = set()
    for k, base, b in features(st):
        bl = sorted(b, key=str)
        for i, x in enumerate(bl):
            for y in bl[i + 1:]:
                r.add((k, x, y))
            for y in base:
                r.add((k, x, y))
    return r


def select(rnd, make, n, pool):
    """Picks structs which cover as many combinations as possible"""
    cands = []
    for _ in range(pool):
        st = make()
        cands.append((st, tuples(st)))
    covered, res = set(), []
    alive = list(range(len(cands)))
    for _ in range(n):
        smp = rnd.sample(alive, min(len(alive), 60))
        best = max(smp, key=lambda i: len(cands[i][1] - covered))
        covered |= cands[best][1]
        alive.remove(best)
        res.append(cands[best][0])
    return res


def rename_all(structs, pfx):
    for i, st in enumerate(structs):
        st.name = f"{pfx}{i}"


def gen_conc(seed, n, pfx="K"):
    rnd = random.Random(seed)

    def make():
        st = rand_struct(rnd, pfx, "sync", rnd.choice([1, 2, 2, 3]),
                         {"modes": ("sync",), "rc": .15, "unlocked": 0, "generic": .25, "density": .65, "field_mode": 0,
                          "kinds": {"sync": ["lazy"] * 6 + ["opt"] * 3 + ["lock"] * 2}})
        if rnd.random() < .5:
            add_deps(rnd, st)
        return st
    res = select(rnd, make, n, n * 6)
    rename_all(res, pfx)
    for st in res:
        render(st, rnd)
    return res


def gen_dep(seed, n):
    rnd = random.Random(seed)
    res = []
    for i in range(n):
        st = rand_struct(rnd, f"D{i}", "sync", rnd.choice([3, 4, 4, 5]),
                         {"modes": ("sync",), "rc": .15, "unlocked": 0, "generic": 0, "density": .45, "field_mode": 0, "fallible": 0,
                          "kinds": {"sync": ["lazy"] * 6 + ["opt"]}})
        for f in st.fields:
            f.on.add("get")
        add_deps(rnd, st)
        render(st, rnd)
        res.append(st)
    return res


def gen_async(seed, n, pfx="A"):
    rnd = random.Random(seed)

    def make():
        st = rand_struct(rnd, pfx, "async", rnd.choice([1, 2, 2, 3]),
                         {"modes": ("async",), "rc": .12, "unlocked": 0, "generic": .25, "density": .65, "field_mode": 0,
                          "kinds": {"async": ["lazy"] * 6 + ["opt"] * 3 + ["lock"] * 2}})
        if not st.rc and rnd.random() < .5:
            add_deps(rnd, st)
        return st
    res = select(rnd, make, n, n * 6)
    rename_all(res, pfx)
    for st in res:
        render(st, rnd)
    return res


def gen_seq(seed, n, mode, pfx):
    rnd = random.Random(seed)

    def make():
        st = rand_struct(rnd, pfx, mode, rnd.choice([2, 3, 4, 4]),
                         {"modes": ("plain", "sync"), "rc": .08, "field_mode": .15, "density": .6})
        if rnd.random() < .3:
            add_deps(rnd, st)
        return st
    res = select(rnd, make, n, n * 5)
    rename_all(res, pfx)
    for st in res:
        render(st, rnd)
    return res


def gen_clone(seed, n, mode, pfx):
    rnd = random.Random(seed)

    def make():
        st = rand_struct(rnd, pfx, mode, rnd.choice([1, 1, 2, 3]),
                         {"modes": ("plain",) if mode == "plain" else ("sync",), "rc": 0, "field_mode": 0, "density": .7, "generic": .25, "unlocked": 0,
                          "derives": ["Clone", "PartialEq", "Debug"], "fallible": .2,
                          "kinds": {"sync": ["lazy"] * 4 + ["opt"] * 3 + ["lock"] * 3}})
        for f in st.fields:
            f.on |= {"get"}
            if f.kind in ("lazy", "opt", "imopt"):
                f.on.add("predicate")
        if mode == "sync" and rnd.random() < .3:
            add_deps(rnd, st)
        return st
    res = select(rnd, make, n, n * 5)
    rename_all(res, pfx)
    for st in res:
        render(st, rnd)
    return res


def add_post(rnd, st):
    st.post = rnd.choice([None, "post_build", "check_in"])
    st.eform = rnd.choice([0, 0, 1, 2])
    st.post_fallible = bool(st.post) and st.eform > 0
    x = []
    if st.post:
        x.append("post_build" if st.post == "post_build" else f"post_build({st.post})")
    if st.eform == 1:
        x.append("error(MyErr)")
    elif st.eform == 2:
        x.append("error(MyErr, MyErr::Unset)")
    st.builder_extra = x


def gen_bld(seed, n, pfx):
    rnd = random.Random(seed)

    def make():
        mode = rnd.choice(["plain", "plain", "sync", "sync", "async"])
        st = rand_struct(rnd, pfx, mode, rnd.choice([1, 2, 3, 4, 5]),
                         {"modes": (mode,), "rc": .2, "field_mode": 0, "density": .4, "builder": 1.1, "generic": .25,
                          "kinds": {"plain": ["lazy"] * 3 + ["opt"] * 2 + ["val"] * 4 + ["imut", "imopt"], "sync": ["lazy"] * 3 + ["opt"] * 2 + ["lock"] * 2 + ["val"] * 3,
                                    "async": ["lazy"] * 3 + ["opt"] * 2 + ["lock"] * 2 + ["val"] * 2}})
        for f in st.fields:
            f.on |= {"get"}
            if f.kind in ("lazy", "opt", "imopt"):
                f.on.add("predicate")
        st.trait = "async" if mode == "async" else "seq"
        add_post(rnd, st)
        return st
    res = select(rnd, make, n, n * 5)
    rename_all(res, pfx)
    for st in res:
        render(st, rnd)
    return res


def gen_rc(seed, n, pfx):
    rnd = random.Random(seed)

    def make():
        mode = rnd.choice(["plain", "sync", "async"])
        st = rand_struct(rnd, pfx, mode, rnd.choice([1, 2, 3]),
                         {"modes": (mode,), "rc": 1.1, "field_mode": 0, "density": .6, "generic": .2})
        if mode == "plain":
            # Only interior mutability makes sense here
            for f in st.fields:
                f.on.add("get")
        st.trait = "async" if mode == "async" else "seq"
        st.rc_name = rnd.choice([None, None, "me"])
        st.self_check = True
        if st.builder:
            add_post(rnd, st)
        if rnd.random() < .4:
            add_deps(rnd, st)
        return st
    res = select(rnd, make, n, n * 5)
    rename_all(res, pfx)
    for st in res:
        render(st, rnd)
    return res


def gen_ser(seed, n, pfx, modes, trait):
    rnd = random.Random(seed)

    def make():
        mode = rnd.choice(modes)
        st = rand_struct(rnd, pfx, mode, rnd.choice([1, 2, 3, 4, 5]),
                         {"modes": (mode,), "rc": 0, "field_mode": 0, "density": .4, "generic": .2, "life": False, "derives": ["Clone"], "fallible": .2,
                          "kinds": {"plain": ["lazy"] * 3 + ["opt"] * 3 + ["val"] * 3 + ["imut", "imopt"],
                                    "sync": ["lazy"] * 3 + ["opt"] * 3 + ["lock"] * 2 + ["val"] * 2,
                                    "async": ["opt"] * 3 + ["lock"] * 2 + ["val"] * 2}})
        for f in st.fields:
            f.on |= {"get"}
            if f.kind in ("lazy", "opt", "imopt"):
                f.on.add("predicate")
        st.trait = trait or ("async" if mode == "async" else "seq")
        add_serde(st, rnd)
        return st
    res = []
    # Names are in the arguments: no selection
    for i in range(n):
        st = make()
        # The shadow struct has all parameters of the struct but it has no fields which are not for serde
        while st.generic and not any(is_param(f) and f.s_in for f in st.fields):
            st = make()
        res.append(st)
    return res


def ser_mod(seed, n, pfx, modes, trait=None):
    rnd = random.Random(seed + 7)
    res = []
    for i in range(n):
        res += gen_ser(seed * 100 + i, 1, f"{pfx}{i}", modes, trait)
    for st in res:
        render(st, rnd)
    return res


MODS = {
    "gconc": lambda s: (gen_conc(s * 1000 + 1, 40), "conc"),
    "gdep": lambda s: (gen_dep(s * 1000 + 5, 10), "conc"),
    "gasync": lambda s: (gen_async(s * 1000 + 2, 36), "async"),
    "gclp": lambda s: (gen_clone(s * 1000 + 6, 24, "plain", "Q"), "seq"),
    "gcls": lambda s: (gen_clone(s * 1000 + 7, 28, "sync", "R"), "conc"),
    "gbld": lambda s: (gen_bld(s * 1000 + 8, 70, "B"), "seq"),
    "grc": lambda s: (gen_rc(s * 1000 + 9, 40, "C"), "seq"),
    "gser": lambda s: (ser_mod(s * 1000 + 10, 75, "V", ["plain", "plain", "sync", "sync", "async"]), "seq"),
    "gserc": lambda s: (ser_mod(s * 1000 + 11, 20, "W", ["sync"], "conc"), "conc"),
    "gplain": lambda s: (gen_seq(s * 1000 + 3, 70, "plain", "P"), "seq"),
    "gsync": lambda s: (gen_seq(s * 1000 + 4, 50, "sync", "S"), "seq"),
}


def main():
    out = sys.argv[1]
    seed = int(sys.argv[2]) if len(sys.argv) > 2 else 1
    global FORCE_GENERIC
    FORCE_GENERIC = seed >= 500000
    os.makedirs(out, exist_ok=True)
    for m in sys.argv[3:] or MODS:
        structs, trait = MODS[m](seed)
        emit(f"{out}/{m}.rs", structs, trait)


if __name__ == "__main__":
    main()
