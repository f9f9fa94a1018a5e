"""Model of fxstruct/fieldx arguments: what a configuration is expected to produce, and how to spell it.

A configuration is chosen as *effective* settings first. Then it is rendered as a mix of struct- and field-level arguments
according to the documented precedence. Thus the generated code is a prediction made from the documentation, and compilation
and execution of it against the real macro is what tells if the prediction is right.
"""
import random

HELPERS = ["get", "get_mut", "set", "clearer", "predicate", "reader", "writer"]
DEF_PREFIX = {"get": "", "get_mut": "", "set": "set_", "clearer": "clear_", "predicate": "has_", "reader": "read_",
              "writer": "write_", "lazy": "build_", "builder": ""}
SUFFIX = {"get_mut": "_mut"}
ALT_PREFIX = {"get": "get_", "get_mut": "mut_", "set": "put_", "clearer": "reset_", "predicate": "is_set_",
              "reader": "rd_", "writer": "wr_", "lazy": "init_", "builder": "with_"}


class Field:
    def __init__(self, idx, name):
        self.idx = idx
        self.name = name
        self.base = None          # rename
        self.kind = "val"         # lazy opt lock val imut imopt
        self.mode = "plain"       # codegen mode: plain sync async
        self.fallible = False
        self.err = "VErr"
        self.ty = "Val"
        self.default = None       # id
        self.def_kw = None        # how no default is spelled: bare (the default of the type is fine), off, offv
        self.acc = None           # None copy clone as_ref
        self.acc_inh = None       # what is inherited from the struct
        self.acc_off = None       # how the accessor mode is turned off: kw, as_ref, verbatim
        self.unlocked = False
        self.on = set()           # helpers
        self.explicit = {}        # helper -> explicit name
        self.into_kw = None       # field level into: None True False
        self.set_sub = False      # set(into)
        self.b_sub = False        # builder(into)
        self.set_into = False
        self.deps = []            # other lazy fields used by the builder
        self.builder = None       # None|True|False  effective presence in struct builder
        self.builder_into = False
        self.required = False     # effective
        self.req_arg = None       # how it is spelled
        self.attr_mode = None     # how the field level mode is spelled
        self.args = []            # rendered
        self.vis = {}

    def helper_name(self, st, h):
        if h in self.explicit:
            return self.explicit[h]
        pfx = st.prefix.get(h, DEF_PREFIX[h])
        b = self.base or self.name
        if b.startswith("r#"):
            b2 = b[2:]
            full = pfx + b2 + SUFFIX.get(h, "")
            return b if full == b2 else full
        return pfx + b + SUFFIX.get(h, "")

    @property
    def mkind(self):
        return {"lazy": "Lazy", "opt": "Opt", "imopt": "Opt"}.get(self.kind, "Val")

    @property
    def init(self):
        if self.default is not None:
            return self.default
        return None if self.kind in ("lazy", "opt", "imopt") else 0

    def cfg(self):
        s = f"{self.mode} {self.kind}"
        if self.acc:
            s += f" get({self.acc})"
        if self.fallible:
            s += " fallible" + self.err[4:]
        if self.default is not None:
            s += " default"
        elif self.def_kw:
            s += " default(" + self.def_kw + ")"
        return s


class Struct:
    def __init__(self, name):
        self.name = name
        self.mode = "plain"
        self.mode_spell = None
        self.fields = []
        self.prefix = {}
        self.s_on = set()         # helpers on at struct level
        self.s_lazy = False
        self.s_opt = False
        self.s_lock = False
        self.s_lock_off = False   # fields are not protected unless they ask for it
        self.s_acc = None         # (copy|clone, 'get'|'kw')
        self.s_into = None        # None 'set' 'kw' 'builder'
        self.s_fallible = None    # None 'off' 'on'
        self.s_inner = False
        self.rc = False
        self.builder = False
        self.opt_in = False
        self.s_builder_into = False
        self.s_required = False
        self.generic = False
        self.args = []
        self.derives = []
        self.extra = []           # additional struct level args, verbatim
        self.pub = True


def helper_arg(h, subs):
    return h if not subs else f"{h}({', '.join(subs)})"


def render(st, rnd):
    """Fill args of the struct and of its fields."""
    a = []
    if st.mode == "sync":
        sp = st.mode_spell or rnd.choice(["sync", "sync", "mode(sync)", "r#async(off), sync"])
        rw = st.s_on & {"reader", "writer"}
        if rw and not st.mode_spell and not st.s_lock_off and rnd.random() < .4:
            # Any of these makes a sync struct; the other one turned off doesn't change that
            sp = ({"reader", "writer"} - rw).pop() + "(off)" if len(rw) == 1 and rnd.random() < .6 else ""
        if sp:
            a.append(sp)
    elif st.mode == "async":
        a.append(st.mode_spell or rnd.choice(["r#async", "r#async", "mode(async)", "sync(off), r#async"]))
    elif any(f.mode != "plain" for f in st.fields) or (rnd.random() < .15 and not st.s_inner):
        a.append("mode(plain)")
    if st.rc:
        a.append(f'rc("{st.rc_name}")' if getattr(st, "rc_name", None) else "rc")
    if st.s_lazy:
        a.append(helper_arg("lazy", [f'"{st.prefix["lazy"]}"'] if "lazy" in st.prefix else []))
    if st.s_opt:
        a.append("optional")
    if st.s_lock:
        a.append("lock")
    if st.s_inner:
        a.append("inner_mut")
    if st.s_fallible == "off":
        a.append("fallible(off, error(VErr))")
    elif st.s_fallible == "on":
        a.append("fallible(error(VErr))")
    for h in HELPERS:
        subs = []
        if h in st.s_on:
            if h in st.prefix:
                subs.append(f'"{st.prefix[h]}"')
            if h == "get" and st.s_acc and st.s_acc[1] == "get":
                subs.append(st.s_acc[0])
            if h == "set" and st.s_into == "set":
                subs.append("into")
            a.append(helper_arg(h, subs))
    if st.s_acc and st.s_acc[1] == "kw":
        a.append(st.s_acc[0])
    if st.s_into == "kw":
        a.append("into")
    if st.builder:
        subs = []
        if "builder" in st.prefix:
            subs.append(f'"{st.prefix["builder"]}"')
        if st.opt_in:
            subs.append("opt_in")
        if st.s_builder_into:
            subs.append("into")
        if st.s_required:
            subs.append("required")
        subs += getattr(st, "builder_extra", [])
        a.append(helper_arg("builder", subs))
    a += st.extra
    rnd.shuffle(a)
    st.args = a
    for f in st.fields:
        render_field(st, f, rnd)


def render_field(st, f, rnd):
    a = []
    # mode
    if f.attr_mode:
        a.append(f.attr_mode)
    if f.kind == "lazy":
        subs = []
        if "lazy" in f.explicit:
            subs.append(f'"{f.explicit["lazy"]}"')
        if not st.s_lazy or subs or rnd.random() < .15:
            a.append(helper_arg("lazy", subs))
        if f.fallible:
            if f.err != "VErr" or st.s_fallible is None:
                a.append(f"fallible(error({f.err}))")
            elif st.s_fallible == "off" or rnd.random() < .2:
                a.append("fallible")
        elif st.s_fallible == "on":
            a.append("fallible(off)")
    else:
        if st.s_lazy:
            a.append("lazy(off)")
    if f.kind in ("opt", "imopt"):
        implied = ("clearer" in f.on or "predicate" in f.on or st.s_opt)
        if not implied or rnd.random() < .2:
            if not st.s_lazy or True:
                a.append("optional")
    elif st.s_opt:
        a.append("optional(off)")
    if f.kind in ("imut", "imopt"):
        if not st.s_inner:
            a.append("inner_mut")
    elif st.s_inner:
        a.append("inner_mut(off)")
    if f.kind == "lock" and not st.s_lock_off:
        if not st.s_lock and not ("reader" in f.on or "writer" in f.on) and f.attr_mode != "lock":
            a.append("lock")
    if f.kind == "val" and st.s_lock and f.attr_mode != "lock(off)":
        a.append("lock(off)")
    if f.base:
        a.append(f'rename("{f.base}")')
    for h in HELPERS:
        inh = h in st.s_on
        subs = []
        if h in f.on:
            if h in f.explicit:
                subs.append(f'"{f.explicit[h]}"')
            if h == "get":
                if f.acc_off == "as_ref":
                    subs.append("as_ref")
                elif f.acc_off:
                    pass
                elif f.acc != f.acc_inh and not getattr(f, "acc_kw", False):
                    subs.append(f.acc)
                elif f.acc and rnd.random() < .2 and not getattr(f, "acc_kw", False):
                    subs.append(f.acc)
            if h == "set" and f.set_sub:
                subs.append("into")
            implied = h == "get" and (f.kind in ("lazy", "imut", "imopt") or "clearer" in f.on or "predicate" in f.on)
            if subs or not (inh or (implied and rnd.random() < .5)) or rnd.random() < .15:
                a.append(helper_arg(h, subs))
        else:
            implied = h == "get" and (f.kind in ("lazy", "imut", "imopt") or "clearer" in f.on or "predicate" in f.on)
            if inh or implied:
                a.append(f"{h}(off)")
    if st.s_lock_off and f.kind in ("lock", "opt") and f.mode == st.mode and f.attr_mode != "lock":
        asked = any(x.startswith(("reader", "writer")) and not x.endswith("(off)") for x in a)
        if not asked or rnd.random() < .3:
            a.append("lock")
    if getattr(f, "acc_kw", False):
        a.append(f.acc)
    if f.acc_off and f.acc_off != "as_ref":
        a.append(f"{f.acc_inh}(off)" if f.acc_off == "kw" else f.acc_off)
    if f.into_kw is True:
        a.append("into")
    elif f.into_kw is False:
        a.append("into(off)")
    if f.default is not None:
        a.append(f"default({default_expr(st, f)})")
    elif f.def_kw:
        a.append({"bare": "default", "off": "default(off)", "offv": f"default(off, Self::no_such_{f.idx}())"}[f.def_kw])
    if st.builder:
        subs = []
        if "builder" in f.explicit:
            subs.append(f'"{f.explicit["builder"]}"')
        if f.builder is False:
            if not st.opt_in:
                a.append("builder(off)")
        else:
            if f.b_sub:
                subs.append("into")
            if f.req_arg:
                subs.append(f.req_arg)
            if st.opt_in or subs:
                a.append(helper_arg("builder", subs))
    a += getattr(f, "extra", [])
    rnd.shuffle(a)
    f.args = a


def default_expr(st, f):
    d = f.default
    form = getattr(f, "default_form", 0)
    if form == 1:
        return f"Self::dflt_{f.idx}()"
    if f.ty == "Cp":
        return f"Cp({d})"
    return f"{f.ty}::mk(&Ctl::cur(), {d})"


# ---------------------------------------------------------------- code

def attr(st):
    return f"#[fxstruct({', '.join(st.args)})]" if st.args else "#[fxstruct]"


T_BOUNDS = "Id + Default + Clone + PartialEq + std::fmt::Debug + Send + Sync + 'static"
# Forms of generic parameters: declaration of the struct, parameters of impls, arguments, where clause, concrete arguments
GFORMS = {
    "where": ("<T>", "<T>", "<T>", f" where T: {T_BOUNDS}", "<Val>"),
    "inline": (f"<T: {T_BOUNDS}>", f"<T: {T_BOUNDS}>", "<T>", "", "<Val>"),
    "default": (f"<T: {T_BOUNDS} = Val>", f"<T: {T_BOUNDS}>", "<T>", "", "<Val>"),
    "const": ("<T, const N: usize>", "<T, const N: usize>", "<T, N>", f" where T: {T_BOUNDS}", "<Val, 3>"),
    "mixed": ("<T: Id + Default + Clone, const FLAG: bool = true>", "<T: Id + Default + Clone, const FLAG: bool>", "<T, FLAG>", " where T: PartialEq + std::fmt::Debug + Send + Sync + 'static", "<Val, true>"),
    # These have a field which uses lifetimes
    "life": (f"<'a, 'b: 'a, T: {T_BOUNDS}>", f"<'a, 'b: 'a, T: {T_BOUNDS}>", "<'a, 'b, T>", "", "<'static, 'static, Val>"),
    "lifeconst": ("<'a, 'b, T, const N: u8>", "<'a, 'b, T, const N: u8>", "<'a, 'b, T, N>", f" where T: {T_BOUNDS}, 'b: 'a", "<'static, 'static, Val, b'x'>"),
    # Types of fields are projections; a parameter which is possibly unsized
    "assoc": ("<I>", "<I>", "<I>", f" where I: Iterator + Send + Sync + 'static, I::Item: {T_BOUNDS}", "<Items<Val>>"),
    "assocq": ("<I: Iterator + Send + Sync + 'static, const B: char>", "<I: Iterator + Send + Sync + 'static, const B: char>", "<I, B>",
               f" where <I as Iterator>::Item: {T_BOUNDS}", "<Items<Val>, '>'>"),
    "sized": (f"<T: {T_BOUNDS}, U: ?Sized + Send + Sync + 'static = str>", f"<T: {T_BOUNDS}, U: ?Sized + Send + Sync + 'static>", "<T, U>", "", "<Val, [u8]>"),
}
TPARAM = {"assoc": "I::Item", "assocq": "<I as Iterator>::Item"}
PHANTOM = {"life": "(&'a u8, &'b u8)", "lifeconst": "(&'a u8, &'b u8)", "assoc": "I", "assocq": "I", "sized": "U"}


def is_param(f):
    return f.ty == "T" or f.ty in TPARAM.values()


def gpart(st, i):
    return GFORMS[getattr(st, "gform", "where")][i] if st.generic else ""


def gconc(st):
    return gpart(st, 4)


def gturbo(st):
    return "::" + gpart(st, 4) if st.generic else ""


def struct_decl(st):
    out = []
    for d in st.derives:
        if isinstance(d, tuple):
            continue
    vis = "pub " if st.pub else ""
    g = gpart(st, 0)
    w = gpart(st, 3)
    out.append(attr(st))
    if st.derives:
        out.append(f"#[derive({', '.join(st.derives)})]")
    out.append(f"{vis}struct {st.name}{g}{w} {{")
    for f in st.fields:
        if f.args:
            out.append(f"    #[fieldx({', '.join(f.args)})]")
        elif rnd_bool(f):
            out.append("    #[fieldx()]")
        for a in getattr(f, "attrs", []):
            out.append(f"    {a}")
        out.append(f"    {f.name}: {f.ty},")
    out.append("    #[fieldx(skip)]")
    out.append("    ctl: Ctl,")
    ph = PHANTOM.get(getattr(st, "gform", "")) if st.generic else None
    if ph:
        out.append("    #[fieldx(skip)]")
        out.append(f"    ph: std::marker::PhantomData<{ph}>,")
    out.append("}")
    return "\n".join(out)


def rnd_bool(f):
    return False


def impl_builders(st):
    """impl with lazy builders and default functions"""
    out = [f"#[allow(dead_code)]\nimpl{gpart(st, 1)} {st.name}{gpart(st, 2)}{gpart(st, 3)} {{"]
    for f in st.fields:
        if f.default is not None and getattr(f, "default_form", 0) == 1:
            e = f"Cp({f.default})" if f.ty == "Cp" else f"{f.ty}::mk(&Ctl::cur(), {f.default})"
            out.append(f"    fn dflt_{f.idx}() -> {f.ty} {{ default_used({f.idx}); {e} }}")
        if f.kind != "lazy":
            continue
        nm = f.helper_name(st, "lazy")
        pre = ""
        if getattr(st, "self_check", False):
            me = getattr(st, "rc_name", None) or "myself"
            pre = f"self.ctl.self_seen(self as *const Self as *const (), self.{me}().map(|m| &*m as *const Self as *const ())); "
        if "predicate" in f.on and f.idx % 2 == 0:
            # There is no value yet, and nobody else is able to put one there
            pre += f"self.ctl.no_value_yet({f.idx}, self.{f.helper_name(st, 'predicate')}()); "
        ret = f"Result<{f.ty}, {f.err}>" if f.fallible else f.ty
        if f.deps:
            body = []
            if f.mode == "async":
                for d in f.deps:
                    g_ = d.helper_name(st, "get")
                    body.append(f'c.anested({d.idx}, "{g_}", async {{ let g = self.{g_}().await; let i = g.id(); drop(g); Out::Val(i) }}).await;')
                out.append(f"    async fn {nm}(&self) -> {ret} {{ {pre}let c = self.ctl.clone(); self.ctl.abuild_with({f.idx}, async {{ {' '.join(body)} }}).await }}")
            else:
                for d in f.deps:
                    g_ = d.helper_name(st, "get")
                    body.append(f'c.nested({d.idx}, "{g_}", || {{ let g = self.{g_}(); let i = g.id(); drop(g); Out::Val(i) }});')
                out.append(f"    fn {nm}(&self) -> {ret} {{ {pre}let c = self.ctl.clone(); self.ctl.build_with({f.idx}, || {{ {' '.join(body)} }}) }}")
        else:
            fn = "build_fallible" if f.fallible else "build"
            conv = f".map_err({f.err}::from)" if f.fallible and f.err != "VErr" else ""
            if f.mode == "async":
                out.append(f"    async fn {nm}(&self) -> {ret} {{ {pre}self.ctl.a{fn}({f.idx}).await{conv} }}")
            else:
                out.append(f"    fn {nm}(&self) -> {ret} {{ {pre}self.ctl.{fn}({f.idx}){conv} }}")
    if getattr(st, "post", None):
        out.append(post_fn(st))
    out += getattr(st, "impl_extra", [])
    out.append("}")
    return "\n".join(out)


def post_fn(st):
    """Post-build hook: looks at fields, changes one of them, fails if told so"""
    looks, target = [], None
    for f in st.fields:
        if f.mode == "async":
            continue
        ops = ops_of(st, f, True, True)
        want = "Has" if f.kind == "lazy" else "Get"
        c = [code for cls, n, code in ops if cls == want and ".is_set" not in n]
        if c:
            looks.append(f"looks.push(({f.idx}, {c[0]}));")
        if f.kind == "val" and target is None:
            target = f
    ret = "Result<Self, MyErr>" if st.post_fallible else "Self"
    b = ["let looks = { let mut looks: Vec<(usize, Out)> = vec![]; let o = &self; let cx = &Cx::new(&self.ctl);"] + looks + ["looks };"]
    t = "None" if target is None else f"Some({target.idx})"
    b.append(f"let r = self.ctl.post(looks, {t}, {str(st.post_fallible).lower()});")
    if st.post_fallible:
        b.append("let v = match r { Ok(v) => v, Err(e) => return Err(MyErr::Bad(e)) };")
    else:
        b.append("let v = r.unwrap();")
    if target is not None:
        b.append(f"let mut this = self; this.{target.name} = <{target.ty} as Id>::mk(&this.ctl, v); ")
    else:
        b.append("let this = self;")
    b.append("Ok(this)" if st.post_fallible else "this")
    return f"    fn {st.post}(self) -> {ret} {{\n        " + "\n        ".join(b) + "\n    }"


def bld_code(st):
    M = st.name + "Case"
    t = st.name + gturbo(st)
    out = [f"impl BldCase for {M} {{"]
    out.append(f"    const EFORM: u8 = {st.eform};")
    out.append(f"    const POST: bool = {str(bool(st.post)).lower()};")
    out.append(f"    const POST_FALLIBLE: bool = {str(st.post_fallible).lower()};")
    bd = ", ".join(f'BD {{ ident: "{f.name.replace('r#', '')}", in_builder: {str(bool(f.builder)).lower()}, mandatory: {str(mandatory(f)).lower()} }}' for f in st.fields)
    out.append(f"    fn bdesc() -> &'static [BD] {{ &[{bd}] }}")
    out.append("    fn build(ctl: &Ctl, stages: &[Vec<(usize, u64)>]) -> Vec<Result<Self::Obj, BErr>> {")
    out.append(f"        let mut b = {t}::builder(); let mut res = vec![];")
    out.append("        for st in stages {\n            for (f, v) in st {\n                let v = *v;\n                b = match f {")
    for f in st.fields:
        if f.builder:
            v = "Raw(v)" if f.builder_into else "Id::mk(ctl, v)"
            out.append(f"                    {f.idx} => b.{f.helper_name(st, 'builder')}({v}),")
    out.append("                    _ => b,\n                };\n            }")
    out.append("            let r = b.build().map_err(|e| e.berr()); let over = matches!(r, Ok(_) | Err(BErr::Post(_))); res.push(r); if over { break }\n        }\n        res\n    }\n}")
    return "\n".join(out)


def mandatory(f):
    return bool(f.builder) and (f.required or (f.mkind == "Val" and f.default is None and f.def_kw != "bare"))


def rc_code(st):
    M = st.name + "Case"
    rc = obj_ty(st)
    base = rc.split("<")[0]
    wk = base.rsplit("::", 1)[0] + "::Weak"
    me = getattr(st, "rc_name", None) or "myself"
    return f"""impl RcCase for {M} {{
    type Weak = {wk}<{sty(st)}>;
    fn myself(o: &Self::Obj) -> Option<Self::Obj> {{ o.{me}() }}
    fn down(o: &Self::Obj) -> Self::Weak {{ o.{me}_downgrade() }}
    fn up(w: &Self::Weak) -> Option<Self::Obj> {{ w.upgrade() }}
    fn strong(o: &Self::Obj) -> usize {{ {base}::strong_count(o) }}
    fn addr(o: &Self::Obj) -> usize {{ {base}::as_ptr(o) as *const () as usize }}
}}"""


def ops_of(st, f, shared, within=False):
    """List of (cls, name, code) for a field. Code is an expression of type Out; `o` is the object.

    shared: only methods which do not need `&mut` object."""
    r = []
    n = {h: f.helper_name(st, h) for h in HELPERS}
    T = f.ty if within else cty(st, f)
    aw = ".await" if f.mode == "async" else ""
    # No type: a setter without `into` must not be generic
    def set_arg():
        if not f.set_into:
            return "cx.mk(arg)"
        # User's conversion uses the field itself, where it's possible
        use = [(nm, code) for cls, nm, code in r if cls in ("Get", "Peek") and (f.mode == "sync" and f.kind in ("lazy", "opt", "lock") or f.kind in ("imut", "imopt"))]
        if use:
            nm, code = use[0]
            return f'RawDo(arg, || cx.ctl.converting(|| cx.ctl.nested({I}, "{nm}", || {code})))'
        return "RawDo(arg, || cx.ctl.converting(|| ()))"

    mkv = f"cx.mk::<{cty(st, f)}>(arg)"
    I = f.idx
    conc = f.mode != "plain"
    # async code can't use closures over guards
    def heldr(expr, rd, kindout):
        if f.mode == "async":
            return (f"let g = {expr}; {{ let _m = cx.ar_in({I}); cx.ameet().await; let a = {rd}; cx.apause().await; let b = {rd}; "
                    f"cx.same({I}, &a, &b); drop(_m); drop(g); {kindout}(a) }}")
        return f"let g = {expr}; let a = cx.held_r({I}, || {rd}); drop(g); {kindout}(a)"

    def heldw(expr, old, put, expect, rd, kindout):
        if f.mode == "async":
            return (f"let mut g = {expr}; {{ let _m = cx.aw_in({I}); cx.apause().await; let old = {old}; {put}; cx.apause().await; let b = {rd}; "
                    f"cx.same({I}, &{expect}, &b); drop(_m); drop(g); {kindout}(old) }}")
        # RefCell: single borrow at a time
        return (f"let g = std::cell::RefCell::new({expr}); let old = cx.held_w({I}, || {{ let mut g = g.borrow_mut(); let old = {old}; {put}; old }}, "
                f"{expect}, || {{ let g = g.borrow(); {rd} }}); drop(g); {kindout}(old)")

    def fall(body_of):
        """body_of(expr of value) for fallible"""
        pass

    k = f.kind
    if k == "lazy":
        call_get = f"o.{n['get']}(){aw}"
        if "get" in f.on:
            if f.acc in ("copy", "clone"):
                if f.fallible:
                    r.append(("Get", n["get"], f"{{ let r: Result<{T}, {f.err}> = {call_get}; match r {{ Ok(v) => Out::Val(v.id()), Err(e) => Out::Err(e.0) }} }}"))
                else:
                    r.append(("Get", n["get"], f"{{ let v: {T} = {call_get}; Out::Val(v.id()) }}"))
            elif conc:
                if f.fallible:
                    r.append(("Get", n["get"], f"{{ match {call_get} {{ Ok(v) => {{ {heldr('v', 'g.id()', 'Out::Val')} }} Err(e) => Out::Err(e.0) }} }}"))
                else:
                    r.append(("Get", n["get"], f"{{ {heldr(call_get, 'g.id()', 'Out::Val')} }}"))
            else:
                if f.fallible:
                    r.append(("Get", n["get"], f"{{ let r: Result<&{T}, {f.err}> = {call_get}; match r {{ Ok(v) => Out::Val(v.id()), Err(e) => Out::Err(e.0) }} }}"))
                else:
                    r.append(("Get", n["get"], f"{{ let v: &{T} = {call_get}; Out::Val(v.id()) }}"))
        if "reader" in f.on and conc:
            c = f"o.{n['reader']}(){aw}"
            if f.fallible:
                r.append(("Get", n["reader"], f"{{ match {c} {{ Ok(v) => {{ {heldr('v', 'g.id()', 'Out::Val')} }} Err(e) => Out::Err(e.0) }} }}"))
            else:
                r.append(("Get", n["reader"], f"{{ {heldr(c, 'g.id()', 'Out::Val')} }}"))
        if "get_mut" in f.on and (conc or not shared):
            c = f"o.{n['get_mut']}(){aw}"
            if conc:
                b = heldw("v" if f.fallible else c, "g.id()", f"**g = {mkv}" if f.mode != "async" else f"*g = {mkv}", "arg", "g.id()", "Out::Val")
                if f.mode != "async":
                    pass
                if f.fallible:
                    r.append(("Swap", n["get_mut"], f"{{ match {c} {{ Ok(v) => {{ {b} }} Err(e) => Out::Err(e.0) }} }}"))
                else:
                    r.append(("Swap", n["get_mut"], f"{{ {b} }}"))
            else:
                if f.fallible:
                    r.append(("Swap", n["get_mut"], f"{{ let nv = {mkv}; match {c} {{ Ok(v) => {{ let old = v.id(); *v = nv; Out::Val(old) }} Err(e) => Out::Err(e.0) }} }}"))
                else:
                    r.append(("Swap", n["get_mut"], f"{{ let nv = {mkv}; let v = {c}; let old = v.id(); *v = nv; Out::Val(old) }}"))
        if "set" in f.on and (conc or not shared):
            r.append(("Set", n["set"], f"oopt(o.{n['set']}({set_arg()}){aw})"))
        if "clearer" in f.on and (conc or not shared):
            r.append(("Clear", n["clearer"], f"oopt(o.{n['clearer']}(){aw})"))
        if "predicate" in f.on:
            r.append(("Has", n["predicate"], f"Out::Bool(o.{n['predicate']}())"))
        if conc:
            if not st.rc:
                r.append(("Init", f.name + ".lazy_init", f"{{ o.{f.name}.lazy_init(&*o){aw}; Out::Unit }}"))
            # Directly, without accessors
            try_ = "try_" if f.fallible else ""
            if not st.rc:
                c = f"o.{f.name}.{try_}read(&*o){aw}"
                b = heldr("v" if f.fallible else c, "g.id()", "Out::Val")
                r.append(("Get", f"{f.name}.{try_}read", f"{{ match {c} {{ Ok(v) => {{ {b} }} Err(e) => Out::Err(e.0) }} }}" if f.fallible else f"{{ {b} }}"))
                c = f"o.{f.name}.{try_}read_mut(&*o){aw}"
                b = heldw("v" if f.fallible else c, "g.id()", f"**g = {mkv}" if f.mode != "async" else f"*g = {mkv}", "arg", "g.id()", "Out::Val")
                r.append(("Swap", f"{f.name}.{try_}read_mut", f"{{ match {c} {{ Ok(v) => {{ {b} }} Err(e) => Out::Err(e.0) }} }}" if f.fallible else f"{{ {b} }}"))
            r.append(("Has", f.name + ".is_set", f"Out::Bool(o.{f.name}.is_set())"))
            r.append(("Clear", f.name + ".clear", f"oopt(o.{f.name}.clear(){aw})"))
        if "writer" in f.on and conc:
            w = f"o.{n['writer']}(){aw}"
            if f.mode == "async":
                r.append(("Sub", n["writer"], f"{{ let mut w = {w}; let _m = cx.aw_in({I}); cx.apause().await; cx.op({I}, Cls::Set, \"writer.store\", arg, || oopt(w.store({mkv}))); cx.apause().await; drop(_m); drop(w); Out::Unit }}"))
                r.append(("Sub", n["writer"], f"{{ let w = {w}; let _m = cx.aw_in({I}); cx.apause().await; cx.op({I}, Cls::Clear, \"writer.clear\", 0, || oopt(w.clear())); cx.apause().await; drop(_m); drop(w); Out::Unit }}"))
                r.append(("Sub", n["writer"], f"{{ let mut w = {w}; let _m = cx.aw_in({I}); cx.apause().await; cx.op({I}, Cls::Clear, \"writer.clear\", 0, || oopt(w.clear())); cx.op({I}, Cls::Set, \"writer.store\", arg, || oopt(w.store({mkv}))); cx.apause().await; drop(_m); drop(w); Out::Unit }}"))
            else:
                r.append(("Sub", n["writer"], f"{{ let mut w = {w}; cx.held_x({I}, || cx.op({I}, Cls::Set, \"writer.store\", arg, || oopt(w.store({mkv})))); drop(w); Out::Unit }}"))
                r.append(("Sub", n["writer"], f"{{ let w = {w}; cx.held_x({I}, || cx.op({I}, Cls::Clear, \"writer.clear\", 0, || oopt(w.clear()))); drop(w); Out::Unit }}"))
                r.append(("Sub", n["writer"], f"{{ let mut w = {w}; cx.held_x({I}, || {{ cx.op({I}, Cls::Clear, \"writer.clear\", 0, || oopt(w.clear())); cx.op({I}, Cls::Set, \"writer.store\", arg, || oopt(w.store({mkv}))); }}); drop(w); Out::Unit }}"))
    elif k == "opt":
        if "get" in f.on:
            c = f"o.{n['get']}(){aw}"
            if f.acc in ("copy", "clone"):
                r.append(("Get", n["get"], f"{{ let v: Option<{T}> = {c}; oopt(v) }}"))
            elif f.acc == "as_ref":
                r.append(("Get", n["get"], f"{{ let v: Option<&{T}> = {c}; Out::Opt(v.map(|v| v.id())) }}"))
            elif conc:
                r.append(("Get", n["get"], f"{{ {heldr(c, 'oid(&*g)', 'Out::Opt')} }}"))
            else:
                r.append(("Get", n["get"], f"{{ let v: &Option<{T}> = {c}; Out::Opt(oid(v)) }}"))
        if "reader" in f.on and conc:
            c = f"o.{n['reader']}(){aw}"
            r.append(("Get", n["reader"], f"{{ {heldr(c, 'oid(&*g)', 'Out::Opt')} }}"))
        for h in ("get_mut", "writer"):
            if h in f.on and (conc or (not shared and h == "get_mut")):
                c = f"o.{n[h]}(){aw}"
                if conc:
                    star = "**g" if f.mode != "async" else "*g"
                    rdx = "oid(&**g)" if f.mode != "async" else "oid(&*g)"
                    r.append(("Swap", n[h], f"{{ {heldw(c, rdx, f'{star} = Some({mkv})', 'Some(arg)', rdx, 'Out::Opt')} }}"))
                    r.append(("SwapNone", n[h], f"{{ {heldw(c, rdx, f'{star} = None', 'None', rdx, 'Out::Opt')} }}"))
                else:
                    r.append(("Swap", n[h], f"{{ let nv = {mkv}; let v = {c}; oopt(v.replace(nv)) }}"))
                    r.append(("SwapNone", n[h], f"{{ let v = {c}; oopt(v.take()) }}"))
        if "set" in f.on and (conc or not shared):
            r.append(("Set", n["set"], f"oopt(o.{n['set']}({set_arg()}){aw})"))
        if "clearer" in f.on and (conc or not shared):
            r.append(("Clear", n["clearer"], f"oopt(o.{n['clearer']}(){aw})"))
        if "predicate" in f.on:
            r.append(("Has", n["predicate"], f"Out::Bool(o.{n['predicate']}(){aw})"))
        if conc:
            r.append(("Get", f"{f.name}.read", f"{{ {heldr(f'o.{f.name}.read(){aw}', 'oid(&*g)', 'Out::Opt')} }}"))
            star = "**g" if f.mode != "async" else "*g"
            rdx = "oid(&**g)" if f.mode != "async" else "oid(&*g)"
            r.append(("Swap", f"{f.name}.write", f"{{ {heldw(f'o.{f.name}.write(){aw}', rdx, f'{star} = Some({mkv})', 'Some(arg)', rdx, 'Out::Opt')} }}"))
    elif k == "lock":
        if "get" in f.on:
            c = f"o.{n['get']}(){aw}"
            if f.acc in ("copy", "clone"):
                r.append(("Get", n["get"], f"{{ let v = {c}; Out::Val(v.id()) }}"))
            else:
                r.append(("Get", n["get"], f"{{ {heldr(c, 'g.id()', 'Out::Val')} }}"))
        if "reader" in f.on:
            c = f"o.{n['reader']}(){aw}"
            r.append(("Get", n["reader"], f"{{ {heldr(c, 'g.id()', 'Out::Val')} }}"))
        for h in ("get_mut", "writer"):
            if h in f.on:
                c = f"o.{n[h]}(){aw}"
                star = "**g" if f.mode != "async" else "*g"
                r.append(("Swap", n[h], f"{{ {heldw(c, 'g.id()', f'{star} = {mkv}', 'arg', 'g.id()', 'Out::Val')} }}"))
        if "set" in f.on:
            r.append(("Set", n["set"], f"Out::Val(o.{n['set']}({set_arg()}){aw}.id())"))
        r.append(("Get", f"{f.name}.read", f"{{ {heldr(f'o.{f.name}.read(){aw}', 'g.id()', 'Out::Val')} }}"))
        star = "**g" if f.mode != "async" else "*g"
        r.append(("Swap", f"{f.name}.write", f"{{ {heldw(f'o.{f.name}.write(){aw}', 'g.id()', f'{star} = {mkv}', 'arg', 'g.id()', 'Out::Val')} }}"))
    elif k == "val":
        if "get" in f.on:
            r.append(("Get", n["get"], f"{{ let v: {T if f.acc in ('copy', 'clone') else '&' + T} = o.{n['get']}(); Out::Val(v.id()) }}"))
        if "get_mut" in f.on and not shared:
            r.append(("Swap", n["get_mut"], f"{{ let nv = {mkv}; let v = o.{n['get_mut']}(); let old = v.id(); *v = nv; Out::Val(old) }}"))
        if "set" in f.on and not shared:
            r.append(("Set", n["set"], f"Out::Val(o.{n['set']}({set_arg()}).id())"))
    elif k == "imut":
        if "get" in f.on:
            if f.acc in ("copy", "clone"):
                r.append(("Get", n["get"], f"{{ let v: {T} = o.{n['get']}(); Out::Val(v.id()) }}"))
            else:
                r.append(("Get", n["get"], f"{{ {heldr('o.%s()' % n['get'], 'g.id()', 'Out::Val')} }}"))
        if "get_mut" in f.on:
            r.append(("Swap", n["get_mut"], f"{{ let nv = {mkv}; let mut v = o.{n['get_mut']}(); let old = v.id(); *v = nv; drop(v); Out::Val(old) }}"))
        if "set" in f.on:
            r.append(("Set", n["set"], f"Out::Val(o.{n['set']}({set_arg()}).id())"))
    elif k == "imopt":
        if "get" in f.on:
            if f.acc in ("copy", "clone"):
                r.append(("Get", n["get"], f"{{ let v: Option<{T}> = o.{n['get']}(); oopt(v) }}"))
            else:
                r.append(("Get", n["get"], f"{{ {heldr('o.%s()' % n['get'], 'oid(&*g)', 'Out::Opt')} }}"))
        if "get_mut" in f.on:
            r.append(("Swap", n["get_mut"], f"{{ let nv = {mkv}; let mut v = o.{n['get_mut']}(); let old = v.replace(nv); drop(v); oopt(old) }}"))
            r.append(("SwapNone", n["get_mut"], f"{{ let mut v = o.{n['get_mut']}(); let old = v.take(); drop(v); oopt(old) }}"))
        if "set" in f.on:
            r.append(("Set", n["set"], f"oopt(o.{n['set']}({set_arg()}))"))
        if "clearer" in f.on:
            r.append(("Clear", n["clearer"], f"oopt(o.{n['clearer']}())"))
        if "predicate" in f.on:
            r.append(("Has", n["predicate"], f"Out::Bool(o.{n['predicate']}())"))
    return r


def cty(st, f):
    return "Val" if is_param(f) else f.ty


def sty(st):
    return st.name + gconc(st)


def obj_ty(st):
    t = sty(st)
    if st.rc:
        return ("std::sync::Arc" if st.mode != "plain" else "std::rc::Rc") + f"<{t}>"
    return t


def case_code(st, trait):
    """Marker type with the traits implemented. trait: seq, conc, async"""
    M = st.name + "Case"
    out = [f"pub struct {M};"]
    allops = [ops_of(st, f, trait != "seq" or st.rc) for f in st.fields]
    txt = (attr(st) + " " + "; ".join(f"#[fieldx({', '.join(f.args)})] {f.name}: {f.ty}" for f in st.fields)).replace('"', "'")
    out.append(f"impl Case for {M} {{")
    out.append(f'    const NAME: &\'static str = "{st.name}: {txt}";')
    out.append(f"    type Obj = {obj_ty(st)};")
    out.append("    fn desc() -> &'static [FDesc] {\n        &[")
    for f, ops in zip(st.fields, allops):
        o = ", ".join(f'OpD {{ cls: Cls::{c}, name: "{n}", guard: {str(c != "Set" and ("held_r(" in code or "ar_in(" in code)).lower()} }}' for c, n, code in ops)
        init = "None" if f.init is None else f"Some({f.init})"
        deps = ", ".join(str(d.idx) for d in f.deps)
        out.append(f'            FDesc {{ name: "{f.name}", cfg: "{f.cfg()}", kind: Kind::{f.mkind}, fallible: {str(f.fallible).lower()}, init: {init}, ops: &[{o}], deps: &[{deps}], counted: {str(f.ty != "Cp").lower()} }},')
    out.append("        ]\n    }")
    ways = make_ways(st)
    out.append(f"    fn ways() -> usize {{ {len(ways)} }}")
    out.append(f"    #[allow(unused_variables)]\n    fn make(way: usize, rng: &mut Rng, ctl: &Ctl) -> Made<Self::Obj> {{\n        match way {{")
    for i, w in enumerate(ways):
        pat = "_" if i == len(ways) - 1 else str(i)
        out.append(f"            {pat} => {{ {w} }}")
    out.append("        }\n    }\n}")
    tn = {"seq": "SeqCase", "conc": "ConcCase", "async": "AsyncCase"}[trait]
    out.append(f"impl {tn} for {M} {{")
    if trait == "seq":
        out.append("    fn apply(o: &mut Self::Obj, cx: &Cx, f: usize, op: usize, arg: u64) -> Out {")
    elif trait == "conc":
        out.append("    fn apply(o: &Self::Obj, cx: &Cx, f: usize, op: usize, arg: u64) -> Out {")
    else:
        out.append("    fn apply<'a>(o: &'a Self::Obj, cx: &'a Cx, f: usize, op: usize, arg: u64) -> BoxFut<'a, Out> {")
    if st.rc and trait != "async":
        pass
    if trait == "async":
        out.append("        Box::pin(async move {")
    out.append("        match (f, op) {")
    for f, ops in zip(st.fields, allops):
        for j, (c, n, code) in enumerate(ops):
            if trait == "async":
                if c == "Sub":
                    out.append(f"            ({f.idx}, {j}) => {code},")
                else:
                    out.append(f'            ({f.idx}, {j}) => cx.aop({f.idx}, Cls::{c}, "{n}", arg, async move {{ {code} }}).await,')
            else:
                if c == "Sub":
                    out.append(f"            ({f.idx}, {j}) => {code},")
                else:
                    out.append(f'            ({f.idx}, {j}) => cx.op({f.idx}, Cls::{c}, "{n}", arg, || {code}),')
    out.append("            _ => unreachable!(),\n        }")
    if trait == "async":
        out.append("        })")
    out.append("    }\n}")
    return "\n".join(out)


RENAMES = {
    "UPPERCASE": lambda n: n.upper(),
    "camelCase": lambda n: (lambda p: p[0].lower() + p[1:])("".join(w[:1].upper() + w[1:] for w in n.split("_"))),
    "PascalCase": lambda n: "".join(w[:1].upper() + w[1:] for w in n.split("_")),
    "kebab-case": lambda n: n.replace("_", "-"),
    "SCREAMING-KEBAB-CASE": lambda n: n.upper().replace("_", "-"),
}


def mkv(f, v):
    return f"Cp({v})" if f.ty == "Cp" else f"<{f.ty} as Id>::mk(&Ctl::cur(), {v})"


def add_serde(st, rnd):
    """Chooses serde arguments and what they are expected to do"""
    st.ser = st.de = True
    x = rnd.random()
    sub = []
    if x < .06:
        st.de = False
        sub.append(rnd.choice(["deserialize(off)", "serialize"]))
    elif x < .12:
        st.ser = False
        sub.append(rnd.choice(["serialize(off)", "deserialize"]))
    elif x < .16:
        sub += ["serialize", "deserialize"]
    st.shadow = f"__{st.name}Shadow"
    x = rnd.random()
    if x < .15:
        st.shadow = f"{st.name}Dup"
        sub.insert(0, f'"{st.shadow}"')
    elif x < .25:
        st.shadow = f"{st.name}Dup"
        sub.append(f'shadow_name("{st.shadow}")')
    x = rnd.random()
    st.serde_default = None if x < .6 else ("flag" if x < .8 else "fn")
    if not st.de:
        st.serde_default = None
    if st.serde_default and "const" in st.gform or st.gform == "mixed":
        # Not supported by serde itself
        st.gform = "inline"
    st.rename_all = rnd.choice(list(RENAMES)) if rnd.random() < .25 else None
    st.deny = st.de and rnd.random() < .2
    ua = ([f'rename_all = "{st.rename_all}"'] if st.rename_all else []) + (["deny_unknown_fields"] if st.deny else [])
    if ua:
        a = f"attributes(serde({', '.join(ua)}))"
        if not st.builder and rnd.random() < .3:
            st.extra.append(a)      # fallback for serde
        else:
            sub.append(a)
    extra = []
    used = set()
    for f in st.fields:
        fs = []
        f.s_ser = f.s_de = True
        f.s_in = True
        x = rnd.random()
        if x < .08:
            f.s_in = f.s_ser = f.s_de = False
            fs.append(rnd.choice(["off", "serialize(off), deserialize(off)"]))
        elif x < .2:
            f.s_ser = False
            fs.append(rnd.choice(["serialize(off)", "deserialize", "serialize(off), deserialize"]))
        elif x < .32:
            f.s_de = False
            fs.append(rnd.choice(["deserialize(off)", "serialize", "deserialize(off), serialize"]))
        elif x < .36:
            fs.append("serialize, deserialize")
        f.sname = None
        if f.s_in and rnd.random() < .2:
            f.sname = rnd.choice(["nm_", "Nm ", "x-", "type"]) + (str(f.idx) if rnd.random() < .9 else f.name.replace("r#", ""))
            fs.insert(0, f'"{f.sname}"') if rnd.random() < .7 else fs.append(f'shadow_name("{f.sname}")')
        f.s_def = None
        if f.s_in and f.s_de and st.de and rnd.random() < .3:
            form = rnd.choice(["flag", "self", "expr", "str"])
            if is_param(f) and form == "expr":
                form = "self"
            v = rnd.randrange(100, 990)
            f.s_def = ("flag", None) if form == "flag" else (form, v)
            opt = f.kind in ("lazy", "opt", "imopt")
            if form == "flag":
                fs.append("default")
            elif form == "self":
                fs.append(f"default(Self::sdf_{f.idx}())")
                extra.append(f"    fn sdf_{f.idx}() -> {f.ty} {{ {mkv(f, v)} }}")
            elif form == "expr":
                fs.append(f"default({mkv(f, v).replace('<Val as Id>', 'Val')})")
            else:
                fs.append(f'default("{st.name}{'::' + gpart(st, 2) if st.generic else ''}::sdp_{f.idx}")')
                if opt:
                    extra.append(f"    fn sdp_{f.idx}() -> Option<{f.ty}> {{ Some({mkv(f, v)}) }}")
                else:
                    extra.append(f"    fn sdp_{f.idx}() -> {f.ty} {{ {mkv(f, v)} }}")
        f.alias = None
        if f.s_in and rnd.random() < .12:
            f.alias = f"alias{f.idx}"
            if rnd.random() < .5:
                fs.append(f'attributes(serde(alias = "{f.alias}"))')
            else:
                f.attrs = [f'#[serde(alias = "{f.alias}")]']
        if fs or rnd.random() < .1:
            if not hasattr(f, "extra"):
                f.extra = []
            f.extra.append(f"serde({', '.join(fs)})" if fs else "serde")
        n = f.name.replace("r#", "")
        f.skey = f.sname or f.base or (RENAMES[st.rename_all](n) if st.rename_all else n)
        assert f.skey not in used or not f.s_in
        used.add(f.skey)
    sdv = {}
    if st.serde_default == "flag":
        sub.append("default")
    elif st.serde_default == "fn":
        form = rnd.choice(["path", "str"])
        sub.append("default(Self::ser_dflt())" if form == "path" else 'default("Self::ser_dflt")')
        b = []
        for f in st.fields:
            if not f.s_in:
                continue
            v = rnd.randrange(100, 990)
            if f.kind in ("lazy", "opt", "imopt"):
                if rnd.random() < .5:
                    b.append(f"{f.name}: None")
                    sdv[f.idx] = None
                else:
                    b.append(f"{f.name}: Some({mkv(f, v)})")
                    sdv[f.idx] = v
            else:
                b.append(f"{f.name}: {mkv(f, v)}")
                sdv[f.idx] = v
        g = gpart(st, 2)
        extra.append(f"    fn ser_dflt() -> {st.shadow}{g} {{ {st.shadow} {{ {', '.join(b)} }} }}")
    for f in st.fields:
        quirk = f.default if f.mode == "plain" and f.kind in ("lazy", "opt", "imopt") else None

        def empty():
            return f"Miss::Either({quirk})" if quirk is not None else "Miss::Is(None)"
        if not (f.s_in and f.s_de and st.de):
            f.miss = "Miss::Is(%s)" % ("None" if f.init is None else f"Some({f.init})")
        elif f.s_def and f.s_def[0] != "flag":
            f.miss = f"Miss::Is(Some({f.s_def[1]}))"
        elif f.s_def:
            f.miss = empty() if f.kind in ("lazy", "opt", "imopt") else "Miss::Is(Some(0))"
        elif st.serde_default == "fn":
            f.miss = empty() if sdv[f.idx] is None else f"Miss::Is(Some({sdv[f.idx]}))"
        elif st.serde_default == "flag":
            f.miss = "Miss::Is(%s)" % ("None" if f.init is None else f"Some({f.init})")
        elif f.kind in ("lazy", "opt", "imopt"):
            f.miss = empty()
        else:
            f.miss = "Miss::Fail"
        f.quirk = "None" if quirk is None else f"Some({quirk})"
    rnd.shuffle(sub) if not (sub and sub[0].startswith('"')) else None
    st.extra.append(f"serde({', '.join(sub)})" if sub else "serde")
    st.impl_extra = extra


def ser_code(st):
    M = st.name + "Case"
    b = lambda x: str(bool(x)).lower()
    out = [f"impl SerCase for {M} {{", f"    const SER: bool = {b(st.ser)};", f"    const DE: bool = {b(st.de)};", f"    const DENY: bool = {b(st.deny)};"]
    rows = ", ".join(f'SD {{ name: "{f.skey}", ser: {b(f.s_in and f.s_ser and st.ser)}, de: {b(f.s_in and f.s_de and st.de)}, missing: {f.miss}, quirk: {f.quirk}, alias: "{f.alias or ""}" }}' for f in st.fields)
    out.append(f"    fn sdesc() -> &'static [SD] {{ &[{rows}] }}")
    out.append("    fn ser(o: &Self::Obj, to_value: bool) -> Result<String, String> { %s }" % (
        "if to_value { serde_json::to_value(o).map(|v| v.to_string()).map_err(|e| e.to_string()) } else { serde_json::to_string(o).map_err(|e| e.to_string()) }" if st.ser else "unreachable!()"))
    out.append("    fn de(s: &str, from_value: bool) -> Result<Self::Obj, String> { %s }" % (
        "if from_value { serde_json::from_str::<serde_json::Value>(s).and_then(|v| serde_json::from_value(v)).map_err(|e| e.to_string()) } else { serde_json::from_str(s).map_err(|e| e.to_string()) }" if st.de else "unreachable!()"))
    out.append("}")
    return "\n".join(out)


def make_ways(st):
    w = []
    t = st.name + gturbo(st)
    if "no_new" not in st.extra:
        w.append(f"({t}::new(), vec![])")
        if not st.rc:
            w.append(f"(<{sty(st)} as Default>::default(), vec![])")
    if st.builder:
        lines = [f"let mut b = {t}::builder();", "let mut init: Vec<(usize, Option<u64>)> = vec![];"]
        for f in st.fields:
            if f.builder is False:
                continue
            nm = f.helper_name(st, "builder")
            mandatory_ = mandatory(f)
            v = "Raw(v)" if f.builder_into else "Id::mk(ctl, v)"
            cond = "true" if mandatory_ else "rng.chance(1, 2)"
            lines.append(f"if {cond} {{ let v = ctl.fresh(); b = b.{nm}({v}); init.push(({f.idx}, Some(v))); }}")
        lines.append('let o = b.build().expect("struct builder failed");')
        lines.append("(o, init)")
        w.append(" ".join(lines))
    return w
