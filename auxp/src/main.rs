//! Argument types of fieldx_aux parse generated sources; what they hold is compared with what sources say.
use darling::FromMeta;
use fieldx_aux::*;
use harness::{each, Args, Rng, Tally};
use quote::ToTokens;
use std::fmt::Debug;
use syn::Meta;

fn toks(s: &str) -> String {
    bare(&s.parse::<proc_macro2::TokenStream>().expect("tokens"))
}
fn ts(t: &impl ToTokens) -> String {
    bare(&t.to_token_stream())
}
fn bare(t: &proc_macro2::TokenStream) -> String {
    t.to_string().split_whitespace().collect()
}

struct G<'a> {
    r: Rng,
    t: &'a mut Tally,
    prop: &'a str,
    verbose: bool,
}

/// None: nothing is promised about such arguments except for not panicking
type Exp<M> = Option<Result<M, &'static str>>;
fn ok<M>(m: M) -> Exp<M> {
    Some(Ok(m))
}
fn no<M>(why: &'static str) -> Exp<M> {
    Some(Err(why))
}

fn hash(s: &str) -> u64 {
    s.bytes().fold(0xcbf2_9ce4_8422_2325, |h, b| (h ^ b as u64).wrapping_mul(0x100_0000_01B3))
}

impl G<'_> {
    fn below(&mut self, n: usize) -> usize {
        self.r.below(n)
    }
    fn chance(&mut self, pct: usize) -> bool {
        self.r.below(100) < pct
    }
    fn pick<'b, T: ?Sized>(&mut self, l: &[&'b T]) -> &'b T {
        l[self.r.below(l.len())]
    }
    fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            v.swap(i, self.r.below(i + 1));
        }
    }
    fn list(&mut self, mut items: Vec<String>) -> String {
        self.shuffle(&mut items);
        self.ordered(items)
    }
    fn ordered(&mut self, items: Vec<String>) -> String {
        let mut s = items.join(", ");
        if !items.is_empty() && self.chance(20) {
            s.push(',');
        }
        s
    }

    fn check<T: FromMeta, M: PartialEq + Debug>(&mut self, ty: &str, src: &str, exp: Exp<M>, view: impl Fn(&T) -> M) {
        let meta: Meta = match syn::parse_str(src) {
            Ok(m) => m,
            Err(e) => {
                self.t.add("unparsable_sources", 1);
                self.t.notes.push(format!("not a meta: {src}: {e}"));
                return;
            }
        };
        let got = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| T::from_meta(&meta).map(|v| view(&v)).map_err(|e| e.to_string())));
        self.t.add("parses", 1);
        self.t.seen(hash(src) ^ hash(ty).rotate_left(7));
        self.t.sample(|| format!("{ty}: {src} => {got:?}"));
        if self.verbose {
            eprintln!("{ty}: {src}\n   expected {exp:?}\n   got {got:?}");
        }
        let bad = match (&got, &exp) {
            (Err(_), _) => "panicked".to_string(),
            (_, None) => {
                self.t.add("no_expectations", 1);
                return;
            }
            (Ok(Ok(g)), Some(Ok(e))) if g == e => {
                self.t.add("accepted", 1);
                return;
            }
            (Ok(Err(_)), Some(Err(_))) => {
                self.t.add("rejected", 1);
                return;
            }
            (Ok(Ok(g)), Some(Ok(e))) => format!("it holds {g:?}, expected {e:?}"),
            (Ok(Ok(g)), Some(Err(e))) => format!("is accepted as {g:?}, while it must be rejected: {e}"),
            (Ok(Err(g)), Some(Ok(e))) => format!("is rejected with: {g}. Expected {e:?}"),
        };
        self.t.violation(format!("{} {}", self.prop, ty.split('<').next().unwrap()), format!("{ty}: `{src}` {bad}"));
    }
    fn fact(&mut self, what: &str, okay: bool) {
        self.t.add("conversions", 1);
        if !okay {
            self.t.violation(format!("{} conversion", self.prop), format!("wrong: {what}"));
        }
    }

    // ---- literals ----

    /// (source, kind, value)
    fn literal(&mut self) -> (String, &'static str, String) {
        match self.below(9) {
            0 | 1 => {
                let s = self.pick(&["", "x", "method_name", "a b", "\\\"q\\\"", "\\n", "Ж", "off"]).to_string();
                let v = match s.as_str() {
                    "\\\"q\\\"" => "\"q\"".to_string(),
                    "\\n" => "\n".to_string(),
                    _ => s.clone(),
                };
                if self.chance(20) {
                    (format!("r#\"{v}\"#"), "str", v)
                }
                else {
                    (format!("\"{s}\""), "str", v)
                }
            }
            2 | 3 | 4 => {
                let edges: [u128; 16] =
                    [0, 1, 42, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 1 << 31, 1 << 32, 1 << 63, u64::MAX as u128, 1 << 64];
                let v = edges[self.below(16)];
                let s = match self.below(5) {
                    0 => format!("{v:#x}"),
                    1 => format!("{v:#b}"),
                    2 => {
                        let d = v.to_string();
                        format!("{}_{}", &d[..1], &d[1..])
                    }
                    _ => v.to_string(),
                };
                let s = if self.chance(10) && !s.starts_with("0x") { format!("{s}u64") } else { s };
                if v != 0 && self.chance(25) {
                    return (format!("-{s}"), "int", format!("-{v}"));
                }
                (s, "int", v.to_string())
            }
            5 => {
                let s = self.pick(&["1.5", "3.25", "0.0", "1e10", "2.5e-3", "7.0", "-1.5"]);
                (s.to_string(), "float", s.parse::<f64>().unwrap().to_string())
            }
            6 => {
                let s = self.pick(&["a", "Ж", "\\n", "0"]);
                (format!("'{s}'"), "char", if s == "\\n" { "\n".into() } else { s.to_string() })
            }
            7 => {
                let s = self.pick(&["true", "false"]);
                (s.to_string(), "bool", s.to_string())
            }
            _ => {
                let s = self.pick(&["", "ab", "\\x00\\xff"]);
                (format!("b\"{s}\""), "bytes", if s.len() > 4 { "[0, 255]".into() } else { format!("{:?}", s.as_bytes()) })
            }
        }
    }

    fn value<T>(&mut self, ty: &'static str, kind: &'static str, max: u128)
    where
        FXValueArg<T>: FromNestAttr,
        T: Clone + ToVal,
    {
        let n = self.pick(&["foo", "long_name"]);
        match self.below(20) {
            0 => {
                self.check::<FXValue<T>, ()>(ty, n, no("a value is required"), |_| ());
                return;
            }
            1 => {
                let l = self.literal();
                self.check::<FXValue<T>, ()>(ty, &format!("{n} = {}", l.0), no("only arguments in parentheses are supported"), |_| ());
                return;
            }
            2 => {
                let x = self.pick(&["on", "off = true", "off(x)", "value", "value(1)", "off, off", "a::off"]);
                self.check::<FXValue<T>, ()>(ty, &format!("{n}({x})"), no("unknown subargument"), |_| ());
                return;
            }
            _ => (),
        }
        let mut items = vec![];
        let off = self.chance(30);
        if off {
            items.push("off".to_string());
        }
        let nl = [0, 1, 1, 1, 1, 1, 1, 2][self.below(8)];
        let mut exp: Exp<(bool, Option<String>)> = ok((!off, None));
        for _ in 0..nl {
            let mut l = self.literal();
            for _ in 0..6 {
                if l.1 == kind {
                    break;
                }
                l = self.literal();
            }
            items.push(l.0.clone());
            if nl > 1 {
                exp = no("a single value is allowed");
            }
            else if l.1 != kind {
                exp = no("a value of another type");
            }
            else if kind == "int" && l.2.strip_prefix('-').map_or(max, |_| if ty.contains("<i") { max + 1 } else { 0 }) < l.2.trim_start_matches('-').parse::<u128>().unwrap() {
                exp = no("out of range");
            }
            else {
                exp = ok((!off, if off { None } else { Some(l.2) }));
            }
        }
        let src = format!("{n}({})", self.list(items));
        self.check::<FXValue<T>, _>(ty, &src, exp, |v| (v.is_true(), v.value().map(|v| v.val())));
        self.kept::<FXValue<T>>(ty, &src);
    }

    /// Arguments know where they came from
    fn kept<T: FromMeta + FXOrig<Meta> + ToTokens>(&mut self, ty: &str, src: &str) {
        let Ok(m) = syn::parse_str::<Meta>(src) else { return };
        let Ok(v) = T::from_meta(&m) else { return };
        let good = v.orig() == Some(&m) && ts(&v) == ts(&m) && v.orig_span().is_some();
        self.fact(&format!("{ty}: `{src}` isn't kept as is: {}", ts(&v)), good);
    }

    fn boolean(&mut self) {
        let (src, exp) = match self.below(10) {
            0 => ("foo".to_string(), ok(true)),
            1 => ("foo()".to_string(), ok(true)),
            2 | 3 => ("foo(off)".to_string(), ok(false)),
            4 => ("foo(off,)".to_string(), ok(false)),
            5 => {
                let l = self.literal().0;
                let x = if self.chance(50) { format!("foo(off, {l})") } else { format!("foo({l})") };
                (x, no("literals aren't allowed"))
            }
            6 => (format!("foo({})", self.pick(&["on", "off = 1", "off(1)", "x::off", "off, off"])), no("unknown subargument")),
            _ => (format!("foo = {}", self.pick(&["true", "false", "1", "\"x\""])), no("only arguments in parentheses are supported")),
        };
        self.check::<FXBool, _>("FXBool", &src, exp, |v| v.is_true());
        self.kept::<FXBool>("FXBool", &src);
    }

    // ---- syntax elements ----

    fn syntax(&mut self, k: usize) -> String {
        let p = ["Foo", "crate::Foo", "std::sync::Arc", "self::a::b", "::core::option::Option"];
        let e = ["1", "1..=42", "|v| v.method()", "if true { println!(\"OK!\") }", "a::b(c, [d, e])", "x + 1", "(1, 2)", "Foo { a: 1 }", "!x", "-5",
            "\"s\".to_string()", "vec![1, 2]", "&a[..]", "match x { 1 => 2, _ => 3 }"];
        let i = ["a", "foo_bar", "r#type", "X"];
        let t = ["u8", "Vec<u8>", "&'static str", "(u8, String)", "[u8; 3]", "HashMap<String, Vec<u8>>", "dyn Fn(u8) -> u8", "fn(u8, u8)", "!"];
        let s = ["\"x\"", "r\"y\"", "\"a, b\""];
        match k {
            0 => self.pick(&p).to_string(),
            1 => self.pick(&e).to_string(),
            2 => self.pick(&i).to_string(),
            3 => self.pick(&t).to_string(),
            _ => self.pick(&s).to_string(),
        }
    }

    fn syn_value<T: syn::parse::Parse + ToTokens>(&mut self, ty: &'static str, k: usize) {
        let x = self.syntax(k);
        let (src, exp) = match self.below(12) {
            0 => ("foo".to_string(), no("a value is required")),
            1 => ("foo()".to_string(), no("a value is required")),
            2 => {
                let y = self.syntax(k);
                (format!("foo({x}, {y})"), no("a single value is allowed"))
            }
            3 => (format!("foo({x}; {x})"), no("a single value is allowed")),
            4 => (format!("foo = {}", self.literal().0), no("only arguments in parentheses are supported")),
            _ => (format!("foo({x})"), ok(toks(&x))),
        };
        self.check::<FXSynValue<T>, _>(ty, &src, exp.clone(), |v| ts(v.value()));
        self.check::<FXSynValue<T>, _>(ty, &src, exp.clone(), |v| ts(&***v));
        self.kept::<FXSynValue<T>>(ty, &src);
        let exp = match (src.as_str(), exp) {
            ("foo", _) => ok(None),
            (_, Some(Ok(x))) => ok(Some(x)),
            (_, Some(Err(e))) => no(e),
            _ => None,
        };
        self.check::<FXSynValue<T, true>, _>(&format!("{ty} or keyword"), &src, exp, |v| v.value().map(ts));
    }

    fn parts(&mut self, ks: &[usize]) -> (String, Exp<Vec<String>>) {
        let mut xs: Vec<String> = ks.iter().map(|k| self.syntax(*k)).collect();
        let exp = match self.below(8) {
            0 => {
                xs.pop();
                no("too few elements")
            }
            1 => {
                let k = ks[self.below(ks.len())];
                let x = self.syntax(k);
                xs.push(x);
                no("too many elements")
            }
            _ => ok(xs.iter().map(|x| toks(x)).collect()),
        };
        (format!("foo({})", self.ordered(xs)), exp)
    }

    fn tuples(&mut self) {
        use syn::{Expr as E, Ident as I, LitStr as L, Path as P, Type as T};
        macro_rules! tup { ($n:literal, [$($k:literal $t:ty, $f:ident);+]) => {{
            let (src, exp) = self.parts(&[$($k),+]);
            type TT = FXSynTuple<($($t),+)>;
            self.check::<TT, _>(concat!("FXSynTuple<", $n, ">"), &src, exp, |v| { let ($($f),+) = v.value(); vec![$(ts($f)),+] });
            self.kept::<TT>("FXSynTuple", &src);
            let bad = self.pick(&["foo", "foo()", "foo = 1"]);
            self.check::<TT, ()>(concat!("FXSynTuple<", $n, ">"), bad, no("elements are required"), |_| ());
        }}; }
        match self.below(8) {
            0 => tup!(2, [0 P, a; 1 E, b]),
            1 => tup!(2, [2 I, a; 4 L, b]),
            2 => tup!(3, [0 P, a; 1 E, b; 3 T, c]),
            3 => tup!(4, [1 E, a; 1 E, b; 2 I, c; 3 T, d]),
            4 => tup!(5, [2 I, a; 2 I, b; 4 L, c; 2 I, d; 0 P, e]),
            5 => tup!(6, [0 P, a; 0 P, b; 0 P, c; 0 P, d; 0 P, e; 1 E, f]),
            6 => tup!(8, [2 I, a; 1 E, b; 2 I, c; 1 E, d; 2 I, e; 1 E, f; 2 I, g; 1 E, h]),
            _ => tup!(10, [0 P, a; 1 E, b; 2 I, c; 3 T, d; 4 L, e; 0 P, f; 1 E, g; 2 I, h; 3 T, i; 4 L, j]),
        }
    }

    fn punctuated(&mut self) {
        use syn::{Expr, Ident, PatType, Path, Token};
        macro_rules! pun { ($t:ty, $k:expr, $sep:tt, $min:literal, $max:literal) => {{
            let n = self.below(6);
            let xs: Vec<String> = (0..n).map(|_| self.syntax($k)).collect();
            self.pun::<FXPunctuated<$t, Token![$sep], $min, $max>, $t>(concat!("FXPunctuated<", stringify!($t), ", ", stringify!($sep), ", ", $min, ", ", $max, ">"),
                xs, stringify!($sep), $min, $max, |v| v.items().iter().map(ts).collect());
        }}; }
        match self.below(8) {
            0 => pun!(Path, 0, ,, -1, -1),
            1 => pun!(Expr, 1, ,, 1, 2),
            2 => pun!(Ident, 2, +, 2, -1),
            3 => pun!(Expr, 1, ;, -1, 3),
            4 => pun!(Path, 0, ;, 3, 3),
            5 => pun!(syn::Type, 3, ,, 0, 0),
            6 => pun!(Ident, 2, =>, 1, 4),
            _ => {
                let n = self.below(4);
                let xs: Vec<String> = (0..n).map(|i| { let t = self.syntax(3); format!("f{i}: {t}") }).collect();
                self.pun::<FXPunctuated<PatType, Token![,]>, PatType>("FXPunctuated<PatType, ,>", xs, ",", -1, -1, |v| v.items().iter().map(ts).collect());
            }
        }
    }
    fn pun<T: FromMeta + syn::parse::Parse, E>(&mut self, ty: &str, xs: Vec<String>, sep: &str, min: i32, max: i32, view: fn(&T) -> Vec<String>) {
        let n = xs.len() as i32;
        let mut s = xs.join(&format!(" {sep} "));
        if n > 0 && self.chance(20) {
            s += &format!(" {sep}");
        }
        let exp = if min >= 0 && n < min {
            no("too few elements")
        }
        else if max >= 0 && n > max {
            no("too many elements")
        }
        else if n > 0 && self.chance(5) {
            s = format!("{sep} {s}");
            no("an element is missing")
        }
        else {
            ok(xs.iter().map(|x| toks(x)).collect::<Vec<_>>())
        };
        let src = format!("foo({s})");
        self.check::<T, _>(ty, &src, exp.clone(), view);
        self.check::<FXSynValue<T>, _>(&format!("FXSynValue<{ty}>"), &src, exp, |v| view(v.value()));
    }

    fn sync_mode(&mut self) {
        let (x, exp) = match self.below(6) {
            0 => ("sync", ok((true, false, false))),
            1 => ("async", ok((false, true, false))),
            2 => ("plain", ok((false, false, true))),
            3 => ("Sync", no("unknown mode")),
            4 => ("sync, async", no("a single mode is allowed")),
            _ => (self.pick(&["\"sync\"", "asynch", "1", "syncplain", "", "none"]), no("unknown mode")),
        };
        self.check::<FXSynValue<FXSyncMode>, _>("FXSyncMode", &format!("mode({x})"), exp, |v| (v.value().is_sync(), v.value().is_async(), v.value().is_plain()));
    }

    // ---- parts of helpers: (source, expected tokens) ----

    fn public(&mut self) -> (String, Exp<String>) {
        match self.below(12) {
            0 | 1 => ("public".into(), ok("pub".into())),
            2 => ("public(crate)".into(), ok(toks("pub(crate)"))),
            3 => ("public(super)".into(), ok(toks("pub(super)"))),
            4..=6 => {
                let p = self.pick(&["crate::a", "crate::a::b", "super::x", "self::y::z"]);
                (format!("public({p})"), ok(toks(&format!("pub(in {p})"))))
            }
            7 => ("public()".into(), no("a scope is required")),
            8 => (format!("public({})", self.literal().0), no("literals aren't allowed")),
            9 => ("public(crate, super)".into(), no("a single scope is allowed")),
            10 => ("public(everybody)".into(), no("unknown scope")),
            _ => ("public(crate(x))".into(), no("unknown scope")),
        }
    }

    fn attrs(&mut self) -> (String, Exp<Vec<String>>) {
        let a = ["allow(unused)", "derive(Clone, Debug)", "doc = \"a, b\"", "inline", "serde(rename_all = \"lowercase\", default)", "cfg(any())", "a::b", "x[1, 2]", "y{ z, w }"];
        let n = self.below(4);
        let xs: Vec<String> = (0..n).map(|_| self.pick(&a).to_string()).collect();
        let exp = ok(xs.iter().map(|x| toks(&format!("#[{x}]"))).collect());
        let s = self.ordered(xs);
        match self.below(15) {
            0 => (String::new(), no("a list is required")),
            1 if n > 0 => (format!("({s}, 1)"), no("not an attribute")),
            _ => (format!("({s})"), exp),
        }
    }

    fn fallible(&mut self) {
        let off = self.chance(30);
        let err = self.chance(60).then(|| self.syntax(0));
        let mut items = vec![];
        if off {
            items.push("off".to_string());
        }
        if let Some(e) = &err {
            items.push(format!("error({e})"));
        }
        let bare = items.is_empty() && self.chance(50);
        let mut src = if bare { "fallible".to_string() } else { format!("fallible({})", self.list(items)) };
        let mut exp = ok((!off, err.map(|e| toks(&e))));
        if self.chance(15) {
            src = format!("fallible({})", self.pick(&["error", "error()", "error(A, B)", "error(A), error(B)", "error = A", "Err", "\"E\"", "error(\"E\")", "off(1)"]));
            exp = no("malformed arguments");
        }
        self.check::<FXNestingAttr<FXFallible>, _>("FXFallible", &src, exp, |v| (v.is_true(), v.error_type().map(|e| ts(e.value()))));
        self.kept::<FXNestingAttr<FXFallible>>("FXFallible", &src);
    }

    fn default_arg(&mut self) {
        let v = ["42", "\"str\"", "true", "Type::func()", "path::to", "f(1, a)", "x", "Self::FOO", "a = 1"];
        let x = self.pick(&v);
        let y = self.pick(&v);
        type M = (bool, Option<String>, Option<String>);
        let some = |on: bool| -> Exp<M> { ok((on, Some(toks(x)), if x == "\"str\"" { Some("str".into()) } else { None })) };
        let (src, req, opt): (String, Exp<M>, Exp<M>) = match self.below(10) {
            0 => ("default".into(), no("a value is required"), ok((true, None, None))),
            1 => ("default()".into(), no("a value is required"), ok((true, None, None))),
            2 | 3 => (format!("default(off, {x})"), some(false), some(false)),
            4 => (format!("default({x}, {y})"), no("a single value is allowed"), no("a single value is allowed")),
            5 => (format!("default(off, {x}, {y})"), no("a single value is allowed"), no("a single value is allowed")),
            6 => (format!("default({x}, off)"), no("off goes first"), no("off goes first")),
            7 => (format!("default = {}", self.literal().0), no("only arguments in parentheses are supported"), no("only arguments in parentheses are supported")),
            _ => (format!("default({x})"), some(true), some(true)),
        };
        fn view<const O: bool>(d: &FXDefault<O>) -> M {
            assert_eq!(d.has_value(), d.value().is_some());
            assert_eq!(d.is_str(), String::try_from(d).is_ok());
            (d.is_true(), d.value().as_ref().map(ts), String::try_from(d).ok())
        }
        self.check::<FXDefault<false>, M>("FXDefault<false>", &src, req, view);
        self.check::<FXDefault<true>, M>("FXDefault<true>", &src, opt, view);
    }

    // ---- helpers ----

    /// Common subarguments. None - if nothing is expected of a combination.
    fn common(&mut self, items: &mut Vec<String>, literal: bool) -> Exp<Hm> {
        let mut m = Hm { on: true, ..Hm::default() };
        let mut bad: Exp<Hm> = None;
        let mut unknown = false;
        if self.chance(25) {
            items.push("off".into());
            m.on = false;
        }
        match self.below(8) {
            0 | 1 | 2 => {
                let n = if self.chance(8) { 2 } else { 1 };
                for _ in 0..n {
                    let l = if self.chance(85) { ("\"nm\"".to_string(), "str", "nm".to_string()) } else { self.literal() };
                    items.push(l.0);
                    if !literal {
                        bad = no("literals aren't allowed");
                    }
                    else if l.1 != "str" {
                        bad = no("the name must be a string");
                    }
                    m.name = Some(l.2);
                }
                if n > 1 {
                    bad = no("a single literal is allowed");
                }
            }
            3 if literal => {
                items.push("name(\"other\")".into());
                m.name = Some("other".into());
            }
            _ => (),
        }
        let mut public = false;
        if self.chance(25) {
            let (s, e) = self.public();
            items.push(s);
            match e {
                Some(Ok(v)) => m.vis = Some(v),
                Some(Err(e)) => bad = no(e),
                None => unknown = true,
            }
            public = true;
        }
        match self.below(8) {
            0 => {
                items.push("private".into());
                if public {
                    bad = no("contradicting visibility");
                }
                m.vis = Some(String::new());
            }
            1 => {
                items.push("private(off)".into());
                unknown = public;
            }
            _ => (),
        }
        if self.chance(25) {
            let (s, e) = self.attrs();
            items.push(format!("attributes_fn{s}"));
            match e {
                Some(Ok(v)) => m.attrs_fn = Some(v),
                Some(Err(e)) => bad = no(e),
                None => unknown = true,
            }
        }
        if self.chance(4) {
            items.push(self.pick(&["whatever", "names(\"x\")", "off(1)", "attributes_fnn(inline)", "a::b", "x = 1"]).to_string());
            bad = no("unknown subargument");
        }
        if !items.is_empty() && self.chance(3) {
            let i = self.below(items.len());
            if items[i].starts_with('o') || items[i].starts_with('p') || items[i].starts_with("att") {
                let x = items[i].clone();
                items.push(x);
                bad = no("a duplicate");
            }
        }
        if bad.is_some() {
            bad
        }
        else if unknown {
            None
        }
        else {
            ok(m)
        }
    }

    fn source(&mut self, n: &str, items: Vec<String>) -> String {
        if items.is_empty() && self.chance(70) {
            return n.to_string();
        }
        format!("{n}({})", self.list(items))
    }

    fn flag(&mut self, items: &mut Vec<String>, n: &str, pct: usize) -> Option<bool> {
        if !self.chance(pct) {
            return None;
        }
        let on = self.chance(60);
        items.push(if on { n.to_string() } else { format!("{n}(off)") });
        Some(on)
    }

    fn helper(&mut self) {
        let mut items = vec![];
        let exp = self.common(&mut items, true);
        let src = self.source("reader", items);
        self.check::<FXHelper, _>("FXHelper", &src, exp, |v| {
            let b: bool = v.as_ref_bool();
            assert_eq!(b, v.is_true());
            Hm::of(&**v)
        });
        self.kept::<FXHelper>("FXHelper", &src);
        let mut items = vec![];
        let exp = self.common(&mut items, false);
        let src = self.source("lock", items);
        self.check::<FXHelper<true>, _>("FXHelper<true>", &src, exp, |v| Hm::of(&**v));
        let l = self.literal().0;
        self.check::<FXHelper, ()>("FXHelper", &format!("reader = {l}"), no("only arguments in parentheses are supported"), |_| ());
    }

    fn accessor(&mut self) {
        let literal = self.chance(80);
        let mut items = vec![];
        let exp = self.common(&mut items, literal);
        let mut modes = vec![];
        for m in ["clone", "copy", "as_ref"] {
            if self.chance(25) {
                items.push(m.to_string());
                modes.push(m);
            }
        }
        let exp = match exp {
            Some(Ok(_)) if modes.len() > 1 => no("contradicting modes"),
            Some(Ok(m)) => ok((m, modes.first().map(|s| s.to_string()))),
            Some(Err(e)) => no(e),
            None => None,
        };
        let src = self.source("get", items);
        let mode = |m: Option<FXAccessorMode>| {
            m.map(|m| match m {
                FXAccessorMode::Copy => "copy".to_string(),
                FXAccessorMode::Clone => "clone".to_string(),
                FXAccessorMode::AsRef => "as_ref".to_string(),
                _ => "none".to_string(),
            })
        };
        if literal {
            self.check::<FXAccessor, _>("FXAccessor", &src, exp, |v| {
                assert_eq!(v.mode().is_some(), v.mode_span().is_some());
                (Hm::of(&**v), mode(v.mode()))
            });
            self.kept::<FXAccessor>("FXAccessor", &src);
        }
        else {
            self.check::<FXAccessor<true>, _>("FXAccessor<true>", &src, exp, |v| (Hm::of(&**v), mode(v.mode())));
        }
    }

    fn setter(&mut self) {
        let mut items = vec![];
        let exp = self.common(&mut items, true);
        let into = match self.below(4) {
            0 => {
                items.push("into".into());
                Some(true)
            }
            1 => {
                let b = self.chance(50);
                items.push(format!("into = {b}"));
                Some(b)
            }
            _ => None,
        };
        let exp = exp.map(|r| r.map(|m| (m, into)));
        let src = self.source("set", items);
        self.check::<FXSetter, _>("FXSetter", &src, exp, |v| (Hm::of(&**v), v.is_into()));
        self.kept::<FXSetter>("FXSetter", &src);
    }

    fn builder<const STRUCT: bool>(&mut self) {
        let mut items = vec![];
        let mut exp = self.common(&mut items, true);
        let into = self.flag(&mut items, "into", 20);
        let required = self.flag(&mut items, "required", 20);
        let opt_in = self.flag(&mut items, "opt_in", 15);
        let mut post = None;
        if self.chance(15) {
            let id = self.chance(60).then(|| self.syntax(2));
            items.push(id.as_ref().map_or("post_build".into(), |i| format!("post_build({i})")));
            post = Some(id.map(|i| toks(&i)));
        }
        let mut error = vec![];
        if self.chance(20) {
            error = (0..self.below(4)).map(|_| self.syntax(0)).collect();
            items.push(format!("error({})", error.join(", ")));
            if error.is_empty() || error.len() > 2 {
                exp = no("one or two paths are expected");
            }
            if error.is_empty() {
                error.push("bad".into());
            }
        }
        let mut attrs = None;
        let mut attrs_impl = None;
        for i in 0..2 {
            if !self.chance(20) {
                continue;
            }
            let (s, e) = self.attrs();
            items.push(format!("attributes{}{s}", ["", "_impl"][i]));
            match e {
                Some(Ok(v)) => *(if i == 0 { &mut attrs } else { &mut attrs_impl }) = Some(v),
                Some(Err(e)) => exp = no(e),
                None => (),
            }
        }
        if !STRUCT && (opt_in.is_some() || post.is_some() || !error.is_empty()) {
            exp = no("only for structs");
        }
        let exp = exp.map(|r| {
            r.map(|m| Bm {
                h: Hm { attrs, ..m },
                into,
                required,
                opt_in: opt_in.unwrap_or(false),
                post,
                error: error.iter().map(|e| toks(e)).collect(),
                attrs_impl,
            })
        });
        let src = self.source("builder", items);
        self.check::<FXBuilder<STRUCT>, _>(if STRUCT { "FXBuilder<true>" } else { "FXBuilder<false>" }, &src, exp, |v| {
            assert_eq!(v.has_post_build(), v.post_build().is_some());
            Bm {
                h: Hm::of(&**v),
                into: v.is_into(),
                required: v.is_required(),
                opt_in: v.is_builder_opt_in(),
                post: v.post_build().as_ref().map(|p| p.value().map(ts)),
                error: v.error_type().iter().chain(v.error_variant().iter()).map(|p| ts(*p)).collect(),
                attrs_impl: v.attributes_impl().map(|a| a.list().iter().map(ts).collect()),
            }
        });
        self.kept::<FXBuilder<STRUCT>>("FXBuilder", &src);
    }

    fn serde(&mut self) {
        let mut items = vec![];
        let mut exp: Exp<()> = ok(());
        let mut unknown = false;
        let off = self.chance(15);
        if off {
            items.push("off".to_string());
        }
        let mut name = None;
        match self.below(6) {
            0 => {
                let l = if self.chance(85) { ("\"Nm\"".to_string(), "str", "Nm".to_string()) } else { self.literal() };
                items.push(l.0);
                if l.1 != "str" {
                    exp = no("the name must be a string");
                }
                name = Some(l.2);
            }
            1 => {
                items.push("shadow_name(\"Other\")".into());
                name = Some("Other".to_string());
            }
            _ => (),
        }
        let ser = self.flag(&mut items, "serialize", 40);
        let de = self.flag(&mut items, "deserialize", 40);
        let mut vis = None;
        if self.chance(20) {
            let (s, e) = self.public();
            items.push(s);
            match e {
                Some(Ok(v)) => vis = Some(v),
                Some(Err(e)) => exp = no(e),
                None => unknown = true,
            }
            if self.chance(20) {
                items.push("private".into());
                exp = no("contradicting visibility");
            }
        }
        else if self.chance(20) {
            items.push("private".into());
            vis = Some(String::new());
        }
        let mut attrs: Option<Vec<String>> = None;
        if self.chance(20) {
            let (s, e) = self.attrs();
            items.push(format!("attributes{s}"));
            match e {
                Some(Ok(v)) => attrs = Some(v),
                Some(Err(e)) => exp = no(e),
                None => (),
            }
        }
        let pool = ["serde", "doc", "allow", "my::attr"];
        let mut fwd = None;
        if self.chance(25) {
            let mut l: Vec<&str> = pool.to_vec();
            self.shuffle(&mut l);
            l.truncate(self.r.below(4));
            items.push(format!("forward_attrs({})", l.join(", ")));
            fwd = Some(l);
        }
        let accepted: Vec<bool> = pool.iter().map(|p| fwd.as_ref().is_none_or(|f| f.contains(p))).collect();
        let mut default = (false, None);
        let mut raw = false;
        if self.chance(35) {
            let x = self.pick(&["42", "\"Foo::new()\"", "Type::func()", "path::to"]);
            raw = true;
            match self.below(4) {
                0 => {
                    items.push("default".into());
                    default = (true, None);
                }
                1 => items.push(format!("default(off, {x})")),
                _ => {
                    items.push(format!("default({x})"));
                    default = (true, Some(toks(x)));
                }
            }
        }
        let exp = match exp {
            Some(Err(e)) => no(e),
            _ if unknown => None,
            _ => ok((
                (!off, name, vis, attrs, accepted),
                (ser.or(de.map(|d| !d)), de.or(ser.map(|s| !s))),
                if off { Some(false) } else if ser.is_none() && de.is_none() { None } else { Some(ser != Some(false) || de != Some(false)) },
                default,
                raw,
            )),
        };
        let src = self.source("serde", items);
        self.check::<FXSerde, _>("FXSerde", &src, exp, |v| {
            let at: Vec<syn::Attribute> = pool.iter().map(|p| { let p: syn::Path = syn::parse_str(p).unwrap(); syn::parse_quote!(#[#p(x)]) }).collect();
            (
                (
                    v.is_true(),
                    v.shadow_name().cloned(),
                    v.public_mode().map(|p| ts(&p)),
                    v.attributes().as_ref().map(|a| a.list().iter().map(ts).collect::<Vec<_>>()),
                    at.iter().map(|a| v.accepts_attr(a)).collect::<Vec<bool>>(),
                ),
                (v.needs_serialize(), v.needs_deserialize()),
                v.is_serde(),
                (v.has_default(), v.default_value().map(ts)),
                v.default_value_raw().is_some(),
            )
        });
        self.kept::<FXSerde>("FXSerde", &src);
    }

    fn attributes(&mut self) {
        let (s, e) = self.attrs();
        self.check::<FXAttributes, _>("FXAttributes", &format!("attributes{s}"), e.clone(), |a| {
            let l: Vec<String> = a.list().iter().map(ts).collect();
            assert_eq!(ts(a), toks(&l.join(" ")));
            l
        });
        let l = self.literal().0;
        self.check::<FXAttributes, ()>("FXAttributes", &format!("attributes = {l}"), no("a list is required"), |_| ());
    }

    fn pub_mode(&mut self) {
        let (s, e) = self.public();
        self.check::<FXNestingAttr<FXPubMode>, _>("FXPubMode", &s, e, |v| ts(&**v));
    }

    fn conversions(&mut self) {
        let b = self.chance(50);
        let n = self.below(1000) as i32;
        let s: FXString = n.to_string().fx_into();
        self.fact("a string argument made of a string", s.value().cloned() == Some(n.to_string()) && s.is_true() && s.orig().is_none());
        let s: Option<FXString> = n.to_string().fx_into();
        self.fact("an optional string argument made of a string", s.as_ref().and_then(|s| s.value().cloned()) == Some(n.to_string()) && s.is_true());
        let v: FXValueArg<i32> = n.into();
        self.fact("a value argument made of a value", v.value() == Some(&n) && v.is_true());
        let v: FXValueArg<i32> = b.then_some(n).fx_into();
        self.fact("a value argument made of an option", v.value().copied() == b.then_some(n) && v.is_true());
        let h: FXBaseHelper = b.into();
        self.fact(&format!("a helper made of {b} is {}", h.is_true()), h.is_true() == b && bool::from(&h) == b && bool::from(h) == b);
        let none: Option<FXBool> = None;
        self.fact("an absent flag", !none.is_true() && none.not_true() && none.is_true_opt().is_none() && none.orig().is_none());
        let src = if b { "foo" } else { "foo(off)" };
        let f: Option<FXBool> = FXBool::from_meta(&syn::parse_str(src).unwrap()).ok();
        self.fact(&format!("a flag of {src}"), f.is_true() == b && f.not_true() != b && f.is_true_opt() == Some(b) && f.orig().is_some());
        self.fact("default visibility", matches!(FXPubMode::default(), FXPubMode::All) && ts(&FXPubMode::Private).is_empty() && FXPubMode::All.is_true());
        self.fact("default mode", FXSyncMode::default().is_plain() && !FXSyncMode::Sync.is_async() && !FXSyncMode::Async.is_plain());
        self.fact("default accessor mode", FXAccessorMode::default() == FXAccessorMode::None);
        self.t.seen(n as u64 * 2 + b as u64);
    }

    fn one(&mut self, k: usize) {
        match k {
            0 => match self.below(14) {
                0 => self.value::<i8>("FXValue<i8>", "int", i8::MAX as u128),
                1 => self.value::<i16>("FXValue<i16>", "int", i16::MAX as u128),
                2 => self.value::<i32>("FXValue<i32>", "int", i32::MAX as u128),
                3 => self.value::<i64>("FXValue<i64>", "int", i64::MAX as u128),
                4 => self.value::<u8>("FXValue<u8>", "int", u8::MAX as u128),
                5 => self.value::<u16>("FXValue<u16>", "int", u16::MAX as u128),
                6 => self.value::<u32>("FXValue<u32>", "int", u32::MAX as u128),
                7 => self.value::<u64>("FXValue<u64>", "int", u64::MAX as u128),
                8 => self.value::<f32>("FXValue<f32>", "float", 0),
                9 => self.value::<f64>("FXValue<f64>", "float", 0),
                10 => self.value::<String>("FXString", "str", 0),
                11 => self.value::<Vec<u8>>("FXValue<Vec<u8>>", "bytes", 0),
                12 => self.value::<char>("FXValue<char>", "char", 0),
                _ => self.value::<bool>("FXValue<bool>", "bool", 0),
            },
            1 => self.boolean(),
            2 => match self.below(5) {
                0 => self.syn_value::<syn::Path>("FXSynValue<Path>", 0),
                1 => self.syn_value::<syn::Expr>("FXSynValue<Expr>", 1),
                2 => self.syn_value::<syn::Ident>("FXSynValue<Ident>", 2),
                3 => self.syn_value::<syn::Type>("FXSynValue<Type>", 3),
                _ => self.syn_value::<syn::LitStr>("FXSynValue<LitStr>", 4),
            },
            3 => self.tuples(),
            4 => self.punctuated(),
            5 => self.sync_mode(),
            6 => self.fallible(),
            7 => self.default_arg(),
            8 => self.helper(),
            9 => self.accessor(),
            10 => self.setter(),
            11 => self.builder::<true>(),
            12 => self.builder::<false>(),
            13 => self.serde(),
            14 => self.attributes(),
            15 => self.pub_mode(),
            _ => self.conversions(),
        }
    }
}

trait ToVal {
    fn val(&self) -> String;
}
macro_rules! to_val { ($($t:ty),+) => { $( impl ToVal for $t { fn val(&self) -> String { self.to_string() } } )+ }; }
to_val!(i8, i16, i32, i64, u8, u16, u32, u64, f32, f64, String, char, bool);
impl ToVal for Vec<u8> {
    fn val(&self) -> String {
        format!("{self:?}")
    }
}

trait AsBool {
    fn as_ref_bool(&self) -> bool;
}
impl AsBool for FXHelper {
    fn as_ref_bool(&self) -> bool {
        let h: &FXBaseHelper = self;
        h.into()
    }
}

#[derive(Debug, PartialEq, Default, Clone)]
struct Hm {
    on:       bool,
    name:     Option<String>,
    vis:      Option<String>,
    attrs:    Option<Vec<String>>,
    attrs_fn: Option<Vec<String>>,
}
impl Hm {
    fn of(h: &impl FXHelperTrait) -> Self {
        Hm {
            on:       h.is_true(),
            name:     h.name().map(|s| s.to_string()),
            vis:      h.public_mode().map(|p| ts(&p)),
            attrs:    h.attributes().map(|a| a.list().iter().map(ts).collect()),
            attrs_fn: h.attributes_fn().map(|a| a.list().iter().map(ts).collect()),
        }
    }
}
#[derive(Debug, PartialEq)]
struct Bm {
    h:          Hm,
    into:       Option<bool>,
    required:   Option<bool>,
    opt_in:     bool,
    post:       Option<Option<String>>,
    error:      Vec<String>,
    attrs_impl: Option<Vec<String>>,
}

fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let a = Args::get();
    let (prop, verbose) = (a.str("prop", "U01"), a.has("verbose"));
    let mut t = Tally::new(a.u64("ms", 2000) as f64 / 1000.0);
    each(a, &mut t, 17, |k, s, t| {
        let mut g = G { r: Rng::new(s), t, prop: &prop, verbose };
        for _ in 0..20 {
            g.one(k);
        }
    });
    if t.counts.get("unparsable_sources").is_some() {
        t.add("stalled", 1);
    }
    t.finish()
}
