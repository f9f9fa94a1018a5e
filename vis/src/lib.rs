#![allow(unused, private_interfaces, private_bounds)]
pub mod probe {
    use std::marker::PhantomData;
    /// What names resolve to, as seen from various places
    #[derive(Default)]
    pub struct Out(pub Vec<Rec>);

    pub struct Rec {
        pub ty:       &'static str,
        pub loc:      &'static str,
        pub name:     &'static str,
        pub what:     &'static str,
        pub expected: bool,
        pub observed: &'static str,
    }

    impl Rec {
        pub fn present(&self) -> bool {
            !self.observed.contains("::fallback::")
        }
    }

    impl Out {
        pub fn names(&mut self, ty: &'static str, loc: &'static str, l: &[(&'static str, &'static str, i32, &'static str)]) {
            for &(name, what, e, observed) in l {
                self.0.push(Rec { ty, loc, name, what, expected: e != 0, observed });
            }
        }
    }

    pub fn nm<F>(_: &F) -> &'static str {
        std::any::type_name::<F>()
    }
    pub fn ty<T>() -> &'static str {
        std::any::type_name::<T>()
    }
    /// Is there a key in the serialized form?
    pub fn has_key<T: serde::Serialize>(v: &T, k: &str) -> bool {
        serde_json::to_value(v).unwrap().as_object().unwrap().contains_key(k)
    }
    pub fn tr(b: bool) -> &'static str {
        if b {
            "implemented"
        }
        else {
            "::fallback::"
        }
    }

    pub struct Has<T>(PhantomData<T>);
    impl<T: Clone> Has<T> {
        pub const CLONE: bool = true;
    }
    impl<T: Default> Has<T> {
        pub const DEFAULT: bool = true;
    }
    pub trait HasNo {
        const CLONE: bool = false;
        const DEFAULT: bool = false;
    }
    impl<T> HasNo for Has<T> {}
}
include!(concat!(env!("VERIF_GEN"), "/gvis.rs"));
