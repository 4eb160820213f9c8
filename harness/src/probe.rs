//! Which traits a type has, found out when this is compiled, without failing when one is missing.

macro_rules! probe {
    ($m:ident, $($bound:tt)+) => {
        pub mod $m {
            pub struct W<T: ?Sized>(pub core::marker::PhantomData<T>);
            #[allow(dead_code)]
            pub trait Fallback {
                fn has(&self) -> bool {
                    false
                }
            }
            impl<T: ?Sized> Fallback for &W<T> {}
            impl<T: ?Sized + $($bound)+> W<T> {
                pub fn has(&self) -> bool {
                    true
                }
            }
        }
    };
}
probe!(p_eq, Eq);
probe!(p_partial_eq, PartialEq);
probe!(p_ord, Ord);
probe!(p_partial_ord, PartialOrd);
probe!(p_hash, core::hash::Hash);
probe!(p_clone, Clone);
probe!(p_copy, Copy);
probe!(p_debug, core::fmt::Debug);
probe!(p_default, Default);
probe!(p_send, Send);
probe!(p_sync, Sync);
probe!(p_unpin, Unpin);

#[macro_export]
macro_rules! traits_of {
    ($out:expr, $($t:ty),+ $(,)?) => {$(
        #[allow(unused_imports)]
        {
            macro_rules! one {
                ($name:expr, $m:ident) => {{
                    use $crate::probe::$m::{Fallback, W};
                    $out(stringify!($t), $name, (&W::<$t>(core::marker::PhantomData)).has());
                }};
            }
            one!("Eq", p_eq);
            one!("PartialEq", p_partial_eq);
            one!("Ord", p_ord);
            one!("PartialOrd", p_partial_ord);
            one!("Hash", p_hash);
            one!("Clone", p_clone);
            one!("Copy", p_copy);
            one!("Debug", p_debug);
            one!("Default", p_default);
            one!("Send", p_send);
            one!("Sync", p_sync);
            one!("Unpin", p_unpin);
        }
    )+};
}
