//! Declares harnesses: a generic body, its Kani proof and its replay entry.
#[macro_export]
macro_rules! harnesses {
    ($($name:ident),* $(,)?) => {
        #[cfg(kani)]
        mod proofs {
            $(
                #[kani::proof]
                fn $name() {
                    super::$name(&mut crate::source::KaniSource);
                    kani::cover!(true, "reached the end");
                }
            )*
        }
        pub fn replay(name: &str, s: &mut crate::source::ReplaySource) -> bool {
            match name {
                $(stringify!($name) => { $name(s); true })*
                _ => false,
            }
        }
    };
}
/// A situation that has to be reachable (vacuity check); no effect in replays.
#[macro_export]
macro_rules! witness {
    ($c:expr, $m:literal) => {{
        let _c: bool = $c;
        #[cfg(kani)]
        kani::cover!(_c, $m);
    }};
}
