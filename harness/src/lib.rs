#![allow(clippy::all)]
#[macro_use]
pub mod registry;
pub mod refm;
pub mod source;

macro_rules! modules {
    ($($m:ident),* $(,)?) => {
        $(pub mod $m;)*
        /// Runs the named harness (`module::name`) on recorded inputs.
        pub fn replay(name: &str, s: &mut source::ReplaySource) -> bool {
            let (m, h) = match name.split_once("::") {
                Some(x) => x,
                None => return false,
            };
            match m {
                $(stringify!($m) => $m::replay(h, s),)*
                _ => false,
            }
        }
    };
}
modules!(h_value, h_bundle, h_keys, h_zip32, h_merkle, h_codec, h_note, h_enc);

/// A stand-in for a key that the proof-system model never looks at.
pub fn fake<T>() -> &'static T {
    #[repr(align(16))]
    struct B([u8; 1 << 15]);
    static BUF: B = B([0; 1 << 15]);
    assert!(std::mem::size_of::<T>() <= 1 << 15);
    unsafe { &*(BUF.0.as_ptr() as *const T) }
}
