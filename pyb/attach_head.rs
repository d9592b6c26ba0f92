/// name -> entry point, used by the native replay build
pub type Entry = (&'static str, extern "C" fn(u64));

macro_rules! harness {
    ($table:ident; $($(#[$m:meta])* $name:ident => $body:path;)*) => {
        $( #[no_mangle] pub extern "C" fn $name(tier: u64) { $body(tier) } )*
        #[allow(dead_code)]
        pub const $table: &[crate::Entry] = &[ $( (stringify!($name), $name) ),* ];
    };
}

