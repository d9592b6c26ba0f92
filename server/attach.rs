
// ---- attached by /verif/server/prepare.py --------------------------------
/// name -> entry point, used by the native replay build
pub type Entry = (&'static str, extern "C" fn(u64));

macro_rules! harness {
    ($table:ident; $($(#[$m:meta])* $name:ident => $body:path;)*) => {
        $( #[no_mangle] pub extern "C" fn $name(tier: u64) { $body(tier) } )*
        #[allow(dead_code)]
        pub const $table: &[crate::Entry] = &[ $( (stringify!($name), $name) ),* ];
    };
}

#[path = "vh_vf.rs"]
mod vf;
#[path = "vh_env.rs"]
mod env;
#[path = "vh_store.rs"]
mod store;
#[cfg(feature = "model")]
#[path = "vh_kv.rs"]
mod kv;
#[cfg(feature = "native")]
#[path = "vh_native.rs"]
mod native;
mod vh_p24;
#[cfg(feature = "p25")]
mod vh_p25;

#[cfg(feature = "native")]
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let tables: &[&[Entry]] = &[
        vh_p24::TABLE,
        #[cfg(feature = "p25")] vh_p25::TABLE,
    ];
    let tier: u64 = a.get(3).map(|s| s.parse().unwrap()).unwrap_or(0);
    vf::load(&a[2]);
    for t in tables.iter() {
        for (n, f) in t.iter() {
            if *n == a[1] {
                f(tier);
                println!("VF-DONE");
                unsafe { libc::_exit(0) }
            }
        }
    }
    eprintln!("no such harness");
    std::process::exit(78);
}
#[cfg(feature = "model")]
fn main() {}
