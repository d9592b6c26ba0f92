#![allow(static_mut_refs)]
/// name -> entry point, used by the native replay build
pub type Entry = (&'static str, extern "C" fn(u64));

macro_rules! harness {
    ($table:ident; $($(#[$m:meta])* $name:ident => $body:path;)*) => {
        $( #[no_mangle] pub extern "C" fn $name(tier: u64) { $body(tier) } )*
        #[allow(dead_code)]
        pub const $table: &[$crate::Entry] = &[ $( (stringify!($name), $name) ),* ];
    };
}

mod vf;
mod env;
mod store;
#[cfg(feature = "model")]
mod kv;
#[cfg(feature = "native")]
mod native;
#[allow(dead_code)]
mod gen;
#[cfg(feature = "p01")]
mod p01;
#[cfg(feature = "p02")]
mod p02;
#[cfg(feature = "p03")]
mod p03;
#[cfg(feature = "p04")]
mod p04;
#[cfg(feature = "p05")]
mod p05;
#[cfg(feature = "p06")]
mod p06;
#[cfg(feature = "p07")]
mod p07;
#[cfg(feature = "p08")]
mod p08;
#[cfg(feature = "p09")]
mod p09;
#[cfg(feature = "p10")]
mod p10;
#[cfg(feature = "p11")]
mod p11;
#[cfg(feature = "p12")]
mod p12;
#[cfg(feature = "p13")]
mod p13;
#[cfg(feature = "p14")]
mod p14;
#[cfg(feature = "p15")]
mod p15;
#[cfg(feature = "p16")]
mod p16;
#[cfg(feature = "p17")]
mod p17;
#[cfg(feature = "p18")]
mod p18;
#[cfg(feature = "p19")]
mod p19;
#[cfg(feature = "p20")]
mod p20;
#[cfg(feature = "p21")]
mod p21;
#[cfg(feature = "p22")]
mod p22;
#[cfg(feature = "p23")]
mod p23;
#[cfg(feature = "p27")]
mod p27;

#[cfg(feature = "native")]
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let tables: &[&[Entry]] = &[
        #[cfg(feature = "p01")] p01::TABLE,
        #[cfg(feature = "p02")] p02::TABLE,
        #[cfg(feature = "p03")] p03::TABLE,
        #[cfg(feature = "p04")] p04::TABLE,
        #[cfg(feature = "p05")] p05::TABLE,
        #[cfg(feature = "p06")] p06::TABLE,
        #[cfg(feature = "p07")] p07::TABLE,
        #[cfg(feature = "p08")] p08::TABLE,
        #[cfg(feature = "p09")] p09::TABLE,
        #[cfg(feature = "p10")] p10::TABLE,
        #[cfg(feature = "p11")] p11::TABLE,
        #[cfg(feature = "p12")] p12::TABLE,
        #[cfg(feature = "p13")] p13::TABLE,
        #[cfg(feature = "p14")] p14::TABLE,
        #[cfg(feature = "p15")] p15::TABLE,
        #[cfg(feature = "p16")] p16::TABLE,
        #[cfg(feature = "p17")] p17::TABLE,
        #[cfg(feature = "p18")] p18::TABLE,
        #[cfg(feature = "p19")] p19::TABLE,
        #[cfg(feature = "p20")] p20::TABLE,
        #[cfg(feature = "p21")] p21::TABLE,
        #[cfg(feature = "p22")] p22::TABLE,
        #[cfg(feature = "p23")] p23::TABLE,
        #[cfg(feature = "p27")] p27::TABLE,
    ];
    let tier: u64 = a.get(3).map(|s| s.parse().unwrap()).unwrap_or(0);
    vf::load(&a[2]);
    for t in tables.iter() {
        for (n, f) in t.iter() {
            if *n == a[1] {
                f(tier);
                println!("VF-DONE");
                unsafe { libc::_exit(0) }
            }
        }
    }
    eprintln!("no such harness");
    std::process::exit(78);
}
#[cfg(feature = "model")]
fn main() {}
