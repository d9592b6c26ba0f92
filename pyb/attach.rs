
// ---- attached by /verif/pyb/prepare.py ------------------------------------
#[path = "vh_vf.rs"]
mod vf;
#[path = "vh_env.rs"]
mod env;
#[path = "vh_store.rs"]
mod store;
#[cfg(feature = "model")]
#[path = "vh_kv.rs"]
mod kv;
#[cfg(feature = "model")]
mod vh_cpy;
#[cfg(feature = "native")]
#[path = "vh_native.rs"]
mod native;


#[cfg(feature = "native")]
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let tier: u64 = a.get(3).map(|s| s.parse().unwrap()).unwrap_or(0);
    vf::load(&a[2]);
    pyo3::Python::initialize();
    for (n, f) in py_database::vh_p26::TABLE.iter() {
        if *n == a[1] {
            f(tier);
            println!("VF-DONE");
            unsafe { libc::_exit(0) }
        }
    }
    eprintln!("no such harness");
    std::process::exit(78);
}
#[cfg(feature = "model")]
fn main() {}
