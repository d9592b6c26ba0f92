//! Harness API.  In the symbolic build the `vf_*` functions are provided by the
//! executor; in the native build they read recorded values from a file.
#![allow(dead_code)]

#[cfg(feature = "model")]
mod imp {
    extern "C" {
        fn vf_sym(bits: u32, name: *const u8, len: usize) -> u64;
        fn vf_choose(n: u32, name: *const u8, len: usize) -> u32;
        fn vf_assume(c: bool);
        fn vf_assert(c: bool, msg: *const u8, len: usize);
        fn vf_cover(name: *const u8, len: usize);
        fn vf_print(name: *const u8, len: usize);
        fn vf_concretize(v: u64) -> u64;
        fn vf_decide(c: bool) -> bool;
    }
    pub fn sym(bits: u32, name: &str) -> u64 { unsafe { vf_sym(bits, name.as_ptr(), name.len()) } }
    pub fn choose(n: u32, name: &str) -> u32 { unsafe { vf_choose(n, name.as_ptr(), name.len()) } }
    pub fn assume(c: bool) { unsafe { vf_assume(c) } }
    pub fn check(c: bool, msg: &str) { unsafe { vf_assert(c, msg.as_ptr(), msg.len()) } }
    pub fn cover(n: &str) { unsafe { vf_cover(n.as_ptr(), n.len()) } }
    pub fn note(n: &str) { unsafe { vf_print(n.as_ptr(), n.len()) } }
    pub fn concretize(v: u64) -> u64 { unsafe { vf_concretize(v) } }
    pub fn decide(c: bool) -> bool { unsafe { vf_decide(c) } }
}

#[cfg(feature = "native")]
mod imp {
    use std::sync::Mutex;
    static VALS: Mutex<(Vec<u64>, usize)> = Mutex::new((Vec::new(), 0));
    pub fn load(path: &str) {
        let s = std::fs::read_to_string(path).expect("inputs file");
        let v = s.split_whitespace().map(|x| x.parse::<u64>().expect("input value")).collect();
        *VALS.lock().unwrap() = (v, 0);
    }
    fn take(name: &str) -> u64 {
        let mut g = VALS.lock().unwrap();
        let i = g.1;
        if i >= g.0.len() {
            println!("VF-DIVERGE no input left for {}", name);
            std::process::exit(77);
        }
        g.1 += 1;
        g.0[i]
    }
    pub fn sym(bits: u32, name: &str) -> u64 {
        let v = take(name);
        if bits < 64 { v & ((1u64 << bits) - 1) } else { v }
    }
    pub fn choose(n: u32, name: &str) -> u32 {
        let v = take(name);
        if v >= n as u64 {
            println!("VF-DIVERGE choice {} of {} at {}", v, n, name);
            std::process::exit(77);
        }
        v as u32
    }
    pub fn assume(c: bool) {
        if !c {
            println!("VF-DIVERGE assumption");
            std::process::exit(77);
        }
    }
    pub fn check(c: bool, msg: &str) {
        if !c {
            println!("VF-FAIL {}", msg);
            // destructors of a half-done scenario are not run
            unsafe { libc::_exit(101) }
        }
    }
    pub fn cover(n: &str) { println!("VF-COVER {}", n); }
    pub fn note(n: &str) { println!("VF-NOTE {}", n); }
    pub fn concretize(v: u64) -> u64 { v }
    pub fn decide(c: bool) -> bool { c }
}

pub use imp::*;

pub fn any_u8(n: &str) -> u8 { sym(8, n) as u8 }
pub fn any_u16(n: &str) -> u16 { sym(16, n) as u16 }
pub fn any_u32(n: &str) -> u32 { sym(32, n) as u32 }
pub fn any_i32(n: &str) -> i32 { sym(32, n) as i32 }
pub fn any_i64(n: &str) -> i64 { sym(64, n) as i64 }
pub fn any_u64(n: &str) -> u64 { sym(64, n) }
pub fn any_f64(n: &str) -> f64 { f64::from_bits(sym(64, n)) }
pub fn any_bool(n: &str) -> bool { sym(1, n) != 0 }
/// an index below `n`, one path per value
pub fn pick(n: usize, name: &str) -> usize { choose(n as u32, name) as usize }
/// integer in lo..=hi, symbolic
pub fn int_in(lo: i64, hi: i64, n: &str) -> i64 {
    let v = any_i64(n);
    assume(lo <= v && v <= hi);
    v
}
/// ASCII string of exactly `len` bytes, every byte symbolic in lo..=hi
pub fn ascii(len: usize, lo: u8, hi: u8, n: &str) -> String {
    let mut v = Vec::with_capacity(len);
    for _ in 0..len {
        let b = any_u8(n);
        assume(lo <= b && b <= hi && b < 0x80);
        v.push(b);
    }
    // every byte is below 0x80
    unsafe { String::from_utf8_unchecked(v) }
}
