//! Environment events shared by the symbolic model of RocksDB (kv.rs) and the
//! native interposer (native.rs): every storage call made by the database asks
//! `before()` whether an injected event happens at this point.
#![allow(dead_code)]
use crate::vf;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Call { Put, Delete, Get, Commit, Rollback, Seek, Next, Begin }

/// what the storage library is not told to do: it would touch freed memory
pub const RELEASED: &str = "a cursor does not touch changes of a transaction which were released";
pub const CLOSED: &str = "the store is not closed while transactions exist";

pub struct Env {
    /// a single storage failure may be injected at any fallible call
    pub fault: bool,
    /// calls that may fail
    pub fault_on: &'static [Call],
    /// the one failure has been injected
    pub failed: bool,
    /// durable image may be taken before/after any call
    pub crash: bool,
    pub crashed: bool,
    /// calls before and after which the crash may fall
    pub crash_on: &'static [Call],
    /// operation of another client run at any one storage call
    pub nested: Option<fn()>,
    pub nested_on: &'static [Call],
    pub nested_ran: bool,
    pub in_nested: bool,
    /// plain counters (vacuity / durability checks)
    pub puts: u64,
    pub deletes: u64,
    pub commits: u64,
    pub gets: u64,
    pub iters: u64,
}

pub static mut ENV: Env = Env {
    fault: false,
    fault_on: &[Call::Put, Call::Delete, Call::Commit],
    failed: false,
    crash: false,
    crashed: false,
    crash_on: &[],
    nested: None,
    nested_on: &[Call::Put, Call::Delete, Call::Get, Call::Commit, Call::Seek, Call::Next],
    nested_ran: false,
    in_nested: false,
    puts: 0,
    deletes: 0,
    commits: 0,
    gets: 0,
    iters: 0,
};

pub fn env() -> &'static mut Env { unsafe { &mut *core::ptr::addr_of_mut!(ENV) } }

/// Returns true when the call must fail.
pub fn before(c: Call) -> bool {
    let e = env();
    match c {
        Call::Put => e.puts += 1,
        Call::Delete => e.deletes += 1,
        Call::Commit => e.commits += 1,
        Call::Get => e.gets += 1,
        _ => {}
    }
    if let Some(f) = e.nested {
        if !e.nested_ran && !e.in_nested && e.nested_on.contains(&c) && vf::choose(2, "preempt") == 1 {
            e.in_nested = true;
            e.nested_ran = true;
            f();
            env().in_nested = false;
        }
    }
    let e = env();
    if e.crash && !e.crashed && (e.crash_on.is_empty() || e.crash_on.contains(&c)) && vf::choose(2, "crash") == 1 {
        e.crashed = true;
        crate::store::crash_image();
    }
    let e = env();
    if e.fault && !e.failed && !e.in_nested && e.fault_on.contains(&c) && vf::choose(2, "fault") == 1 {
        e.failed = true;
        return true;
    }
    false
}

/// Point after a commit returned (crash points only).
pub fn after(c: Call) {
    let e = env();
    if e.crash && !e.crashed && (e.crash_on.is_empty() || e.crash_on.contains(&c)) && vf::choose(2, "crash") == 1 {
        e.crashed = true;
        crate::store::crash_image();
    }
}
