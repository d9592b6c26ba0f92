//! Symbolic build: RocksDB's C API replaced by an ordered map with the
//! semantics PoloDB relies on (pessimistic transactions with key locks,
//! write batch overlay, merged iterators over a base snapshot plus the live
//! batch, atomic commit, a synced and an unsynced durable prefix).
#![allow(non_snake_case, clippy::missing_safety_doc)]
use crate::env::{self, Call};
use crate::vf;
use std::cmp::Ordering;
use std::ffi::CStr;
use std::os::raw::{c_char, c_int, c_uchar, c_void};
use std::rc::Rc;

type Bytes = Rc<[u8]>;
type Base = Vec<(Bytes, Bytes)>;
type Delta = Vec<(Bytes, Option<Bytes>)>;

/// One committed write batch.
#[derive(Clone)]
struct Batch { ops: Delta, sync: bool }

pub struct Store {
    path: String,
    open: bool,
    base: Rc<Base>,
    /// batches since the store was opened; everything before is durable
    log: Vec<Batch>,
    durable_base: Rc<Base>,
    /// per key: owner, exclusive
    locks: Vec<(Bytes, Vec<(usize, bool)>)>,
    next_txn: usize,
    /// transactions which exist
    txns: usize,
}

struct Db { store: usize }
struct Txn {
    store: usize,
    id: usize,
    delta: Delta,
    save: Vec<Delta>,
    committed: bool,
    sync: bool,
    /// state and number of commits when the snapshot was taken
    snap: Option<(Rc<Base>, usize)>,
    /// how often its changes were released
    ended: u64,
}
struct WOpt { sync: bool }
struct TOpt { set_snapshot: bool }
struct ROpt { snap: Option<Rc<Base>> }
/// `at`: the transaction's `ended` when the iterator was positioned
struct Iter { txn: *mut Txn, base: Rc<Base>, cur: Option<(Bytes, Bytes)>, failed: bool, at: Option<u64> }

static mut STORES: Vec<Box<Store>> = Vec::new();
fn stores() -> &'static mut Vec<Box<Store>> { unsafe { &mut *core::ptr::addr_of_mut!(STORES) } }

fn err_set(errp: *mut *mut c_char, msg: &str) {
    let mut v = msg.as_bytes().to_vec();
    v.push(0);
    let p = Box::leak(v.into_boxed_slice()).as_mut_ptr();
    unsafe { *errp = p as *mut c_char }
}
unsafe fn sl<'a>(p: *const c_char, n: usize) -> &'a [u8] {
    if n == 0 { &[] } else { std::slice::from_raw_parts(p as *const u8, n) }
}
/// index of the first entry with key >= k, and whether it is equal
fn lower<V>(v: &[(Bytes, V)], k: &[u8]) -> (usize, bool) {
    let (mut a, mut b) = (0, v.len());
    while a < b {
        let m = (a + b) / 2;
        match v[m].0.as_ref().cmp(k) {
            Ordering::Less => a = m + 1,
            Ordering::Equal => return (m, true),
            Ordering::Greater => b = m,
        }
    }
    (a, false)
}
/// index of the first entry with key > k
fn upper<V>(v: &[(Bytes, V)], k: &[u8]) -> usize {
    let (i, eq) = lower(v, k);
    if eq { i + 1 } else { i }
}
fn delta_put(d: &mut Delta, k: &[u8], val: Option<Bytes>) {
    let (i, eq) = lower(d, k);
    if eq { d[i].1 = val } else { d.insert(i, (Rc::from(k), val)) }
}
fn apply(base: &mut Base, d: &Delta) {
    for (k, v) in d.iter() {
        let (i, eq) = lower(base, k);
        match v {
            Some(v) => if eq { base[i].1 = v.clone() } else { base.insert(i, (k.clone(), v.clone())) },
            None => if eq { base.remove(i); },
        }
    }
}

// ---- used by harnesses -------------------------------------------------
/// What an independent observer of the files would find after a crash now.
pub fn crash_image() {
    let s = stores().iter().find(|s| s.open && s.path == crate::store::dir(0)).map(|s| {
        // everything up to the last synced batch survives; a later unsynced
        // tail survives up to a point of the environment's choice
        let mut lastsync = 0;
        for (i, b) in s.log.iter().enumerate() { if b.sync { lastsync = i + 1 } }
        let tail = s.log.len() - lastsync;
        let keep = lastsync + if tail > 0 { vf::choose(tail as u32 + 1, "unsynced") as usize } else { 0 };
        let mut b: Base = (*s.durable_base).clone();
        for x in s.log[..keep].iter() { apply(&mut b, &x.ops) }
        b
    });
    if let Some(b) = s {
        let b = Rc::new(b);
        stores().push(Box::new(Store { path: crate::store::dir(1), open: false, base: b.clone(), log: vec![], durable_base: b, locks: vec![], next_txn: 1, txns: 0 }));
    }
}
/// Raw committed contents of store `n`.
pub fn dump(n: usize) -> Vec<(Vec<u8>, Vec<u8>)> {
    let p = crate::store::dir(n);
    for s in stores().iter() {
        if s.path == p { return s.base.iter().map(|(k, v)| (k.to_vec(), v.to_vec())).collect() }
    }
    vec![]
}

// ---- options -----------------------------------------------------------
#[no_mangle] pub extern "C" fn rocksdb_transactiondb_options_create() -> *mut c_void { Box::into_raw(Box::new(0u64)) as *mut c_void }
#[no_mangle] pub extern "C" fn rocksdb_transactiondb_options_destroy(p: *mut c_void) { unsafe { drop(Box::from_raw(p as *mut u64)) } }
#[no_mangle] pub extern "C" fn rocksdb_transactiondb_options_set_transaction_lock_timeout(_p: *mut c_void, _v: i64) {}
#[no_mangle] pub extern "C" fn rocksdb_transactiondb_options_set_default_lock_timeout(_p: *mut c_void, _v: i64) {}
/// options word: bit 0 create_if_missing, bit 1 error_if_exists
#[no_mangle] pub extern "C" fn rocksdb_options_create() -> *mut c_void { Box::into_raw(Box::new(0u64)) as *mut c_void }
#[no_mangle] pub extern "C" fn rocksdb_options_destroy(p: *mut c_void) { unsafe { drop(Box::from_raw(p as *mut u64)) } }
#[no_mangle] pub extern "C" fn rocksdb_options_set_create_if_missing(p: *mut c_void, v: c_uchar) { unsafe { let o = &mut *(p as *mut u64); if v != 0 { *o |= 1 } else { *o &= !1 } } }
#[no_mangle] pub extern "C" fn rocksdb_options_set_error_if_exists(p: *mut c_void, v: c_uchar) { unsafe { let o = &mut *(p as *mut u64); if v != 0 { *o |= 2 } else { *o &= !2 } } }
#[no_mangle] pub extern "C" fn rocksdb_readoptions_create() -> *mut c_void { Box::into_raw(Box::new(ROpt { snap: None })) as *mut c_void }
#[no_mangle] pub extern "C" fn rocksdb_readoptions_destroy(p: *mut c_void) { unsafe { drop(Box::from_raw(p as *mut ROpt)) } }
#[no_mangle] pub extern "C" fn rocksdb_readoptions_set_snapshot(p: *mut c_void, s: *const c_void) {
    unsafe { (*(p as *mut ROpt)).snap = if s.is_null() { None } else { Some((*(s as *const Rc<Base>)).clone()) } }
}
#[no_mangle] pub extern "C" fn rocksdb_transaction_get_snapshot(t: *mut c_void) -> *const c_void {
    match unsafe { &(*(t as *const Txn)).snap } {
        Some((b, _)) => Box::into_raw(Box::new(b.clone())) as *const c_void,
        None => std::ptr::null(),
    }
}
#[no_mangle] pub extern "C" fn rocksdb_transaction_options_set_set_snapshot(p: *mut c_void, v: c_uchar) { unsafe { (*(p as *mut TOpt)).set_snapshot = v != 0 } }
#[no_mangle] pub extern "C" fn rocksdb_writeoptions_create() -> *mut c_void { Box::into_raw(Box::new(WOpt { sync: false })) as *mut c_void }
#[no_mangle] pub extern "C" fn rocksdb_writeoptions_destroy(p: *mut c_void) { unsafe { drop(Box::from_raw(p as *mut WOpt)) } }
#[no_mangle] pub extern "C" fn rocksdb_writeoptions_set_sync(p: *mut c_void, v: c_uchar) { unsafe { (*(p as *mut WOpt)).sync = v != 0 } }
#[no_mangle] pub extern "C" fn rocksdb_transaction_options_create() -> *mut c_void { Box::into_raw(Box::new(TOpt { set_snapshot: false })) as *mut c_void }
#[no_mangle] pub extern "C" fn rocksdb_transaction_options_destroy(p: *mut c_void) { unsafe { drop(Box::from_raw(p as *mut TOpt)) } }
#[no_mangle] pub extern "C" fn rocksdb_transaction_options_set_lock_timeout(_p: *mut c_void, _v: i64) {}
#[no_mangle] pub extern "C" fn rocksdb_wait_for_compact_options_create() -> *mut c_void { Box::into_raw(Box::new(0u64)) as *mut c_void }
#[no_mangle] pub extern "C" fn rocksdb_wait_for_compact_options_destroy(p: *mut c_void) { unsafe { drop(Box::from_raw(p as *mut u64)) } }
#[no_mangle] pub extern "C" fn rocksdb_wait_for_compact_options_set_flush(_p: *mut c_void, _v: c_uchar) {}
#[no_mangle] pub extern "C" fn rocksdb_wait_for_compact(_db: *mut c_void, _o: *mut c_void, _e: *mut *mut c_char) {}
#[no_mangle] pub extern "C" fn rocksdb_free(_p: *mut c_void) {}

// ---- database ----------------------------------------------------------
#[no_mangle]
pub extern "C" fn rocksdb_transactiondb_open(o: *const c_void, _t: *const c_void, name: *const c_char, errp: *mut *mut c_char) -> *mut c_void {
    let path = unsafe { CStr::from_ptr(name) }.to_str().unwrap().to_string();
    let opt = unsafe { *(o as *const u64) };
    for (i, s) in stores().iter_mut().enumerate() {
        if s.path == path {
            if s.open {
                err_set(errp, "IO error: lock hold by current process");
                return std::ptr::null_mut();
            }
            if opt & 2 != 0 {
                err_set(errp, "Invalid argument: exists (error_if_exists is true)");
                return std::ptr::null_mut();
            }
            s.open = true;
            return Box::into_raw(Box::new(Db { store: i })) as *mut c_void;
        }
    }
    if opt & 1 == 0 {
        err_set(errp, "Invalid argument: does not exist (create_if_missing is false)");
        return std::ptr::null_mut();
    }
    let e: Rc<Base> = Rc::new(vec![]);
    stores().push(Box::new(Store { path, open: true, base: e.clone(), log: vec![], durable_base: e, locks: vec![], next_txn: 1, txns: 0 }));
    Box::into_raw(Box::new(Db { store: stores().len() - 1 })) as *mut c_void
}
#[no_mangle]
pub extern "C" fn rocksdb_transactiondb_flush_wal(db: *mut c_void, sync: c_uchar, _e: *mut *mut c_char) {
    let d = unsafe { &*(db as *const Db) };
    if sync != 0 { for b in stores()[d.store].log.iter_mut() { b.sync = true } }
}
#[no_mangle]
pub extern "C" fn rocksdb_transactiondb_close(db: *mut c_void) {
    let d = unsafe { Box::from_raw(db as *mut Db) };
    let s = &mut stores()[d.store];
    vf::check(s.txns == 0, env::CLOSED);
    s.open = false;
    s.durable_base = s.base.clone();
    s.log.clear();
    s.locks.clear();
}

// ---- transactions ------------------------------------------------------
unsafe fn begin(db: *mut c_void, w: *const c_void, t: *const c_void) -> Txn {
    let d = &*(db as *const Db);
    let s = &mut stores()[d.store];
    let id = s.next_txn;
    s.next_txn += 1;
    let snap = if !t.is_null() && (*(t as *const TOpt)).set_snapshot { Some((s.base.clone(), s.log.len())) } else { None };
    Txn { store: d.store, id, delta: vec![], save: vec![], committed: false, sync: (*(w as *const WOpt)).sync, snap, ended: 0 }
}
#[no_mangle]
pub extern "C" fn rocksdb_transaction_begin(db: *mut c_void, w: *const c_void, t: *const c_void, old: *mut c_void) -> *mut c_void {
    unsafe {
        let n = begin(db, w, t);
        if old.is_null() {
            stores()[n.store].txns += 1;
            Box::into_raw(Box::new(n)) as *mut c_void
        } else {
            release(&*(old as *const Txn));
            let ended = (*(old as *const Txn)).ended + 1;
            *(old as *mut Txn) = Txn { ended, ..n };
            old
        }
    }
}
fn release(t: &Txn) {
    let id = t.id;
    stores()[t.store].locks.retain_mut(|l| {
        l.1.retain(|o| o.0 != id);
        !l.1.is_empty()
    });
}
#[no_mangle]
pub extern "C" fn rocksdb_transaction_destroy(t: *mut c_void) {
    let t = unsafe { Box::from_raw(t as *mut Txn) };
    release(&t);
    stores()[t.store].txns -= 1;
}
fn lock(t: &Txn, k: &[u8], exclusive: bool, errp: *mut *mut c_char) -> bool {
    let s = &mut stores()[t.store];
    let (i, eq) = lower(&s.locks, k);
    if eq {
        if s.locks[i].1.iter().any(|(id, ex)| *id != t.id && (exclusive || *ex)) {
            err_set(errp, "Operation timed out: Timeout waiting to lock key");
            return false;
        }
        for (id, ex) in s.locks[i].1.iter_mut() {
            if *id == t.id {
                *ex = *ex || exclusive;
                return true;
            }
        }
    }
    // the key must be unchanged since the snapshot of the transaction
    if let Some((_, since)) = &t.snap {
        for b in s.log[*since..].iter() {
            if lower(&b.ops, k).1 {
                err_set(errp, "Resource busy: ");
                return false;
            }
        }
    }
    if eq { s.locks[i].1.push((t.id, exclusive)) } else { s.locks.insert(i, (Rc::from(k), vec![(t.id, exclusive)])) }
    true
}
#[no_mangle]
pub extern "C" fn rocksdb_transaction_put(t: *mut c_void, k: *const c_char, kl: usize, v: *const c_char, vl: usize, errp: *mut *mut c_char) {
    if env::before(Call::Put) { return err_set(errp, "IO error: injected") }
    unsafe {
        let t = &mut *(t as *mut Txn);
        let key = sl(k, kl);
        if !lock(t, key, true, errp) { return }
        delta_put(&mut t.delta, key, Some(Rc::from(sl(v, vl))));
    }
}
#[no_mangle]
pub extern "C" fn rocksdb_transaction_delete(t: *mut c_void, k: *const c_char, kl: usize, errp: *mut *mut c_char) {
    if env::before(Call::Delete) { return err_set(errp, "IO error: injected") }
    unsafe {
        let t = &mut *(t as *mut Txn);
        let key = sl(k, kl);
        if !lock(t, key, true, errp) { return }
        delta_put(&mut t.delta, key, None);
    }
}
/// the committed state a read with these options sees
unsafe fn view(t: &Txn, o: *const c_void) -> Rc<Base> {
    match &(*(o as *const ROpt)).snap { Some(b) => b.clone(), None => stores()[t.store].base.clone() }
}
unsafe fn get(t: *mut c_void, o: *const c_void, k: *const c_char, kl: usize, vl: *mut usize) -> *mut c_char {
    let t = &*(t as *const Txn);
    let key = sl(k, kl);
    let (i, eq) = lower(&t.delta, key);
    let found: Option<Bytes> = if eq { t.delta[i].1.clone() } else {
        let b = view(t, o);
        let (i, eq) = lower(&b, key);
        if eq { Some(b[i].1.clone()) } else { None }
    };
    match found {
        None => { *vl = 0; std::ptr::null_mut() }
        Some(v) => {
            *vl = v.len();
            let mut c = v.to_vec();
            c.push(0);
            Box::leak(c.into_boxed_slice()).as_mut_ptr() as *mut c_char
        }
    }
}
#[no_mangle]
pub extern "C" fn rocksdb_transaction_get(t: *mut c_void, o: *const c_void, k: *const c_char, kl: usize, vl: *mut usize, errp: *mut *mut c_char) -> *mut c_char {
    if env::before(Call::Get) { err_set(errp, "IO error: injected"); return std::ptr::null_mut() }
    unsafe { get(t, o, k, kl, vl) }
}
#[no_mangle]
pub extern "C" fn rocksdb_transaction_get_for_update(t: *mut c_void, o: *const c_void, k: *const c_char, kl: usize, vl: *mut usize, ex: c_uchar, errp: *mut *mut c_char) -> *mut c_char {
    if env::before(Call::Get) { err_set(errp, "IO error: injected"); return std::ptr::null_mut() }
    unsafe {
        if !lock(&*(t as *const Txn), sl(k, kl), ex != 0, errp) { return std::ptr::null_mut() }
        get(t, o, k, kl, vl)
    }
}
#[no_mangle]
pub extern "C" fn rocksdb_transaction_commit(t: *mut c_void, errp: *mut *mut c_char) {
    if env::before(Call::Commit) { return err_set(errp, "IO error: injected") }
    unsafe {
        let t = &mut *(t as *mut Txn);
        if t.committed { return err_set(errp, "Invalid argument: Transaction has already been committed.") }
        let d = std::mem::take(&mut t.delta);
        t.save.clear();
        t.committed = true;
        t.ended += 1;
        let s = &mut stores()[t.store];
        apply(Rc::make_mut(&mut s.base), &d);
        if !d.is_empty() { s.log.push(Batch { ops: d, sync: t.sync }); }
        release(t);
    }
    env::after(Call::Commit);
}
#[no_mangle]
pub extern "C" fn rocksdb_transaction_rollback(t: *mut c_void, errp: *mut *mut c_char) {
    if env::before(Call::Rollback) { return err_set(errp, "IO error: injected") }
    unsafe {
        let t = &mut *(t as *mut Txn);
        if t.committed { return err_set(errp, "Invalid argument: This transaction has already been committed.") }
        t.delta.clear();
        t.save.clear();
        t.ended += 1;
        release(t);
    }
}
#[no_mangle]
pub extern "C" fn rocksdb_transaction_set_savepoint(t: *mut c_void) {
    let t = unsafe { &mut *(t as *mut Txn) };
    t.save.push(t.delta.clone());
}
#[no_mangle]
pub extern "C" fn rocksdb_transaction_rollback_to_savepoint(t: *mut c_void, errp: *mut *mut c_char) {
    let t = unsafe { &mut *(t as *mut Txn) };
    match t.save.pop() {
        Some(d) => t.delta = d,
        None => err_set(errp, "NotFound: "),
    }
}

// ---- iterators ---------------------------------------------------------
#[no_mangle]
pub extern "C" fn rocksdb_transaction_create_iterator(t: *mut c_void, o: *const c_void) -> *mut c_void {
    env::env().iters += 1;
    let txn = unsafe { &*(t as *const Txn) };
    let base = unsafe { view(txn, o) };
    Box::into_raw(Box::new(Iter { txn: t as *mut Txn, base, cur: None, failed: false, at: None })) as *mut c_void
}
#[no_mangle] pub extern "C" fn rocksdb_iter_destroy(i: *mut c_void) { unsafe { drop(Box::from_raw(i as *mut Iter)) } }
/// A positioned iterator refers to the changes of its transaction, which are
/// released when it is committed or rolled back.
fn used(i: *const c_void) {
    let it = unsafe { &*(i as *const Iter) };
    if let Some(at) = it.at { vf::check(at == unsafe { (*it.txn).ended }, env::RELEASED); }
}
#[no_mangle] pub extern "C" fn rocksdb_iter_valid(i: *const c_void) -> c_uchar { used(i); unsafe { (*(i as *const Iter)).cur.is_some() as c_uchar } }
/// a positioning call that fails leaves an invalid iterator with an error
fn fails(i: *mut c_void, c: Call) -> bool {
    let bad = env::before(c);
    if c == Call::Next { used(i) }
    let it = unsafe { &mut *(i as *mut Iter) };
    it.at = Some(unsafe { (*it.txn).ended });
    it.failed = bad;
    if bad { it.cur = None }
    bad
}
/// first live entry at or after the two positions
fn settle(it: &mut Iter, mut b: usize, mut d: usize) {
    let delta = unsafe { &(*it.txn).delta };
    loop {
        let nb = it.base.get(b);
        let nd = delta.get(d);
        match (nb, nd) {
            (None, None) => { it.cur = None; return }
            (Some(x), None) => { it.cur = Some((x.0.clone(), x.1.clone())); return }
            (None, Some(y)) => match &y.1 {
                Some(v) => { it.cur = Some((y.0.clone(), v.clone())); return }
                None => d += 1,
            },
            (Some(x), Some(y)) => match x.0.as_ref().cmp(y.0.as_ref()) {
                Ordering::Less => { it.cur = Some((x.0.clone(), x.1.clone())); return }
                Ordering::Equal => match &y.1 {
                    Some(v) => { it.cur = Some((y.0.clone(), v.clone())); return }
                    None => { b += 1; d += 1 }
                },
                Ordering::Greater => match &y.1 {
                    Some(v) => { it.cur = Some((y.0.clone(), v.clone())); return }
                    None => d += 1,
                },
            },
        }
    }
}
/// last live entry before the two positions
fn settle_back(it: &mut Iter, mut b: usize, mut d: usize) {
    let delta = unsafe { &(*it.txn).delta };
    loop {
        let nb = if b > 0 { it.base.get(b - 1) } else { None };
        let nd = if d > 0 { delta.get(d - 1) } else { None };
        match (nb, nd) {
            (None, None) => { it.cur = None; return }
            (Some(x), None) => { it.cur = Some((x.0.clone(), x.1.clone())); return }
            (None, Some(y)) => match &y.1 {
                Some(v) => { it.cur = Some((y.0.clone(), v.clone())); return }
                None => d -= 1,
            },
            (Some(x), Some(y)) => match x.0.as_ref().cmp(y.0.as_ref()) {
                Ordering::Greater => { it.cur = Some((x.0.clone(), x.1.clone())); return }
                Ordering::Equal => match &y.1 {
                    Some(v) => { it.cur = Some((y.0.clone(), v.clone())); return }
                    None => { b -= 1; d -= 1 }
                },
                Ordering::Less => match &y.1 {
                    Some(v) => { it.cur = Some((y.0.clone(), v.clone())); return }
                    None => d -= 1,
                },
            },
        }
    }
}
#[no_mangle]
pub extern "C" fn rocksdb_iter_seek(i: *mut c_void, k: *const c_char, kl: usize) {
    if fails(i, Call::Seek) { return }
    unsafe {
        let it = &mut *(i as *mut Iter);
        let key = sl(k, kl);
        let b = lower(&it.base, key).0;
        let d = lower(&(*it.txn).delta, key).0;
        settle(it, b, d);
    }
}
#[no_mangle]
pub extern "C" fn rocksdb_iter_seek_for_prev(i: *mut c_void, k: *const c_char, kl: usize) {
    if fails(i, Call::Seek) { return }
    unsafe {
        let it = &mut *(i as *mut Iter);
        let key = sl(k, kl);
        let b = upper(&it.base, key);
        let d = upper(&(*it.txn).delta, key);
        settle_back(it, b, d);
    }
}
#[no_mangle] pub extern "C" fn rocksdb_iter_seek_to_first(i: *mut c_void) {
    if fails(i, Call::Seek) { return }
    unsafe { settle(&mut *(i as *mut Iter), 0, 0) }
}
#[no_mangle] pub extern "C" fn rocksdb_iter_seek_to_last(i: *mut c_void) {
    if fails(i, Call::Seek) { return }
    unsafe {
        let it = &mut *(i as *mut Iter);
        let (b, d) = (it.base.len(), (*it.txn).delta.len());
        settle_back(it, b, d)
    }
}
#[no_mangle]
pub extern "C" fn rocksdb_iter_next(i: *mut c_void) {
    if fails(i, Call::Next) { return }
    unsafe {
        let it = &mut *(i as *mut Iter);
        if let Some((k, _)) = it.cur.clone() {
            let b = upper(&it.base, &k);
            let d = upper(&(*it.txn).delta, &k);
            settle(it, b, d);
        }
    }
}
#[no_mangle]
pub extern "C" fn rocksdb_iter_prev(i: *mut c_void) {
    if fails(i, Call::Next) { return }
    unsafe {
        let it = &mut *(i as *mut Iter);
        if let Some((k, _)) = it.cur.clone() {
            let b = lower(&it.base, &k).0;
            let d = lower(&(*it.txn).delta, &k).0;
            settle_back(it, b, d);
        }
    }
}
#[no_mangle]
pub extern "C" fn rocksdb_iter_key(i: *const c_void, n: *mut usize) -> *const c_char {
    used(i);
    unsafe { let it = &*(i as *const Iter); let (k, _) = it.cur.as_ref().expect("iterator not valid"); *n = k.len(); k.as_ptr() as *const c_char }
}
#[no_mangle]
pub extern "C" fn rocksdb_iter_value(i: *const c_void, n: *mut usize) -> *const c_char {
    used(i);
    unsafe { let it = &*(i as *const Iter); let (_, v) = it.cur.as_ref().expect("iterator not valid"); *n = v.len(); v.as_ptr() as *const c_char }
}
#[no_mangle] pub extern "C" fn rocksdb_iter_get_error(i: *const c_void, e: *mut *mut c_char) {
    if unsafe { (*(i as *const Iter)).failed } { err_set(e, "IO error: injected") }
}
#[allow(dead_code)]
fn _unused(_: c_int) {}
