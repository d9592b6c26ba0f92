//! Replay build: the storage calls made by the database go through these
//! functions, which ask `env::before` for injected events exactly like the
//! model in kv.rs and then call the real library.
#![allow(non_snake_case, clippy::missing_safety_doc)]
use crate::env::{self, Call};
use std::collections::HashMap;
use std::os::raw::{c_char, c_int, c_uchar, c_void};
use std::sync::Mutex;

unsafe fn real(name: &[u8]) -> *mut c_void {
    let p = libc::dlsym(libc::RTLD_NEXT, name.as_ptr() as *const c_char);
    if p.is_null() {
        println!("VF-DIVERGE no real {}", String::from_utf8_lossy(name));
        libc::_exit(77)
    }
    p
}
macro_rules! real {
    ($n:literal, $t:ty) => { std::mem::transmute::<*mut c_void, $t>(real(concat!($n, "\0").as_bytes())) };
}
unsafe fn inject(errp: *mut *mut c_char) { *errp = libc::strdup(b"IO error: injected\0".as_ptr() as *const c_char) }

type Put = unsafe extern "C" fn(*mut c_void, *const c_char, usize, *const c_char, usize, *mut *mut c_char);
type Del = unsafe extern "C" fn(*mut c_void, *const c_char, usize, *mut *mut c_char);
type Get = unsafe extern "C" fn(*mut c_void, *const c_void, *const c_char, usize, *mut usize, *mut *mut c_char) -> *mut c_char;
type GetU = unsafe extern "C" fn(*mut c_void, *const c_void, *const c_char, usize, *mut usize, c_uchar, *mut *mut c_char) -> *mut c_char;
type End = unsafe extern "C" fn(*mut c_void, *mut *mut c_char);
type It = unsafe extern "C" fn(*mut c_void);
type Seek = unsafe extern "C" fn(*mut c_void, *const c_char, usize);

#[no_mangle]
pub unsafe extern "C" fn rocksdb_transaction_put(t: *mut c_void, k: *const c_char, kl: usize, v: *const c_char, vl: usize, e: *mut *mut c_char) {
    if env::before(Call::Put) { return inject(e) }
    real!("rocksdb_transaction_put", Put)(t, k, kl, v, vl, e)
}
#[no_mangle]
pub unsafe extern "C" fn rocksdb_transaction_delete(t: *mut c_void, k: *const c_char, kl: usize, e: *mut *mut c_char) {
    if env::before(Call::Delete) { return inject(e) }
    real!("rocksdb_transaction_delete", Del)(t, k, kl, e)
}
#[no_mangle]
pub unsafe extern "C" fn rocksdb_transaction_get(t: *mut c_void, o: *const c_void, k: *const c_char, kl: usize, vl: *mut usize, e: *mut *mut c_char) -> *mut c_char {
    if env::before(Call::Get) { inject(e); return std::ptr::null_mut() }
    real!("rocksdb_transaction_get", Get)(t, o, k, kl, vl, e)
}
#[no_mangle]
pub unsafe extern "C" fn rocksdb_transaction_get_for_update(t: *mut c_void, o: *const c_void, k: *const c_char, kl: usize, vl: *mut usize, x: c_uchar, e: *mut *mut c_char) -> *mut c_char {
    if env::before(Call::Get) { inject(e); return std::ptr::null_mut() }
    real!("rocksdb_transaction_get_for_update", GetU)(t, o, k, kl, vl, x, e)
}
#[no_mangle]
pub unsafe extern "C" fn rocksdb_transaction_commit(t: *mut c_void, e: *mut *mut c_char) {
    if env::before(Call::Commit) { return inject(e) }
    let before = wal_size();
    real!("rocksdb_transaction_commit", End)(t, e);
    ended(t, e);
    let after = wal_size();
    if after > before { SYNC.lock().unwrap().sizes.push(after) }
    env::after(Call::Commit);
}
#[no_mangle]
pub unsafe extern "C" fn rocksdb_transaction_rollback(t: *mut c_void, e: *mut *mut c_char) {
    if env::before(Call::Rollback) { return inject(e) }
    real!("rocksdb_transaction_rollback", End)(t, e);
    ended(t, e);
}
// transaction -> its database and how often its changes were released;
// iterator -> its transaction and that number when it was positioned
static TXNS: Mutex<Vec<(usize, usize, u64)>> = Mutex::new(Vec::new());
static ITERS: Mutex<Vec<(usize, usize, Option<u64>)>> = Mutex::new(Vec::new());
unsafe fn ended(t: *mut c_void, e: *mut *mut c_char) {
    if !(*e).is_null() { return }
    for x in TXNS.lock().unwrap().iter_mut() { if x.0 == t as usize { x.2 += 1 } }
}
fn count(t: usize) -> Option<u64> { TXNS.lock().unwrap().iter().find(|x| x.0 == t).map(|x| x.2) }
fn used(i: *const c_void) {
    let it = ITERS.lock().unwrap().iter().find(|x| x.0 == i as usize).copied();
    if let Some((_, t, Some(at))) = it { crate::vf::check(count(t) == Some(at), env::RELEASED) }
}
#[no_mangle]
pub unsafe extern "C" fn rocksdb_transaction_begin(db: *mut c_void, w: *const c_void, o: *const c_void, old: *mut c_void) -> *mut c_void {
    let t = real!("rocksdb_transaction_begin", unsafe extern "C" fn(*mut c_void, *const c_void, *const c_void, *mut c_void) -> *mut c_void)(db, w, o, old);
    let mut g = TXNS.lock().unwrap();
    match g.iter_mut().find(|x| x.0 == t as usize) {
        Some(x) => x.2 += 1,
        None => g.push((t as usize, db as usize, 0)),
    }
    t
}
#[no_mangle]
pub unsafe extern "C" fn rocksdb_transaction_destroy(t: *mut c_void) {
    TXNS.lock().unwrap().retain(|x| x.0 != t as usize);
    real!("rocksdb_transaction_destroy", It)(t)
}
#[no_mangle]
pub unsafe extern "C" fn rocksdb_transactiondb_close(db: *mut c_void) {
    crate::vf::check(!TXNS.lock().unwrap().iter().any(|x| x.1 == db as usize), env::CLOSED);
    real!("rocksdb_transactiondb_close", It)(db)
}
#[no_mangle]
pub unsafe extern "C" fn rocksdb_transaction_create_iterator(t: *mut c_void, o: *const c_void) -> *mut c_void {
    let i = real!("rocksdb_transaction_create_iterator", unsafe extern "C" fn(*mut c_void, *const c_void) -> *mut c_void)(t, o);
    ITERS.lock().unwrap().push((i as usize, t as usize, None));
    i
}
#[no_mangle]
pub unsafe extern "C" fn rocksdb_iter_key(i: *const c_void, n: *mut usize) -> *const c_char {
    used(i);
    real!("rocksdb_iter_key", unsafe extern "C" fn(*const c_void, *mut usize) -> *const c_char)(i, n)
}
#[no_mangle]
pub unsafe extern "C" fn rocksdb_iter_value(i: *const c_void, n: *mut usize) -> *const c_char {
    used(i);
    real!("rocksdb_iter_value", unsafe extern "C" fn(*const c_void, *mut usize) -> *const c_char)(i, n)
}
// iterators whose last positioning call was made to fail
static FAILED: Mutex<Vec<usize>> = Mutex::new(Vec::new());
fn fails(i: *mut c_void, c: Call) -> bool {
    let bad = env::before(c);
    if c == Call::Next { used(i) }
    for x in ITERS.lock().unwrap().iter_mut() { if x.0 == i as usize { x.2 = count(x.1) } }
    let mut g = FAILED.lock().unwrap();
    g.retain(|x| *x != i as usize);
    if bad { g.push(i as usize) }
    bad
}
fn is_failed(i: *const c_void) -> bool { FAILED.lock().unwrap().contains(&(i as usize)) }
#[no_mangle]
pub unsafe extern "C" fn rocksdb_iter_seek(i: *mut c_void, k: *const c_char, kl: usize) {
    if !fails(i, Call::Seek) { real!("rocksdb_iter_seek", Seek)(i, k, kl) }
}
#[no_mangle]
pub unsafe extern "C" fn rocksdb_iter_seek_for_prev(i: *mut c_void, k: *const c_char, kl: usize) {
    if !fails(i, Call::Seek) { real!("rocksdb_iter_seek_for_prev", Seek)(i, k, kl) }
}
#[no_mangle]
pub unsafe extern "C" fn rocksdb_iter_seek_to_first(i: *mut c_void) { if !fails(i, Call::Seek) { real!("rocksdb_iter_seek_to_first", It)(i) } }
#[no_mangle]
pub unsafe extern "C" fn rocksdb_iter_seek_to_last(i: *mut c_void) { if !fails(i, Call::Seek) { real!("rocksdb_iter_seek_to_last", It)(i) } }
#[no_mangle]
pub unsafe extern "C" fn rocksdb_iter_next(i: *mut c_void) { if !fails(i, Call::Next) { real!("rocksdb_iter_next", It)(i) } }
#[no_mangle]
pub unsafe extern "C" fn rocksdb_iter_prev(i: *mut c_void) { if !fails(i, Call::Next) { real!("rocksdb_iter_prev", It)(i) } }
#[no_mangle]
pub unsafe extern "C" fn rocksdb_iter_valid(i: *const c_void) -> c_uchar {
    used(i);
    if is_failed(i) { 0 } else { real!("rocksdb_iter_valid", unsafe extern "C" fn(*const c_void) -> c_uchar)(i) }
}
#[no_mangle]
pub unsafe extern "C" fn rocksdb_iter_get_error(i: *const c_void, e: *mut *mut c_char) {
    if is_failed(i) { return inject(e) }
    real!("rocksdb_iter_get_error", unsafe extern "C" fn(*const c_void, *mut *mut c_char))(i, e)
}
#[no_mangle]
pub unsafe extern "C" fn rocksdb_iter_destroy(i: *mut c_void) {
    FAILED.lock().unwrap().retain(|x| *x != i as usize);
    ITERS.lock().unwrap().retain(|x| x.0 != i as usize);
    real!("rocksdb_iter_destroy", It)(i)
}

// ---- what a power loss would leave ---------------------------------------
struct Sync { synced: Option<HashMap<String, u64>>, sizes: Vec<u64> }
static SYNC: Mutex<Sync> = Mutex::new(Sync { synced: None, sizes: Vec::new() });

fn wal_files() -> Vec<String> {
    let mut v: Vec<String> = match std::fs::read_dir(crate::store::dir(0)) {
        Ok(d) => d.filter_map(|e| e.ok()).map(|e| e.file_name().to_string_lossy().to_string()).filter(|n| n.ends_with(".log")).collect(),
        Err(_) => vec![],
    };
    v.sort();
    v
}
fn size(name: &str) -> u64 { std::fs::metadata(format!("{}/{}", crate::store::dir(0), name)).map(|m| m.len()).unwrap_or(0) }
fn wal_size() -> u64 { wal_files().iter().map(|n| size(n)).sum() }
fn synced(fd: c_int) {
    let p = match std::fs::read_link(format!("/proc/self/fd/{}", fd)) { Ok(p) => p, Err(_) => return };
    let n = match p.file_name() { Some(n) => n.to_string_lossy().to_string(), None => return };
    if !n.ends_with(".log") { return }
    let len = std::fs::metadata(&p).map(|m| m.len()).unwrap_or(0);
    SYNC.lock().unwrap().synced.get_or_insert_with(HashMap::new).insert(n, len);
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int { synced(fd); real!("fsync", unsafe extern "C" fn(c_int) -> c_int)(fd) }
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int { synced(fd); real!("fdatasync", unsafe extern "C" fn(c_int) -> c_int)(fd) }

pub fn crash_image() {
    let (from, to) = (crate::store::dir(0), crate::store::dir(1));
    std::fs::create_dir_all(&to).unwrap();
    let (done, sizes) = {
        let g = SYNC.lock().unwrap();
        (g.synced.clone().unwrap_or_default(), g.sizes.clone())
    };
    let durable: u64 = wal_files().iter().map(|n| done.get(n).copied().unwrap_or(0)).sum();
    // committed batches whose log records were not synced
    let tail: Vec<u64> = sizes.iter().copied().filter(|s| *s > durable).collect();
    let keep = if tail.is_empty() { 0 } else { crate::vf::choose(tail.len() as u32 + 1, "unsynced") as usize };
    let mut left = if keep == 0 { durable } else { tail[keep - 1] };
    for e in std::fs::read_dir(&from).unwrap() {
        let e = e.unwrap();
        let n = e.file_name().to_string_lossy().to_string();
        if n == "LOCK" || e.metadata().unwrap().is_dir() || n.ends_with(".log") { continue }
        std::fs::copy(e.path(), format!("{}/{}", to, n)).unwrap();
    }
    for n in wal_files() {
        let b = std::fs::read(format!("{}/{}", from, n)).unwrap();
        let k = std::cmp::min(left, b.len() as u64);
        left -= k;
        std::fs::write(format!("{}/{}", to, n), &b[..k as usize]).unwrap();
    }
}
