//! P17: two clients whose operations overlap.  The second client's complete
//! operation runs at one storage call of the first client's operation, the call
//! being a free choice; the outcome must be that of one of the two orders.
use crate::vf;
use crate::gen::*;
use crate::env::env;
use polodb_core::bson::{doc, Document};
use polodb_core::{Collection, CollectionT, Database, Error};

harness! { TABLE;
    h_p17_docs => docs; h_p17_indexed => indexed; h_p17_unique => unique;
    h_p17_ddl => ddl; h_p17_create => create; h_p17_transfer => transfer; h_p17_cursor => cursor;
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Idx { No, Plain, Unique }
#[derive(Clone, PartialEq)]
pub struct St { pub exists: bool, pub idx: Idx, pub docs: Vec<(i32, i32, i32)> }

#[derive(Clone, Copy, PartialEq)]
pub enum A {
    /// insert _id with x
    Ins(i32, i32),
    /// $inc x of one document
    Inc(i32, i32),
    IncAll(i32),
    /// $set y of the documents with x
    Mark(i32, i32),
    /// $set x of one document
    Set(i32, i32),
    Del(i32),
    DelBy(i32),
    DelAll,
    Index(bool),
    DropIndex,
    Drop,
    Create,
    Find(i32),
    All,
    Count,
    /// an explicit transaction: x of the first down, x of the second up
    Move(i32),
}
#[derive(Clone, PartialEq)]
pub enum R { N(u64, u64), Docs(Vec<(i32, i32, i32)>), Unit }

impl St {
    fn taken(&self, id: i32, x: i32) -> bool { self.idx == Idx::Unique && self.docs.iter().any(|d| d.0 != id && d.1 == x) }
    pub fn step(&mut self, a: A) -> Option<R> {
        let s0 = self.clone();
        let r = self.step0(a);
        if r.is_none() { *self = s0 }
        r
    }
    fn step0(&mut self, a: A) -> Option<R> {
        match a {
            A::Ins(i, x) => {
                if self.docs.iter().any(|d| d.0 == i) || self.taken(i, x) { return None }
                self.exists = true;
                self.docs.push((i, x, 0));
                self.docs.sort_by_key(|d| d.0);
                Some(R::Unit)
            }
            A::Inc(i, by) => {
                let mut n = 0;
                for k in 0..self.docs.len() {
                    let d = self.docs[k];
                    if d.0 == i { let v = d.1.wrapping_add(by); if self.taken(i, v) { return None } self.docs[k].1 = v; n += 1 }
                }
                Some(R::N(n, n))
            }
            A::IncAll(by) => { for d in self.docs.iter_mut() { d.1 = d.1.wrapping_add(by) } let n = self.docs.len() as u64; Some(R::N(n, n)) }
            A::Mark(x, y) => {
                let mut n = 0;
                for d in self.docs.iter_mut() { if d.1 == x { d.2 = y; n += 1 } }
                Some(R::N(n, n))
            }
            A::Set(i, x) => {
                let mut n = 0;
                for k in 0..self.docs.len() { if self.docs[k].0 == i { if self.taken(i, x) { return None } self.docs[k].1 = x; n += 1 } }
                Some(R::N(n, n))
            }
            A::Del(i) => { let n = self.docs.len(); self.docs.retain(|d| d.0 != i); Some(R::N((n - self.docs.len()) as u64, 0)) }
            A::DelBy(x) => { let n = self.docs.len(); self.docs.retain(|d| d.1 != x); Some(R::N((n - self.docs.len()) as u64, 0)) }
            A::DelAll => { let n = self.docs.len(); self.docs.clear(); Some(R::N(n as u64, 0)) }
            A::Index(u) => {
                let k = if u { Idx::Unique } else { Idx::Plain };
                if self.idx != Idx::No && self.idx != k { return None }
                if u && (0..self.docs.len()).any(|i| (0..i).any(|j| self.docs[i].1 == self.docs[j].1)) { return None }
                self.exists = true;
                self.idx = k;
                Some(R::Unit)
            }
            A::DropIndex => { self.idx = Idx::No; Some(R::Unit) }
            A::Drop => { self.exists = false; self.idx = Idx::No; self.docs.clear(); Some(R::Unit) }
            A::Create => { if self.exists { return None } self.exists = true; Some(R::Unit) }
            A::Find(x) => Some(R::Docs(self.docs.iter().filter(|d| d.1 == x).cloned().collect())),
            A::All => Some(R::Docs(self.docs.clone())),
            A::Count => Some(R::N(self.docs.len() as u64, 0)),
            A::Move(by) => {
                for k in 0..self.docs.len() {
                    if self.docs[k].0 == 1 { self.docs[k].1 = self.docs[k].1.wrapping_sub(by) }
                    if self.docs[k].0 == 2 { self.docs[k].1 = self.docs[k].1.wrapping_add(by) }
                }
                Some(R::Unit)
            }
        }
    }
}
fn row(d: &Document) -> (i32, i32, i32) { (d.get_i32("_id").unwrap(), d.get_i32("x").unwrap(), d.get_i32("y").unwrap_or(0)) }
pub fn rows(v: Vec<Document>) -> Vec<(i32, i32, i32)> { let mut r: Vec<_> = v.iter().map(row).collect(); r.sort_by_key(|d| d.0); r }

pub fn run(db: &Database, a: A) -> Result<R, Error> {
    match a {
        A::Create => { db.create_collection("c")?; Ok(R::Unit) }
        A::Move(by) => {
            let t = db.start_transaction()?;
            let tc = t.collection::<Document>("c");
            tc.update_one(doc! {"_id": 1}, doc! {"$inc": {"x": -by}})?;
            tc.update_one(doc! {"_id": 2}, doc! {"$inc": {"x": by}})?;
            t.commit()?;
            Ok(R::Unit)
        }
        _ => run_on(&db.collection::<Document>("c"), a),
    }
}
/// the operations of one collection, inside or outside of a transaction
pub fn run_on<C: CollectionT<Document>>(c: &C, a: A) -> Result<R, Error> {
    Ok(match a {
        A::Ins(i, x) => { c.insert_one(doc! {"_id": i, "x": x})?; R::Unit }
        A::Inc(i, by) => { let r = c.update_one(doc! {"_id": i}, doc! {"$inc": {"x": by}})?; R::N(r.matched_count, r.modified_count) }
        A::IncAll(by) => { let r = c.update_many(doc! {}, doc! {"$inc": {"x": by}})?; R::N(r.matched_count, r.modified_count) }
        A::Mark(x, y) => { let r = c.update_many(doc! {"x": x}, doc! {"$set": {"y": y}})?; R::N(r.matched_count, r.modified_count) }
        A::Set(i, x) => { let r = c.update_one(doc! {"_id": i}, doc! {"$set": {"x": x}})?; R::N(r.matched_count, r.modified_count) }
        A::Del(i) => R::N(c.delete_one(doc! {"_id": i})?.deleted_count, 0),
        A::DelBy(x) => R::N(c.delete_many(doc! {"x": x})?.deleted_count, 0),
        A::DelAll => R::N(c.delete_many(doc! {})?.deleted_count, 0),
        A::Index(u) => { c.create_index(index("x", u))?; R::Unit }
        A::DropIndex => { c.drop_index("x_1")?; R::Unit }
        A::Drop => { c.drop()?; R::Unit }
        A::Find(x) => R::Docs(rows(collect(c.find(doc! {"x": x}).run()?)?)),
        A::All => R::Docs(rows(collect(c.find(doc! {}).run()?)?)),
        A::Count => R::N(c.count_documents()?, 0),
        _ => unreachable!(),
    })
}
pub fn collect(cur: polodb_core::ClientCursor<Document>) -> Result<Vec<Document>, Error> {
    let mut v = vec![];
    for d in cur { v.push(d?) }
    Ok(v)
}

static mut DB: Option<Database> = None;
static mut INNER: A = A::All;
static mut DONE: Option<Result<R, ()>> = None;
fn dbr() -> &'static Database { unsafe { (*core::ptr::addr_of!(DB)).as_ref().unwrap() } }
fn inner() { unsafe { DONE = Some(run(dbr(), INNER).map_err(|_| ())) } }

/// runs `a` with `b` at one of its storage calls and judges the outcome
fn overlap(st: &St, a: A, b: A, values: &[i32]) {
    let e = env();
    e.nested = Some(inner);
    unsafe { INNER = b; }
    let ra = run(dbr(), a).ok();
    env().nested = None;
    let rb = match unsafe { (*core::ptr::addr_of_mut!(DONE)).take() } { None => { vf::cover("no overlap"); return } Some(r) => r.ok() };
    // final state, by scan and through the index
    let c: Collection<Document> = dbr().collection("c");
    let scan = rows(collect(c.find(doc! {}).run().unwrap()).unwrap());
    let exists = names(dbr()).len() == 1;
    match (&ra, &rb) {
        (Some(_), Some(_)) => vf::cover("both succeed"),
        (None, None) => vf::cover("both fail"),
        _ => vf::cover("one fails"),
    }
    let mut ok = false;
    let mut idx = Idx::No;
    for order in 0..2 {
        let mut s = st.clone();
        let mut fits = true;
        for k in 0..2 {
            let (op, r) = if (k == 0) == (order == 0) { (a, &ra) } else { (b, &rb) };
            if let Some(r) = r {
                match s.step(op) { Some(m) => if vf::decide(m != *r) { fits = false }, None => fits = false }
            }
        }
        if fits && s.exists == exists && vf::decide(s.docs == scan) { ok = true; idx = s.idx; break }
    }
    vf::check(ok, "overlapping operations have the outcome of one order, or one of them fails without effect");
    for v in values {
        let want: Vec<_> = scan.iter().filter(|d| d.1 == *v).cloned().collect();
        vf::check(rows(find(&c, doc! {"x": *v}).unwrap()) == want, "afterwards the index agrees with the documents");
    }
    if idx != Idx::No {
        vf::check(c.create_index(index("x", idx == Idx::Unique)).is_ok(), "afterwards the index is the one that was made");
    }
    if idx == Idx::Unique {
        vf::check((0..scan.len()).all(|i| (0..i).all(|j| scan[i].1 != scan[j].1)), "no two documents share a unique value");
    }
    // nothing is left behind that makes later writes fail
    vf::check(c.insert_one(doc! {"_id": 77, "x": 123456}).is_ok() || values.contains(&123456) || scan.iter().any(|d| d.1 == 123456), "later operations work");
}
fn setup(st: &St) {
    unsafe { DB = Some(open()); DONE = None; }
    let c: Collection<Document> = dbr().collection("c");
    if st.exists { dbr().create_collection("c").unwrap(); }
    if st.idx != Idx::No { c.create_index(index("x", st.idx == Idx::Unique)).unwrap(); }
    for (i, x, _) in &st.docs { c.insert_one(doc! {"_id": *i, "x": *x}).unwrap(); }
}
/// the first `quick` operations are paired in the quick tier, all in the thorough one
fn two(ops: &[A], quick: usize, tier: u64, st: St, values: &[i32]) {
    let ops = if tier == 0 { &ops[..quick] } else { ops };
    let a = ops[vf::pick(ops.len(), "outer")];
    let b = ops[vf::pick(ops.len(), "inner")];
    setup(&st);
    overlap(&st, a, b, values);
}

fn docs(tier: u64) {
    let (a, q) = (vf::any_i32("a"), vf::any_i32("q"));
    vf::assume(a < 1 << 30 && a > -(1 << 30) && q < 1 << 30 && q > -(1 << 30));
    let st = St { exists: true, idx: Idx::No, docs: vec![(1, a, 0), (2, 7, 0)] };
    two(&[A::Inc(1, 3), A::IncAll(1), A::Mark(q, 1), A::Set(1, q), A::Del(1), A::DelBy(q), A::Ins(3, q), A::All, A::Count, A::Inc(1, 5), A::DelAll, A::Ins(1, q), A::Find(q)], 9, tier, st, &[a, q]);
}
fn indexed(tier: u64) {
    let (a, q) = (vf::any_i32("a"), vf::any_i32("q"));
    vf::assume(a < 1 << 30 && a > -(1 << 30) && q < 1 << 30 && q > -(1 << 30));
    let st = St { exists: true, idx: Idx::Plain, docs: vec![(1, a, 0), (2, a, 0), (3, 7, 0)] };
    two(&[A::Mark(q, 1), A::Set(1, q), A::Del(1), A::Find(q), A::Move(2), A::Inc(1, 3), A::DelBy(q), A::Ins(4, q)], 4, tier, st, &[a, q]);
}
fn unique(tier: u64) {
    let (a, q) = (vf::any_i32("a"), vf::any_i32("q"));
    vf::assume(a < 1 << 30 && a > -(1 << 30) && a != 7 && q < 1 << 30 && q > -(1 << 30));
    let st = St { exists: true, idx: Idx::Unique, docs: vec![(1, a, 0), (2, 7, 0)] };
    two(&[A::Ins(3, q), A::Ins(4, q), A::Set(1, q), A::Set(2, q), A::Del(1), A::Ins(5, a), A::Set(2, a), A::Inc(1, 1), A::Find(q)], 5, tier, st, &[a, q]);
}
fn ddl(tier: u64) {
    let (a, q) = (vf::any_i32("a"), vf::any_i32("q"));
    vf::assume(a < 1 << 30 && a > -(1 << 30) && a != 7 && q < 1 << 30 && q > -(1 << 30));
    let idx = [Idx::No, Idx::Plain][vf::pick(2, "index")];
    let st = St { exists: true, idx, docs: vec![(1, a, 0), (2, 7, 0)] };
    const D: [u8; 4] = [0, 1, 2, 3];
    let d = match D[vf::pick(4, "ddl")] { 0 => A::Index(false), 1 => A::Index(true), 2 => A::DropIndex, _ => A::Drop };
    let o = [A::Ins(3, q), A::Set(1, q), A::Del(1), A::DelAll, A::Find(q), A::Mark(a, 1), A::Index(false), A::Drop][vf::pick(8, "other")];
    setup(&st);
    if vf::pick(2, "outer") == 0 { overlap(&st, d, o, &[a, q]) } else { overlap(&st, o, d, &[a, q]) }
    let _ = tier;
}
/// operations on a collection that does not exist yet
fn create(tier: u64) {
    let q = vf::any_i32("q");
    let st = St { exists: false, idx: Idx::No, docs: vec![] };
    two(&[A::Ins(1, q), A::Ins(2, 5), A::Create, A::Index(true), A::Drop, A::All, A::Set(1, 9)], 7, tier, st, &[q, 5]);
}
/// the sum over two documents is kept by transfers and never seen halfway
fn transfer(tier: u64) {
    let (a, q) = (vf::any_i32("a"), vf::any_i32("q"));
    vf::assume(a < 1 << 30 && a > -(1 << 30) && q < 1 << 20 && q > -(1 << 20));
    let idx = [Idx::No, Idx::Plain][vf::pick(2, "index")];
    let st = St { exists: true, idx, docs: vec![(1, a, 0), (2, 7, 0)] };
    two(&[A::Move(q), A::All, A::Inc(2, 3), A::Move(1), A::Inc(1, 3), A::IncAll(1), A::Del(2)], 3, tier, st, &[a, 7]);
}
/// a cursor that is read step by step while others write
fn cursor(_tier: u64) {
    let (a, q) = (vf::any_i32("a"), vf::any_i32("q"));
    let idx = [Idx::No, Idx::Plain][vf::pick(2, "index")];
    let st = St { exists: true, idx, docs: vec![(1, a, 0), (2, a, 0), (3, q, 0), (4, a, 0)] };
    setup(&st);
    let c: Collection<Document> = dbr().collection("c");
    let by = vf::pick(2, "filter") == 1;
    let want: Vec<_> = st.docs.iter().filter(|d| !by || d.1 == a).cloned().collect();
    let mut cur = c.find(if by { doc! {"x": a} } else { doc! {} }).run().unwrap();
    let when = vf::pick(4, "when");
    let what = [A::Del(1), A::Del(2), A::Del(4), A::DelAll, A::Set(2, 99), A::Set(4, 99), A::IncAll(1), A::Ins(5, a), A::Drop, A::DropIndex][vf::pick(10, "what")];
    if a > i32::MAX - 1 || q > i32::MAX - 1 { return }
    let mut got = vec![];
    let mut n = 0;
    loop {
        if n == when { vf::check(run(dbr(), what).is_ok(), "a cursor does not keep others from writing"); }
        n += 1;
        if !cur.advance().unwrap() { break }
        got.push(row(&cur.deserialize_current().unwrap()));
    }
    vf::cover("cursor");
    vf::check(got == want, "a cursor delivers the matching documents of the moment it was opened, each once");
}
