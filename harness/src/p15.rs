//! P15: handles may be cloned, used and dropped in any order.
use crate::vf;
use crate::gen::*;
use polodb_core::bson::{doc, Document};
use polodb_core::{ClientCursor, Collection, CollectionT, Database, Error, Transaction, TransactionalCollection};

harness! { TABLE;
    h_p15_orders => orders; h_p15_uses => uses; h_p15_cursor => cursor; h_p15_midway => midway;
    h_p15_open => open_twice; h_p15_clones => clones; h_p15_two => two; h_p15_after => after; }

type Cur = ClientCursor<Document>;
const DROP: &str = "dropping handles in any order is no problem";
const OUTLIVES: &str = "a cursor outlives the other handles";
const ENDED: &str = "a cursor whose transaction has ended reports an error or the end";
const CLOSED: &str = "a handle of a closed database reports an error";
const LEFT: &str = "reopened, the database holds what was committed";
const ONCE: &str = "a path is open at most once";

struct H {
    db: [Option<Database>; 2],
    c: Option<Collection<Document>>,
    t: [Option<Transaction>; 2],
    tc: Option<TransactionalCollection<Document>>,
    /// outside of the transaction, and within it
    k: [Option<Cur>; 2],
    /// what the cursor outside has yet to return
    rest: Vec<i32>,
    /// ids committed, ids of the transaction
    docs: Vec<i32>,
    mine: Vec<i32>,
    ended: bool,
    seen: i32,
}
impl H {
    fn new(v: i32) -> H {
        let db = open();
        let c: Collection<Document> = db.collection("c");
        for i in 1..4 { c.insert_one(doc! {"_id": i, "v": v}).unwrap(); }
        let t = db.start_transaction().unwrap();
        let tc = t.collection::<Document>("c");
        tc.insert_one(doc! {"_id": 5, "v": v}).unwrap();
        let mut k = [c.find(doc! {}).run().unwrap(), tc.find(doc! {}).run().unwrap()];
        for k in k.iter_mut() { vf::check(k.next().unwrap().unwrap().get_i32("_id").unwrap() == 1, "a cursor starts at the first document"); }
        let [k0, k1] = k;
        H { db: [Some(db.clone()), Some(db)], c: Some(c), t: [Some(t.clone()), Some(t)], tc: Some(tc), k: [Some(k0), Some(k1)], rest: vec![2, 3], docs: vec![1, 2, 3], mine: vec![5], ended: false, seen: 1 }
    }
    fn is_open(&self) -> bool { self.db.iter().any(|d| d.is_some()) }
    /// whether anything keeps the store open
    fn holds(&self) -> bool { self.is_open() || self.t.iter().any(|d| d.is_some()) || self.tc.is_some() || self.k.iter().any(|d| d.is_some()) }
    fn drop(&mut self, what: usize) {
        match what {
            0 => std::mem::drop(self.db[0].take()),
            1 => std::mem::drop(self.db[1].take()),
            2 => std::mem::drop(self.c.take()),
            3 => std::mem::drop(self.t[0].take()),
            4 => std::mem::drop(self.t[1].take()),
            5 => std::mem::drop(self.tc.take()),
            6 => std::mem::drop(self.k[0].take()),
            _ => std::mem::drop(self.k[1].take()),
        }
    }
    fn advance(&mut self, which: usize) {
        if which == 0 {
            let k = match &mut self.k[0] { Some(k) => k, None => return };
            match k.next() {
                Some(Ok(d)) => { vf::check(!self.rest.is_empty() && d.get_i32("_id").unwrap() == self.rest.remove(0), OUTLIVES); vf::cover("next"); }
                Some(Err(_)) => vf::check(false, OUTLIVES),
                None => vf::check(self.rest.is_empty(), OUTLIVES),
            }
        } else {
            let k = match &mut self.k[1] { Some(k) => k, None => return };
            match k.next() {
                Some(Ok(d)) => {
                    let id = d.get_i32("_id").unwrap();
                    vf::check(!self.ended, ENDED);
                    vf::check(id > self.seen && (self.docs.contains(&id) || self.mine.contains(&id)), "a cursor goes through the documents its transaction sees");
                    self.seen = id;
                }
                Some(Err(_)) => { vf::check(self.ended, "a cursor works until its transaction ends"); vf::cover("error after the end"); }
                None => vf::check(self.ended || self.seen >= 5, "a cursor works until its transaction ends"),
            }
        }
    }
    fn end(&mut self, commit: bool) {
        let t = match &self.t[0] { Some(t) => t, None => return };
        let r = if commit { t.commit() } else { t.rollback() };
        if !self.ended {
            vf::check(r.is_ok(), "a transaction can be ended, whatever else was dropped");
            if commit { self.docs.append(&mut self.mine); self.docs.sort(); } else { self.mine.clear(); }
            self.ended = true;
        }
    }
    fn insert(&mut self) {
        let id = 10 + self.docs.len() as i32;
        let open = self.is_open();
        let c = match &self.c { Some(c) => c, None => return };
        let r = c.insert_one(doc! {"_id": id, "v": 0});
        vf::check(r.is_ok() == open, CLOSED);
        if open { self.docs.push(id); self.docs.sort(); vf::cover("inserted") } else { vf::cover("closed") }
    }
    fn insert_in(&mut self) {
        if self.ended { vf::assume(false) }
        let id = 50 + self.mine.len() as i32;
        let open = self.is_open();
        let c = match &self.tc { Some(c) => c, None => return };
        let r = c.insert_one(doc! {"_id": id, "v": 0});
        vf::check(r.is_ok() == open, CLOSED);
        if open { self.mine.push(id) }
    }
    fn finish(mut self, order: usize) {
        for i in 0..8 { self.drop(if order == 0 { i } else { 7 - i }); }
        vf::check(!self.holds(), DROP);
        reopened(&self.docs);
    }
}
fn reopened(want: &[i32]) {
    match Database::open_path(crate::store::dir(0)) {
        Ok(db) => {
            let c: Collection<Document> = db.collection("c");
            vf::check(ids(&all(&c)) == want, LEFT);
            // no lock is left either
            for i in want { vf::check(c.update_one(doc! {"_id": *i}, doc! {"$set": {"v": 77}}).unwrap().modified_count == 1, LEFT); }
            vf::check(c.insert_one(doc! {"_id": 99}).is_ok(), LEFT);
            vf::cover("reopened");
        }
        Err(_) => vf::check(false, "when all handles are dropped, the path can be opened again"),
    }
}

/// the handles are dropped in any order
fn orders(tier: u64) {
    let mut h = H::new(vf::any_i32("v"));
    // one of the handles of each pair
    h.drop(0);
    h.drop(3);
    match vf::pick(3, "ending") {
        0 => {}
        n => { h.t[0] = h.t[1].take(); h.end(n == 1); h.t[1] = h.t[0].take(); }
    }
    let mut left: Vec<usize> = if tier == 0 { vec![1, 4, 5, 6, 7] } else { vec![1, 2, 4, 5, 6, 7] };
    while !left.is_empty() {
        let i = left.remove(vf::pick(left.len(), "dropped"));
        h.drop(i);
        vf::check(Database::open_path(crate::store::dir(0)).is_err() == h.holds() || left.is_empty(), ONCE);
        if i != 6 && left.contains(&6) { h.advance(0) }
        if i != 7 && left.contains(&7) { h.advance(1) }
    }
    vf::cover("dropped");
    h.finish(0);
}
/// and used in between
fn uses(tier: u64) {
    let mut h = H::new(vf::any_i32("v"));
    for _ in 0..if tier == 0 { 3 } else { 4 } {
        match vf::pick(if tier == 0 { 9 } else { 13 }, "step") {
            0 => { h.drop(0); h.drop(1) }
            1 => h.insert(),
            2 => h.insert_in(),
            3 => h.end(true),
            4 => h.end(false),
            5 => h.advance(0),
            6 => h.advance(1),
            7 => { h.drop(3); h.drop(4) }
            8 => h.drop(5),
            9 => h.drop(6),
            10 => h.drop(7),
            11 => h.drop(2),
            _ => h.drop(0),
        }
    }
    let order = vf::pick(2, "order");
    h.finish(order);
}

/// every kind of cursor, used after its transaction or database
fn cursor(_tier: u64) {
    let q = vf::any_i32("q");
    let db = open();
    let c: Collection<Document> = db.collection("c");
    c.create_index(index("x", false)).unwrap();
    let docs: Vec<Document> = (1..5).map(|i| doc! {"_id": i, "x": if i < 4 { q } else { 1 }}).collect();
    let within = vf::pick(2, "within") == 1;
    let t = db.start_transaction().unwrap();
    let tc = t.collection::<Document>("c");
    if within { tc.insert_many(docs.clone()).unwrap(); } else { c.insert_many(docs.clone()).unwrap(); }
    let kind = vf::pick(7, "kind");
    fn make<C: CollectionT<Document>>(c: &C, kind: usize, q: i32) -> Result<Cur, Error> {
        match kind {
            0 => c.find(doc! {}).run(),
            1 => c.find(doc! {"x": q}).run(),
            2 => c.find(doc! {"_id": 2}).run(),
            3 => c.find(doc! {"_id": {"$gte": 1}}).run(),
            4 => c.find(doc! {}).sort(doc! {"_id": -1}).run(),
            5 => c.find(doc! {}).skip(1).limit(2).run(),
            _ => c.aggregate(vec![doc! {"$match": {"x": q}}, doc! {"$sort": {"_id": -1}}]).run(),
        }
    }
    // what it returns when it is left alone
    let want: Vec<i32> = ids(&crate::p17::collect(if within { make(&tc, kind, q) } else { make(&c, kind, q) }.unwrap()).unwrap());
    let mut k = if within { make(&tc, kind, q) } else { make(&c, kind, q) }.unwrap();
    let n = vf::pick(3, "before");
    let mut got = vec![];
    for _ in 0..n { if let Some(d) = k.next() { got.push(d.unwrap()); } }
    let event = vf::pick(4, "event");
    let ends = match event {
        0 => { t.commit().unwrap(); true }
        1 => { t.rollback().unwrap(); true }
        2 => { drop(t); drop(tc); false }
        _ => { drop(db); false }
    };
    let mut failed = false;
    let mut many = 0;
    while let Some(d) = k.next() {
        match d { Ok(d) => got.push(d), Err(_) => failed = true }
        many += 1;
        vf::check(many < 10, "a cursor comes to its end");
    }
    let got = ids(&got);
    vf::check(got.len() <= want.len() && got[..] == want[..got.len()], "a cursor returns what it would have returned alone");
    if within && ends {
        // sorted results are computed at the beginning
        vf::cover(if failed { "cut off" } else { "complete" });
        // and one that was not asked before starts where it is
        vf::check(failed || got == want || n == 0 && event == 1 && got.is_empty(), "a cursor does not end early without an error");
    } else {
        vf::check(!failed && got == want, OUTLIVES);
        vf::cover("unaffected");
    }
    drop(k);
}

/// a cursor dropped before its end leaves nothing behind
fn midway(_tier: u64) {
    let q = vf::any_i32("q");
    let db = open();
    let c: Collection<Document> = db.collection("c");
    c.create_index(index("x", true)).unwrap();
    for i in 1..4 { c.insert_one(doc! {"_id": i, "x": i}).unwrap(); }
    let n = vf::pick(5, "returned");
    {
        let mut k = match vf::pick(4, "kind") {
            0 => c.find(doc! {}).run(),
            1 => c.find(doc! {"x": q}).run(),
            2 => c.find(doc! {"_id": q}).run(),
            _ => c.aggregate(vec![doc! {"$sort": {"x": -1}}]).run(),
        }.unwrap();
        for _ in 0..n { let _ = k.next(); }
    }
    match vf::pick(5, "then") {
        0 => { vf::check(c.delete_many(doc! {}).unwrap().deleted_count == 3, DROP); }
        1 => { vf::check(c.update_many(doc! {}, doc! {"$inc": {"x": 10}}).unwrap().modified_count == 3, DROP); }
        2 => { c.drop_index("x_1").unwrap(); c.insert_one(doc! {"_id": 9, "x": 1}).unwrap(); }
        3 => { c.drop().unwrap(); vf::check(names(&db).is_empty(), DROP); }
        _ => {}
    }
    vf::cover("midway");
    drop(c);
    drop(db);
    vf::check(Database::open_path(crate::store::dir(0)).is_ok(), "when all handles are dropped, the path can be opened again");
}

/// a path is opened a second time
fn open_twice(_tier: u64) {
    let v = vf::any_i32("v");
    let db = open();
    let c: Collection<Document> = db.collection("c");
    c.insert_one(doc! {"_id": 1, "v": v}).unwrap();
    let t = db.start_transaction().unwrap();
    let tc = t.collection::<Document>("c");
    tc.insert_one(doc! {"_id": 2, "v": v}).unwrap();
    // in between, a few attempts
    for _ in 0..vf::pick(3, "attempts") {
        vf::check(Database::open_path(crate::store::dir(0)).is_err(), ONCE);
        vf::cover("refused");
    }
    // the first one is not affected
    vf::check(c.insert_one(doc! {"_id": 3, "v": v}).is_ok(), ONCE);
    vf::check(ids(&all(&c)) == [1, 3], ONCE);
    vf::check(ids(&crate::p17::collect(tc.find(doc! {}).run().unwrap()).unwrap()) == [1, 2, 3], ONCE);
    vf::check(t.commit().is_ok(), ONCE);
    drop(db);
    let still = Database::open_path(crate::store::dir(0));
    vf::check(still.is_err(), ONCE);
    drop(still);
    drop(tc);
    drop(t);
    reopened(&[1, 2, 3]);
}

/// clones are the same thing
fn clones(_tier: u64) {
    let v = vf::any_i32("v");
    let a = open();
    let b = a.clone();
    let ca: Collection<Document> = a.collection("c");
    let cb: Collection<Document> = b.collection("c");
    ca.insert_one(doc! {"_id": 1, "v": v}).unwrap();
    vf::check(ids(&all(&cb)) == [1], "a clone is the same database");
    let t = a.start_transaction().unwrap();
    let u = t.clone();
    let (tc, uc) = (t.collection::<Document>("c"), u.collection::<Document>("c"));
    tc.insert_one(doc! {"_id": 2, "v": v}).unwrap();
    vf::check(uc.count_documents().unwrap() == 2, "a clone is the same transaction");
    // the one which is dropped takes nothing with it
    drop(a);
    let tc = if vf::pick(2, "first") == 0 { Some(tc) } else { drop(tc); None };
    drop(t);
    uc.insert_one(doc! {"_id": 3, "v": v}).unwrap();
    vf::check(ids(&all(&ca)) == [1] && ids(&all(&cb)) == [1], "dropping one handle of a transaction ends nothing");
    let mut want = vec![1];
    match vf::pick(3, "ending") {
        0 => { vf::check(u.commit().is_ok(), "a clone is the same transaction"); want = vec![1, 2, 3]; }
        1 => vf::check(u.rollback().is_ok(), "a clone is the same transaction"),
        _ => {}
    }
    drop(u);
    drop(uc);
    drop(tc);
    vf::check(ids(&all(&ca)) == want && ids(&all(&cb)) == want, "a clone is the same database");
    drop(b);
    vf::check(find(&ca, doc! {}).is_err() && cb.insert_one(doc! {}).is_err(), CLOSED);
    vf::cover("clones");
    reopened(&want);
}

/// two transactions, one of them dropped or ended while the other goes on
fn two(_tier: u64) {
    let v = vf::any_i32("v");
    let db = open();
    let c: Collection<Document> = db.collection("c");
    c.insert_one(doc! {"_id": 1, "v": v}).unwrap();
    let (t, u) = (db.start_transaction().unwrap(), db.start_transaction().unwrap());
    let (tc, uc) = (t.collection::<Document>("c"), u.collection::<Document>("c"));
    tc.insert_one(doc! {"_id": 2, "v": v}).unwrap();
    uc.insert_one(doc! {"_id": 3, "v": v}).unwrap();
    let mut kt = tc.find(doc! {}).run().unwrap();
    let mut ku = uc.find(doc! {}).run().unwrap();
    kt.next().unwrap().unwrap();
    ku.next().unwrap().unwrap();
    let mut want = vec![1];
    match vf::pick(4, "first") {
        0 => { t.commit().unwrap(); want.push(2); }
        1 => { t.rollback().unwrap(); }
        2 => { drop(t); drop(tc); }
        _ => { drop(kt); drop(tc); drop(t); }
    }
    // the other one's cursor is not affected
    vf::check(matches!(ku.next(), Some(Ok(d)) if d.get_i32("_id").unwrap() == 3), "a cursor works until its own transaction ends");
    vf::check(ku.next().is_none(), "a cursor works until its own transaction ends");
    // the key is free again, or taken
    let took = uc.insert_one(doc! {"_id": 4, "v": v}).is_ok();
    vf::check(took, "a transaction goes on when another one has ended");
    match vf::pick(2, "second") {
        0 => { vf::check(u.commit().is_ok(), "a transaction goes on when another one has ended"); want.extend([3, 4]); }
        _ => drop(u),
    }
    vf::check(ids(&all(&c)) == want, LEFT);
    vf::cover("two");
}

/// everything that can be done with a handle of a closed database
fn after(_tier: u64) {
    let q = vf::any_i32("q");
    let db = open();
    let c: Collection<Document> = db.collection("c");
    c.insert_one(doc! {"_id": 1, "x": 1}).unwrap();
    let t = db.start_transaction().unwrap();
    let tc = t.collection::<Document>("c");
    tc.insert_one(doc! {"_id": 2, "x": 1}).unwrap();
    drop(db);
    fn calls<C: CollectionT<Document>>(c: &C, n: usize, q: i32) -> bool {
        match n {
            0 => c.insert_one(doc! {"_id": q}).is_ok(),
            1 => c.insert_many(vec![doc! {"_id": q}]).is_ok(),
            2 => c.find(doc! {"x": q}).run().is_ok(),
            3 => c.find_one(doc! {"_id": q}).is_ok(),
            4 => c.count_documents().is_ok(),
            5 => c.update_one(doc! {"x": q}, doc! {"$set": {"x": 1}}).is_ok(),
            6 => c.update_many(doc! {}, doc! {"$set": {"x": q}}).is_ok(),
            7 => c.delete_one(doc! {"x": q}).is_ok(),
            8 => c.delete_many(doc! {}).is_ok(),
            9 => c.create_index(index("x", false)).is_ok(),
            10 => c.drop_index("x_1").is_ok(),
            11 => c.drop().is_ok(),
            _ => c.aggregate(vec![doc! {"$match": {"x": q}}]).run().is_ok(),
        }
    }
    let n = vf::pick(13, "call");
    vf::check(!if vf::pick(2, "handle") == 0 { calls(&c, n, q) } else { calls(&tc, n, q) }, CLOSED);
    vf::cover("closed");
    let commit = vf::pick(2, "commit") == 0;
    if commit { vf::check(t.commit().is_ok(), "a transaction can be ended, whatever else was dropped"); }
    drop(t);
    drop(tc);
    reopened(if commit { &[1, 2] } else { &[1] });
}
