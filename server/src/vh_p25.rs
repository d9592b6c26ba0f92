//! P25: server commands, their effects and their answers.
use crate::app_context::AppContext;
use crate::vf;
use crate::vh_p24::block;
use crate::wire::Message;
use bson::{doc, Bson, Document};
use polodb_core::{CollectionT, Database};

harness! { TABLE;
    h_p25_insert => insert;
    h_p25_find => find;
    h_p25_update => update;
    h_p25_delete => delete;
    h_p25_several => several;
    h_p25_aggregate => aggregate;
    h_p25_cursor => cursor;
    h_p25_cursors => cursors;
    h_p25_limits => limits;
    h_p25_session => session;
    h_p25_sessions => sessions;
    h_p25_refused => refused;
    h_p25_large => large;
    h_p25_changes => changes;
    h_p25_stream => stream;
}

struct Client { ctx: AppContext, n: i32, base: i32 }

fn client() -> Client {
    let db = match Database::open_path(&crate::store::dir(0)) { Ok(d) => d, Err(_) => { vf::check(false, "opens"); loop {} } };
    let ctx = AppContext::new(db);
    ctx.register_handlers(crate::handlers::make_handlers());
    Client { ctx, n: 0, base: vf::any_i32("request") }
}

impl Client {
    /// the answer to a command, or nothing if the connection ends
    fn send(&mut self, cmd: Document, seq: Option<(&str, Vec<Document>)>) -> Document {
        self.n += 1;
        let request = self.base.wrapping_add(self.n);
        let mut b = vec![0, 0, 0, 0];
        b.extend_from_slice(&request.to_le_bytes());
        b.extend_from_slice(&[0, 0, 0, 0, 0xdd, 7, 0, 0, 0, 0, 0, 0, 0]);
        b.extend_from_slice(&bytes(&cmd));
        if let Some((name, docs)) = seq {
            b.push(1);
            let at = b.len();
            b.extend_from_slice(&[0, 0, 0, 0]);
            b.extend_from_slice(name.as_bytes());
            b.push(0);
            for d in &docs { b.extend_from_slice(&bytes(d)) }
            let n = (b.len() - at) as i32;
            b[at..at + 4].copy_from_slice(&n.to_le_bytes());
        }
        let l = b.len() as i32;
        b[..4].copy_from_slice(&l.to_le_bytes());
        let mut r: &[u8] = &b;
        let m = match block(Message::read_from(&mut r, Some(16 * 1024 * 1024))) {
            Ok(m) => m,
            Err(_) => { vf::check(false, "the command is read"); loop {} }
        };
        let mut out: Vec<u8> = vec![];
        vf::check(block(crate::handle_message(self.ctx.clone(), 7, &mut out, m)).is_ok(), "a command is answered");
        vf::check(out.len() > 21 && out[..4] == (out.len() as i32).to_le_bytes(), "one answer of the announced length");
        vf::check(out[8..12] == request.to_le_bytes(), "the answer names the request");
        match bson::from_slice(&out[21..]) {
            Ok(d) => d,
            Err(_) => { vf::check(false, "the answer is a document"); loop {} }
        }
    }
    /// the documents of the collection, by the embedded interface
    fn stored(&self, c: &str) -> Vec<Document> {
        let r = self.ctx.db().collection::<Document>(c).find(doc! {}).run().and_then(|c| c.collect::<Result<Vec<_>, _>>());
        match r { Ok(v) => v, Err(_) => { vf::check(false, "the collection is read"); loop {} } }
    }
    fn put(&self, docs: &[Document]) {
        if docs.is_empty() { return }
        vf::check(self.ctx.db().collection::<Document>("c").insert_many(docs).is_ok(), "inserted");
    }
}

fn bytes(d: &Document) -> Vec<u8> {
    match bson::to_vec(d) { Ok(b) => b, Err(_) => { vf::check(false, "encodes"); loop {} } }
}
fn same(a: &Document, b: &Document) -> bool {
    if a.len() != b.len() { return false }
    let mut r = true;
    for ((k, v), (l, w)) in a.iter().zip(b.iter()) {
        if k != l { return false }
        r &= match (v, w) {
            (Bson::Int32(x), Bson::Int32(y)) => x == y,
            (Bson::Int64(x), Bson::Int64(y)) => x == y,
            (Bson::Document(x), Bson::Document(y)) => same(x, y),
            (x, y) => x == y,
        };
    }
    r
}
fn all_same(a: &[Document], b: &[Document]) -> bool {
    if a.len() != b.len() { return false }
    let mut r = true;
    for (x, y) in a.iter().zip(b) { r &= same(x, y) }
    r
}
fn batch(r: &Document, name: &str) -> (i64, Vec<Document>) {
    let c = match r.get_document("cursor") { Ok(c) => c, Err(_) => { vf::check(false, "the answer has a cursor"); loop {} } };
    let id = match c.get_i64("id") { Ok(i) => i, Err(_) => match c.get_i32("id") { Ok(i) => i as i64, Err(_) => { vf::check(false, "the cursor has an id"); loop {} } } };
    vf::check(c.get_str("ns").ok() == Some("d.c"), "the cursor names its collection");
    let mut v = vec![];
    match c.get_array(name) {
        Ok(a) => for x in a { if let Bson::Document(d) = x { v.push(d.clone()) } else { vf::check(false, "batches hold documents") } },
        Err(_) => vf::check(false, "the cursor has its batch"),
    }
    (id, v)
}
fn ok(r: &Document) -> bool {
    match r.get("ok") { Some(Bson::Int32(i)) => *i == 1, Some(Bson::Double(d)) => *d == 1.0, _ => false }
}
fn num(r: &Document, k: &str) -> i64 {
    match r.get(k) { Some(Bson::Int64(n)) => *n, Some(Bson::Int32(n)) => *n as i64, _ => -1 }
}

fn free(n: &str) -> i32 {
    let v = vf::any_i32(n);
    vf::assume(v > -(1 << 30) && v < 1 << 30);
    v
}
/// n documents, the first two with free values
fn docs(n: usize) -> Vec<Document> {
    (0..n).map(|i| doc! { "_id": i as i32, "x": match i { 0 => free("a"), 1 => free("b"), _ => 5 } }).collect()
}
/// a filter and which of the documents it selects
fn filter(d: &[Document]) -> (Document, Vec<bool>) {
    let x = |i: usize| d[i].get_i32("x").unwrap_or(0);
    match vf::pick(4, "filter") {
        0 => (doc! {}, d.iter().map(|_| true).collect()),
        1 => { let v = free("v"); (doc! { "x": v }, (0..d.len()).map(|i| vf::decide(x(i) == v)).collect()) }
        2 => { let v = free("v"); (doc! { "x": { "$lt": v } }, (0..d.len()).map(|i| vf::decide(x(i) < v)).collect()) }
        _ => (doc! { "_id": 1 }, (0..d.len()).map(|i| i == 1).collect()),
    }
}

fn insert(t: u64) {
    let mut c = client();
    let n = vf::pick(if t > 0 { 5 } else { 4 }, "documents");
    let d = docs(n);
    let m = if n > 1 && vf::pick(2, "taken") == 1 { c.put(&[doc! { "_id": 1, "x": 9 }]); true } else { false };
    let k = if n > 0 { vf::pick(n + 1, "inline") } else { 0 };
    let mut cmd = doc! { "insert": "c", "ordered": true, "$db": "d" };
    if k > 0 { cmd.insert("documents", d[..k].to_vec()); }
    let seq = if k < n || vf::pick(2, "empty") == 1 { Some(("documents", d[k..].to_vec())) } else { None };
    let r = c.send(cmd, seq);
    if m {
        vf::check(!ok(&r), "a refused insert is answered as such");
        vf::check(all_same(&c.stored("c"), &[doc! { "_id": 1, "x": 9 }]), "a refused insert stores nothing");
        vf::cover("insert refused");
    } else {
        vf::check(ok(&r) && num(&r, "n") == n as i64, "the answer tells how many documents were stored");
        vf::check(all_same(&c.stored("c"), &d), "the documents sent are stored");
        vf::cover("inserted");
    }
}

fn find(t: u64) {
    let mut c = client();
    let d = docs(if t > 0 { 4 } else { 3 });
    c.put(&d);
    let (q, hit) = filter(&d);
    let mut want: Vec<Document> = (0..d.len()).filter(|i| hit[*i]).map(|i| d[i].clone()).collect();
    let mut cmd = doc! { "find": "c", "$db": "d" };
    if !q.is_empty() || vf::pick(2, "no filter") == 0 { cmd.insert("filter", q); }
    match vf::pick(4, "slice") {
        1 => { cmd.insert("limit", 1); want.truncate(1) }
        2 => { cmd.insert("skip", 1i64); if !want.is_empty() { want.remove(0); } }
        3 => { cmd.insert("limit", 1i64); cmd.insert("skip", 1); if !want.is_empty() { want.remove(0); } want.truncate(1) }
        _ => {}
    }
    let single = vf::pick(2, "single") == 1;
    if single { cmd.insert("singleBatch", true); }
    let r = c.send(cmd, None);
    vf::check(ok(&r), "a find is answered");
    let (id, got) = batch(&r, "firstBatch");
    vf::check(all_same(&got, &want), "the answer holds the selected documents");
    vf::check(!single || id == 0, "a single batch leaves no cursor");
    if !single && id != 0 {
        let r = c.send(doc! { "getMore": id, "collection": "c", "$db": "d" }, None);
        vf::check(ok(&r), "a cursor is continued");
        let (id, got) = batch(&r, "nextBatch");
        vf::check(id == 0 && got.is_empty(), "nothing comes after the last document");
    }
    vf::check(all_same(&c.stored("c"), &d), "a find changes nothing");
    vf::cover("found");
}

fn update(t: u64) {
    let mut c = client();
    let d = docs(if t > 0 { 4 } else { 3 });
    c.put(&d);
    let (q, hit) = filter(&d);
    let multi = vf::pick(3, "multi");
    let mut u = doc! { "q": q.clone(), "u": { "$inc": { "x": 1 } } };
    if multi > 0 { u.insert("multi", multi == 2); }
    let none = !hit.iter().any(|h| *h);
    let upsert = q.contains_key("x") && q.get_document("x").is_err() && vf::pick(2, "upsert") == 1;
    if upsert {
        u.insert("upsert", true);
        u.insert("u", doc! { "$set": { "y": 1 } });
    }
    let r = c.send(doc! { "update": "c", "updates": [u], "$db": "d" }, None);
    vf::check(ok(&r), "an update is answered");
    let mut want = d.clone();
    let mut k = 0;
    for i in 0..d.len() {
        if hit[i] && (multi == 2 || k == 0) {
            k += 1;
            if upsert { want[i].insert("y", 1); } else { let x = want[i].get_i32("x").unwrap_or(0); want[i].insert("x", x + 1); }
        }
    }
    let got = c.stored("c");
    if upsert && none {
        vf::check(got.len() == d.len() + 1, "an upsert of nothing stores one document");
        let new: Vec<&Document> = got.iter().filter(|x| x.get("y").is_some()).collect();
        vf::check(new.len() == 1 && new[0].get("x") == q.get("x"), "the new document follows the query and the update");
        vf::cover("upserted");
    } else {
        vf::check(all_same(&got, &want), "exactly the selected documents are updated");
        vf::check(num(&r, "n") == k && num(&r, "nModified") == k, "the answer counts the updated documents");
        vf::cover("updated");
    }
}

fn delete(t: u64) {
    let mut c = client();
    let d = docs(if t > 0 { 4 } else { 3 });
    c.put(&d);
    let (q, hit) = filter(&d);
    let mut x = doc! { "q": q };
    let one = match vf::pick(5, "limit") {
        0 => { x.insert("limit", 1); true }
        1 => { x.insert("limit", 1i64); true }
        2 => { x.insert("limit", 1.0); true }
        3 => { x.insert("limit", 0); false }
        _ => { x.insert("limit", 0i64); false }
    };
    let r = c.send(doc! { "delete": "c", "deletes": [x], "$db": "d" }, None);
    let mut want = vec![];
    let mut k = 0;
    for i in 0..d.len() {
        if hit[i] && (!one || k == 0) { k += 1 } else { want.push(d[i].clone()) }
    }
    vf::check(ok(&r) && num(&r, "n") == k, "the answer counts the deleted documents");
    vf::check(all_same(&c.stored("c"), &want), "exactly the selected documents are deleted");
    vf::cover("deleted");
}

/// several updates or deletes in one command
fn several(_: u64) {
    let mut c = client();
    let d = docs(3);
    c.put(&d);
    let v = free("v");
    let x = |i: usize| d[i].get_i32("x").unwrap_or(0);
    if vf::pick(2, "command") == 0 {
        let r = c.send(doc! { "update": "c", "updates": [
            { "q": { "x": v }, "u": { "$set": { "x": v + 1 } }, "multi": true },
            { "q": { "x": v + 1 }, "u": { "$inc": { "x": 1 } } },
        ], "$db": "d" }, None);
        let mut want = d.clone();
        let mut n = 0;
        for i in 0..3 { if vf::decide(x(i) == v) { want[i].insert("x", v + 1); n += 1 } }
        for i in 0..3 { if vf::decide(want[i].get_i32("x").unwrap_or(0) == v + 1) { want[i].insert("x", v + 2); n += 1; break } }
        vf::check(ok(&r) && num(&r, "n") == n && num(&r, "nModified") == n, "the answer counts all updates");
        vf::check(all_same(&c.stored("c"), &want), "the updates take effect in order");
    } else {
        let r = c.send(doc! { "delete": "c", "deletes": [
            { "q": { "x": v }, "limit": 1 },
            { "q": { "x": { "$gte": v } }, "limit": 0 },
        ], "$db": "d" }, None);
        let mut n = 0;
        let mut left = vec![];
        let mut first = true;
        for i in 0..3 {
            if first && vf::decide(x(i) == v) { first = false; n += 1 } else { left.push(d[i].clone()) }
        }
        let mut want = vec![];
        for y in left { if vf::decide(y.get_i32("x").unwrap_or(0) >= v) { n += 1 } else { want.push(y) } }
        vf::check(ok(&r) && num(&r, "n") == n, "the answer counts all deletes");
        vf::check(all_same(&c.stored("c"), &want), "the deletes take effect in order");
    }
    vf::cover("several");
}

fn aggregate(_: u64) {
    let mut c = client();
    let d = docs(3);
    c.put(&d);
    let v = free("v");
    let (p, want): (Vec<Bson>, Vec<Document>) = match vf::pick(4, "pipeline") {
        0 => (vec![], d.clone()),
        1 => (vec![Bson::Document(doc! { "$match": { "x": { "$gte": v } } })], (0..3).filter(|i| vf::decide(d[*i].get_i32("x").unwrap_or(0) >= v)).map(|i| d[i].clone()).collect()),
        2 => (vec![Bson::Document(doc! { "$skip": 1 }), Bson::Document(doc! { "$limit": 1 })], vec![d[1].clone()]),
        _ => (vec![Bson::Document(doc! { "$match": {} }), Bson::Document(doc! { "$count": "n" })], vec![doc! { "n": 3i64 }]),
    };
    let r = c.send(doc! { "aggregate": "c", "pipeline": p, "cursor": { "batchSize": 1 }, "$db": "d" }, None);
    vf::check(ok(&r), "an aggregation is answered");
    let (mut id, mut got) = batch(&r, "firstBatch");
    for _ in 0..4 {
        if id == 0 { break }
        let r = c.send(doc! { "getMore": id, "collection": "c", "$db": "d" }, None);
        vf::check(ok(&r), "a cursor is continued");
        let (i, b) = batch(&r, "nextBatch");
        id = i;
        got.extend(b);
    }
    vf::check(id == 0, "the cursor ends");
    vf::check(all_same(&got, &want), "the answer is the result of the pipeline");
    vf::cover("aggregated");
}

/// one cursor, any batch sizes
fn cursor(t: u64) {
    let mut c = client();
    let n = vf::pick(if t > 0 { 6 } else { 4 }, "documents");
    let d = docs(n);
    c.put(&d);
    let (b1, b2, b3) = (vf::any_i32("b1"), vf::any_i32("b2"), vf::any_i32("b3"));
    let r = c.send(doc! { "find": "c", "filter": {}, "batchSize": b1, "$db": "d" }, None);
    vf::check(ok(&r), "a find is answered");
    let (id, mut got) = batch(&r, "firstBatch");
    vf::check(b1 < 1 || got.len() as i64 <= b1 as i64, "no batch is larger than asked");
    let mut cur = id;
    for i in 0..n + 2 {
        if cur == 0 { break }
        let b = if i % 2 == 0 { b2 } else { b3 };
        let r = c.send(doc! { "getMore": cur, "collection": "c", "batchSize": b, "$db": "d" }, None);
        vf::check(ok(&r), "a cursor is continued");
        let (j, more) = batch(&r, "nextBatch");
        vf::check(b < 1 || more.len() as i64 <= b as i64, "no batch is larger than asked");
        vf::check(j == 0 || j == cur, "a cursor keeps its id");
        cur = j;
        got.extend(more);
    }
    vf::check(cur == 0, "the cursor ends");
    vf::check(all_same(&got, &d), "every document is delivered exactly once");
    if id != 0 {
        let r = c.send(doc! { "getMore": id, "collection": "c", "$db": "d" }, None);
        vf::check(!ok(&r), "a finished cursor is gone");
    }
    vf::cover("one cursor");
}

/// two cursors, one possibly killed, in any order
fn cursors(t: u64) {
    let mut c = client();
    let d = docs(3);
    c.put(&d);
    let mut ids = [0i64; 2];
    let mut got = [vec![], vec![]];
    let mut dead = [false; 2];
    let q = [doc! {}, doc! { "_id": { "$gte": 1 } }];
    let want = [d.clone(), d[1..].to_vec()];
    for k in 0..2 {
        let r = c.send(doc! { "find": "c", "filter": q[k].clone(), "batchSize": 1, "$db": "d" }, None);
        let (id, b) = batch(&r, "firstBatch");
        ids[k] = id;
        got[k].extend(b);
    }
    vf::check(ids[0] != 0 && ids[1] != 0 && ids[0] != ids[1], "open cursors have different ids");
    for _ in 0..if t > 0 { 6 } else { 5 } {
        let k = vf::pick(2, "cursor");
        if ids[k] == 0 { continue }
        if !dead[1 - k] && !dead[k] && vf::pick(3, "kill") == 0 {
            let r = c.send(doc! { "killCursors": "c", "cursors": [ids[k]], "$db": "d" }, None);
            vf::check(ok(&r), "cursors are killed");
            dead[k] = true;
            continue;
        }
        let r = c.send(doc! { "getMore": ids[k], "collection": "c", "batchSize": 1, "$db": "d" }, None);
        if dead[k] {
            vf::check(!ok(&r), "a killed cursor is gone");
            vf::cover("killed");
        } else {
            vf::check(ok(&r), "an open cursor is continued whatever happens to others");
            let (j, b) = batch(&r, "nextBatch");
            ids[k] = j;
            got[k].extend(b);
        }
    }
    for k in 0..2 {
        if dead[k] { continue }
        while ids[k] != 0 {
            let r = c.send(doc! { "getMore": ids[k], "collection": "c", "$db": "d" }, None);
            vf::check(ok(&r), "an open cursor is continued");
            let (j, b) = batch(&r, "nextBatch");
            ids[k] = j;
            got[k].extend(b);
        }
        vf::check(all_same(&got[k], &want[k]), "every cursor delivers its documents exactly once");
        vf::cover("two cursors");
    }
    // a later cursor does not take an id in use or used before
    let r = c.send(doc! { "find": "c", "filter": {}, "batchSize": 1, "$db": "d" }, None);
    let (id, b) = batch(&r, "firstBatch");
    vf::check(id != 0 && all_same(&b, &d[..1]), "a new cursor starts anew");
}

/// limit, skip and batch size together
fn limits(_: u64) {
    let mut c = client();
    let d = docs(4);
    c.put(&d);
    let (l, s) = (vf::pick(6, "limit"), vf::pick(6, "skip"));
    let b = vf::any_i32("batch");
    let mut cmd = doc! { "find": "c", "filter": {}, "skip": s as i32, "batchSize": b, "$db": "d" };
    if vf::pick(2, "wide") == 0 { cmd.insert("limit", l as i32); } else { cmd.insert("limit", l as i64); }
    let end = if l == 0 { 4 } else { std::cmp::min(4, s + l) };
    let want = if s < end { d[s..end].to_vec() } else { vec![] };
    let r = c.send(cmd, None);
    let (mut id, mut got) = batch(&r, "firstBatch");
    for _ in 0..6 {
        if id == 0 { break }
        let r = c.send(doc! { "getMore": id, "collection": "c", "batchSize": b, "$db": "d" }, None);
        vf::check(ok(&r), "a cursor is continued");
        let (j, more) = batch(&r, "nextBatch");
        id = j;
        got.extend(more);
    }
    vf::check(id == 0 && all_same(&got, &want), "skip and limit hold over all batches");
    vf::cover("slice");
}

fn lsid(k: u8) -> Document {
    doc! { "id": Bson::Binary(bson::Binary { subtype: bson::spec::BinarySubtype::Uuid, bytes: vec![k; 16] }) }
}

/// commands of one transaction, seen from inside and outside
fn session(t: u64) {
    let mut c = client();
    let d = docs(2);
    c.put(&d);
    let v = free("v");
    let n = 1 + vf::pick(3, "commands");
    let kinds = if n == 3 && t == 0 { 3 } else { 6 };
    let mut want = d.clone();
    let mut failed = false;
    for i in 0..n {
        let mut cmd;
        let kind = vf::pick(kinds, "command");
        match kind {
            0 => { cmd = doc! { "insert": "c", "documents": [{ "_id": 10 + i as i32, "x": v }] }; want.push(doc! { "_id": 10 + i as i32, "x": v }) }
            1 => {
                cmd = doc! { "update": "c", "updates": [{ "q": { "x": { "$lt": v } }, "u": { "$set": { "x": v } }, "multi": true }] };
                for x in want.iter_mut() { if vf::decide(x.get_i32("x").unwrap_or(0) < v) { x.insert("x", v); } }
            }
            2 => {
                cmd = doc! { "delete": "c", "deletes": [{ "q": { "x": v }, "limit": 0 }] };
                want.retain(|x| !vf::decide(x.get_i32("x").unwrap_or(0) == v));
            }
            3 => cmd = doc! { "find": "c", "filter": { "x": v } },
            4 => cmd = doc! { "aggregate": "c", "pipeline": [{ "$match": { "x": v } }], "cursor": {} },
            _ => cmd = [
                doc! { "insert": "c", "documents": [{ "_id": 0, "x": v }] },
                doc! { "update": "c", "updates": [{ "q": {}, "u": { "$nope": { "x": 1 } } }] },
                doc! { "find": "c", "filter": { "x": { "$nope": 1 } } },
                doc! { "aggregate": "c", "pipeline": [{ "$nope": 1 }], "cursor": {} },
            ][vf::pick(4, "failing")].clone(),
        }
        cmd.insert("lsid", lsid(1));
        cmd.insert("autocommit", false);
        if i == 0 { cmd.insert("startTransaction", true); }
        cmd.insert("$db", "d");
        let r = c.send(cmd, None);
        if kind == 5 {
            let gone = kinds > 3 && want.iter().all(|x| x.get_i32("_id").ok() != Some(0));
            if r.get_str("errmsg").is_err() { vf::check(gone && ok(&r), "a command that fails says so"); want.push(doc! { "_id": 0, "x": v }); want.sort_by_key(|x| x.get_i32("_id").unwrap_or(0)) }
            else { failed = true; vf::cover("failed inside") }
        } else {
            vf::check(ok(&r), "a command of a transaction is answered");
        }
        if kind == 3 || kind == 4 {
            let (_, got) = batch(&r, "firstBatch");
            let w: Vec<Document> = want.iter().filter(|x| vf::decide(x.get_i32("x").unwrap_or(0) == v)).cloned().collect();
            vf::check(all_same(&got, &w), "a transaction sees its own changes");
        }
        vf::check(all_same(&c.stored("c"), &d), "nobody else sees them before the end");
    }
    let end = vf::pick(3, "end");
    let name = ["commitTransaction", "abortTransaction", ""][end];
    if end < 2 {
        let mut cmd = Document::new();
        cmd.insert(name, 1);
        cmd.insert("lsid", lsid(1));
        cmd.insert("autocommit", false);
        cmd.insert("$db", "admin");
        let r = c.send(cmd.clone(), None);
        vf::check(failed || ok(&r), "the end of a transaction is answered");
        // a server may give up a transaction in which a command failed
        if failed && !ok(&r) { want = d.clone() }
        vf::check(all_same(&c.stored("c"), if end == 0 { &want } else { &d }), "commands of a transaction take effect together or not at all");
        let r = c.send(cmd, None);
        vf::check(!ok(&r), "a transaction ends once");
        // the session goes on outside of the transaction
        let r = c.send(doc! { "insert": "c", "documents": [{ "_id": 99, "x": 0 }], "lsid": lsid(1), "$db": "d" }, None);
        vf::check(ok(&r), "the session goes on");
        let mut w = if end == 0 { want } else { d };
        w.push(doc! { "_id": 99, "x": 0 });
        vf::check(all_same(&c.stored("c"), &w), "commands after the transaction take effect at once");
        vf::cover(if end == 0 { "committed" } else { "aborted" });
    } else {
        // a new transaction of the session replaces the unfinished one
        let r = c.send(doc! { "insert": "c", "documents": [{ "_id": 99, "x": 0 }], "lsid": lsid(1), "startTransaction": true, "autocommit": false, "$db": "d" }, None);
        vf::check(ok(&r), "a new transaction begins");
        let r = c.send(doc! { "commitTransaction": 1, "lsid": lsid(1), "autocommit": false, "$db": "admin" }, None);
        vf::check(ok(&r), "the new transaction is committed");
        let mut w = d;
        w.push(doc! { "_id": 99, "x": 0 });
        vf::check(all_same(&c.stored("c"), &w), "nothing of the unfinished transaction remains");
        vf::cover("replaced");
    }
}

/// two sessions at once, and a client without one
fn sessions(_: u64) {
    let mut c = client();
    let d = docs(2);
    c.put(&d);
    let v = free("v");
    let begin = |k: u8, cmd: &mut Document| { cmd.insert("lsid", lsid(k)); cmd.insert("startTransaction", true); cmd.insert("autocommit", false); cmd.insert("$db", "d"); };
    let mut one = doc! { "update": "c", "updates": [{ "q": { "_id": 0 }, "u": { "$set": { "x": v } } }] };
    begin(1, &mut one);
    let conflict = vf::pick(2, "same document") == 1;
    let mut two = doc! { "update": "c", "updates": [{ "q": { "_id": if conflict { 0 } else { 1 } }, "u": { "$inc": { "x": 1 } } }] };
    begin(2, &mut two);
    vf::check(ok(&c.send(one, None)), "the first transaction writes");
    let second = ok(&c.send(two, None));
    if !conflict { vf::check(second, "another transaction writes another document") }
    vf::check(!(conflict && second), "two open transactions do not write the same document");
    // a client without session
    let r = c.send(doc! { "insert": "c", "documents": [{ "_id": 50, "x": 1 }], "$db": "d" }, None);
    vf::check(ok(&r), "others go on");
    let mut want = d.clone();
    want.push(doc! { "_id": 50, "x": 1 });
    vf::check(all_same(&c.stored("c"), &want), "open transactions are not seen");
    let first = vf::pick(2, "first end");
    for k in 0..2 {
        let s = if k == 0 { first } else { 1 - first };
        let commit = vf::pick(2, "commit") == 1;
        let mut cmd = Document::new();
        cmd.insert(if commit { "commitTransaction" } else { "abortTransaction" }, 1);
        cmd.insert("lsid", lsid(1 + s as u8));
        cmd.insert("autocommit", false);
        cmd.insert("$db", "admin");
        let r = c.send(cmd, None);
        vf::check(ok(&r), "the end of a transaction is answered");
        if commit && s == 0 { want[0].insert("x", v); }
        if commit && s == 1 && second { let x = want[1].get_i32("x").unwrap_or(0); want[1].insert("x", x + 1); }
        vf::check(all_same(&c.stored("c"), &want), "each transaction takes effect at its own end");
    }
    vf::cover(if conflict { "conflict" } else { "two sessions" });
}

/// commands that cannot be carried out say so and change nothing
fn refused(_: u64) {
    let mut c = client();
    let d = docs(2);
    c.put(&d);
    let cmd = match vf::pick(16, "command") {
        0 => doc! { "find": 1, "$db": "d" },
        1 => doc! { "find": "c" },
        2 => doc! { "find": "c", "filter": 1, "$db": "d" },
        3 => doc! { "find": "c", "filter": { "x": { "$nope": 1 } }, "$db": "d" },
        4 => doc! { "getMore": 77i64, "collection": "c", "$db": "d" },
        5 => doc! { "update": "c", "updates": [{ "q": {}, "u": { "$nope": { "x": 1 } } }], "$db": "d" },
        6 => doc! { "update": "c", "updates": [{ "q": {} }], "$db": "d" },
        7 => doc! { "update": "c", "$db": "d" },
        8 => doc! { "delete": "c", "$db": "d" },
        9 => doc! { "delete": "c", "deletes": [{ "limit": 1 }], "$db": "d" },
        10 => doc! { "aggregate": "c", "pipeline": [{ "$nope": 1 }], "$db": "d" },
        11 => doc! { "commitTransaction": 1, "$db": "admin" },
        12 => doc! { "abortTransaction": 1, "lsid": lsid(3), "$db": "admin" },
        13 => doc! { "unknown": 1, "$db": "d" },
        14 => doc! { "insert": "c", "documents": [{ "_id": 5 }, { "_id": 0 }], "$db": "d" },
        _ => doc! { "killCursors": "c", "$db": "d" },
    };
    let r = c.send(cmd, None);
    vf::check(!ok(&r), "a command that cannot be carried out is refused");
    vf::check(r.get_str("errmsg").is_ok(), "a refusal tells why");
    vf::check(all_same(&c.stored("c"), &d), "a refused command changes nothing");
    let r = c.send(doc! { "find": "c", "filter": {}, "$db": "d" }, None);
    vf::check(ok(&r) && all_same(&batch(&r, "firstBatch").1, &d), "the server goes on after a refusal");
    let r = c.send(doc! { "ping": 1, "$db": "admin" }, None);
    vf::check(ok(&r), "the server answers");
    vf::cover("refused");
}

/// more documents than a default batch
fn large(t: u64) {
    let mut c = client();
    let n = if t > 0 { 450 } else { 250 };
    let v = free("v");
    let d: Vec<Document> = (0..n).map(|i| doc! { "_id": i, "x": if i == 120 { v } else { i } }).collect();
    let r = c.send(doc! { "insert": "c", "$db": "d" }, Some(("documents", d.clone())));
    vf::check(ok(&r) && num(&r, "n") == n as i64, "the answer tells how many documents were stored");
    let mut cmd = doc! { "find": "c", "filter": {}, "$db": "d" };
    let b = [0, 7, 100, 101, 102, 1000][vf::pick(6, "batch")];
    if b > 0 { cmd.insert("batchSize", b); }
    let (mut d, mut how) = (d, 0);
    if b == 0 || b == 1000 {
        how = vf::pick(4, "how");
        match how {
            1 => { cmd.insert("singleBatch", true); }
            2 => { cmd.insert("limit", 110); d.truncate(110) }
            3 => { cmd = doc! { "aggregate": "c", "pipeline": [], "cursor": {}, "$db": "d" }; }
            _ => {}
        }
    }
    let r = c.send(cmd, None);
    let (mut id, mut got) = batch(&r, "firstBatch");
    vf::check(how != 1 || id == 0, "a single batch leaves no cursor");
    for _ in 0..n {
        if id == 0 { break }
        let mut cmd = doc! { "getMore": id, "collection": "c", "$db": "d" };
        if b > 0 { cmd.insert("batchSize", b); }
        let r = c.send(cmd, None);
        let (j, more) = batch(&r, "nextBatch");
        id = j;
        got.extend(more);
    }
    vf::check(id == 0 && all_same(&got, &d), "every document is delivered exactly once");
    vf::cover("large");
}

/// the collection changes while a cursor is open
fn changes(t: u64) {
    let mut c = client();
    let d = docs(if t > 0 { 5 } else { 4 });
    c.put(&d);
    let v = free("v");
    let b = vf::any_i32("batch");
    let how = vf::pick(2, "filter");
    let q = if how == 0 { doc! {} } else { doc! { "x": { "$gte": v } } };
    let hit: Vec<bool> = d.iter().map(|x| how == 0 || vf::decide(x.get_i32("x").unwrap_or(0) >= v)).collect();
    let r = c.send(doc! { "find": "c", "filter": q, "batchSize": b, "$db": "d" }, None);
    let (mut id, mut got) = batch(&r, "firstBatch");
    let k = vf::pick(d.len(), "changed") as i32;
    let r = match vf::pick(4, "change") {
        0 => c.send(doc! { "insert": "c", "documents": [{ "_id": 100, "x": v }, { "_id": -1, "x": v }], "$db": "d" }, None),
        1 => c.send(doc! { "delete": "c", "deletes": [{ "q": { "_id": k }, "limit": 1 }], "$db": "d" }, None),
        2 => c.send(doc! { "update": "c", "updates": [{ "q": { "_id": k }, "u": { "$set": { "x": v } } }], "$db": "d" }, None),
        _ => c.send(doc! { "find": "c", "filter": {}, "$db": "d" }, None),
    };
    vf::check(ok(&r), "the collection can be changed while a cursor is open");
    for _ in 0..d.len() + 3 {
        if id == 0 { break }
        let r = c.send(doc! { "getMore": id, "collection": "c", "batchSize": b, "$db": "d" }, None);
        vf::check(ok(&r), "a cursor is continued");
        let (j, more) = batch(&r, "nextBatch");
        id = j;
        got.extend(more);
    }
    vf::check(id == 0, "the cursor ends");
    for (i, x) in d.iter().enumerate() {
        let n = got.iter().filter(|y| y.get_i32("_id").ok() == Some(i as i32)).count();
        vf::check(n <= 1, "no document is delivered twice");
        if i as i32 != k {
            vf::check((n == 1) == hit[i], "an unchanged document is delivered if and only if it is selected");
            if n == 1 { vf::check(got.iter().any(|y| y.get_i32("_id").ok() == Some(i as i32) && same(x, y)), "documents are delivered as stored") }
        }
    }
    vf::cover("changed meanwhile");
}

struct Conn { input: Vec<u8>, at: usize, step: usize, out: Vec<u8> }
impl tokio::io::AsyncRead for Conn {
    fn poll_read(mut self: std::pin::Pin<&mut Self>, _: &mut std::task::Context<'_>, buf: &mut tokio::io::ReadBuf<'_>) -> std::task::Poll<std::io::Result<()>> {
        let n = std::cmp::min(std::cmp::min(self.input.len() - self.at, self.step), buf.remaining());
        let at = self.at;
        buf.put_slice(&self.input[at..at + n]);
        self.at += n;
        std::task::Poll::Ready(Ok(()))
    }
}
impl tokio::io::AsyncWrite for Conn {
    fn poll_write(mut self: std::pin::Pin<&mut Self>, _: &mut std::task::Context<'_>, buf: &[u8]) -> std::task::Poll<std::io::Result<usize>> {
        let n = std::cmp::min(self.step, buf.len());
        self.out.extend_from_slice(&buf[..n]);
        std::task::Poll::Ready(Ok(n))
    }
    fn poll_flush(self: std::pin::Pin<&mut Self>, _: &mut std::task::Context<'_>) -> std::task::Poll<std::io::Result<()>> { std::task::Poll::Ready(Ok(())) }
    fn poll_shutdown(self: std::pin::Pin<&mut Self>, _: &mut std::task::Context<'_>) -> std::task::Poll<std::io::Result<()>> { std::task::Poll::Ready(Ok(())) }
}

/// a connection that sends several commands at once and takes its answers in pieces
fn stream(_: u64) {
    let c = client();
    let v = free("v");
    let cmds = [
        doc! { "insert": "c", "documents": [{ "_id": 1, "x": v }], "$db": "d" },
        [doc! { "unknown": 1, "$db": "d" }, doc! { "insert": "c", "documents": [{ "_id": 1 }], "$db": "d" }, doc! { "isMaster": 1, "$db": "d" }][vf::pick(3, "second")].clone(),
        doc! { "find": "c", "filter": { "x": v }, "$db": "d" },
    ];
    let mut input = vec![];
    let requests = [vf::any_i32("r1"), vf::any_i32("r2"), vf::any_i32("r3")];
    for (d, r) in cmds.iter().zip(&requests) {
        let b = bytes(d);
        input.extend_from_slice(&(b.len() as i32 + 21).to_le_bytes());
        input.extend_from_slice(&r.to_le_bytes());
        input.extend_from_slice(&[0, 0, 0, 0, 0xdd, 7, 0, 0, 0, 0, 0, 0, 0]);
        input.extend_from_slice(&b);
    }
    let step = [1000, 1, 7, 16][vf::pick(4, "step")];
    let tail = vf::pick(3, "tail");
    for _ in 0..tail { input.push(vf::any_u8("tail byte")) }
    let mut conn = Conn { input, at: 0, step, out: vec![] };
    vf::check(block(crate::handle_stream(c.ctx.clone(), 3, &mut conn)).is_err(), "the connection ends with its bytes");
    let mut at = 0;
    for (i, r) in requests.iter().enumerate() {
        let o = &conn.out[at..];
        vf::check(o.len() > 21, "every command is answered");
        let n = i32::from_le_bytes([o[0], o[1], o[2], o[3]]) as usize;
        vf::check(n > 21 && n <= o.len(), "answers are complete");
        vf::check(o[8..12] == r.to_le_bytes(), "answers come in the order of the commands");
        let d: Document = match bson::from_slice(&o[21..n]) { Ok(d) => d, Err(_) => { vf::check(false, "the answer is a document"); return } };
        if i == 1 {
            let hello = cmds[1].contains_key("isMaster");
            vf::check(ok(&d) == hello, "a refusal is answered and the connection goes on");
            vf::check(!hello || (num(&d, "connectionId") == 3 && d.get_bool("ismaster").ok() == Some(true) && num(&d, "maxWireVersion") >= num(&d, "minWireVersion")), "the server introduces itself");
        } else {
            vf::check(ok(&d), "a command is carried out");
        }
        if i == 2 { vf::check(all_same(&batch(&d, "firstBatch").1, &[doc! { "_id": 1, "x": v }]), "earlier commands have taken effect") }
        at += n;
    }
    vf::check(at == conn.out.len(), "nothing but the answers is sent");
    vf::cover("stream");
}
