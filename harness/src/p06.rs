//! P06: no operation on one collection touches another one.
use crate::vf;
use crate::gen::*;
use polodb_core::bson::{doc, Bson, Document};
use polodb_core::{CollectionT, Collection, Database};

harness! { TABLE; h_p06_names => other_names; h_p06_keys => keys; h_p06_txn => txn; h_p06_large => large; }

/// a legal character of a collection name
fn name_char(n: &str) -> u8 {
    let b = vf::any_u8(n);
    vf::assume(b >= 1 && b < 0x80 && b != b'$' && b != b'\n' && b != b'\t' && b != b'\r' && b != b'.');
    b
}
fn name(v: Vec<u8>) -> String { unsafe { String::from_utf8_unchecked(v) } }

const NOPS: usize = 14;
/// one operation on collection `c`; its own result does not matter here
fn act(op: usize, db: &Database, c: &Collection<Document>, k: i32, v: i32) {
    let all_x = doc! {"x": {"$gte": i32::MIN}};
    match op {
        0 => { let _ = c.insert_one(doc! {"_id": k, "x": v}); }
        1 => { let _ = c.insert_many(vec![doc! {"_id": k, "x": v}, doc! {"x": v}]); }
        2 => { let _ = c.update_many(doc! {}, doc! {"$set": {"x": v, "n": 1}}); }
        3 => { let _ = c.update_one(doc! {"_id": k}, doc! {"$inc": {"x": 1}}); }
        4 => { let _ = c.delete_many(doc! {}); }
        5 => { let _ = c.delete_many(all_x); }
        6 => { let _ = c.delete_one(doc! {"_id": k}); }
        7 => { let _ = c.drop(); }
        8 => { let _ = c.create_index(index("x", false)); }
        9 => { let _ = c.create_index(index("x", false)); let _ = c.drop_index("x_1"); }
        10 => { let _ = c.create_index(index("x", true)); let _ = c.drop(); }
        11 => { let _ = c.update_many_with_options(doc! {"_id": k}, doc! {"$set": {"x": v}}, polodb_core::options::UpdateOptions::builder().upsert(true).build()); }
        12 => { let _ = c.create_index(index("x", false)); let _ = c.update_many(doc! {}, doc! {"$set": {"x": v}}); let _ = c.delete_many(doc! {}); }
        _ => { let _ = db.create_collection(c.name()); }
    }
}
/// what collection `c` answers
fn answers(c: &Collection<Document>, k: i32, v: i32) -> (Vec<Document>, u64, Vec<Document>, Vec<Document>) {
    (all(c), c.count_documents().unwrap(), find(c, doc! {"_id": k}).unwrap(), find(c, doc! {"x": v}).unwrap())
}

fn scenario(a: &str, b: &str, ka: i32, kb: i32, va: i32, vb: i32, indexed: bool, a_exists: bool, op: usize) {
    let db = open();
    let (ca, cb) = (coll(&db, a), coll(&db, b));
    if indexed { cb.create_index(index("x", true)).unwrap(); }
    cb.insert_one(doc! {"_id": kb, "x": vb}).unwrap();
    if a_exists {
        if indexed { ca.create_index(index("x", false)).unwrap(); }
        ca.insert_one(doc! {"_id": ka, "x": va}).unwrap();
        vf::check(same_docs(&all(&ca), &[doc! {"_id": ka, "x": va}]), "a collection holds its own documents only");
    }
    let before = answers(&cb, ka, va);
    vf::check(same_docs(&before.0, &[doc! {"_id": kb, "x": vb}]), "a collection holds its own documents only");
    vf::check(before.1 == 1, "a collection counts its own documents only");
    act(op, &db, &ca, ka, va);
    let after = answers(&cb, ka, va);
    vf::check(same_docs(&before.0, &after.0) && before.1 == after.1 && same_docs(&before.2, &after.2) && same_docs(&before.3, &after.3),
        "an operation on one collection leaves the answers of another one as they were");
    vf::check(db.list_collection_names().unwrap().iter().filter(|n| n.as_str() == b).count() == 1, "the other collection stays listed once");
    // the unique index of the other collection is still in force
    if indexed {
        vf::check(cb.insert_one(doc! {"_id": Bson::String("n".into()), "x": vb}).is_err(), "the unique index of the other collection stays in force");
        vf::check(cb.delete_one(doc! {"_id": kb}).unwrap().deleted_count == 1, "the other collection's document is there");
        vf::check(cb.insert_one(doc! {"_id": Bson::String("n".into()), "x": vb}).is_ok(), "no entry of the first collection blocks the other one");
    }
    vf::cover("isolated");
}

/// names are symbolic: every pair of legal ASCII names of 1-2 characters
fn other_names(_tier: u64) {
    let (a, b) = match vf::pick(5, "names") {
        0 => (name(vec![name_char("a0")]), name(vec![name_char("b0")])),
        1 => (name(vec![name_char("a0"), name_char("a1")]), name(vec![name_char("b0")])),
        2 => (name(vec![name_char("a0")]), name(vec![name_char("b0"), name_char("b1")])),
        3 => (name(vec![name_char("a0"), name_char("a1")]), name(vec![name_char("b0"), name_char("b1")])),
        _ => ("books".to_string(), name(vec![b'b', b'o', b'o', b'k', name_char("b0"), name_char("b1")])),
    };
    vf::assume(a != b);
    scenario(&a, &b, 1, 1, 5, 5, vf::pick(2, "indexed") == 1, true, [0usize, 2, 4, 7, 8, 10][vf::pick(6, "op")]);
}

/// keys and values are symbolic, names are related
fn keys(_tier: u64) {
    let (a, b) = [("a", "b"), ("a", "aa"), ("aa", "a"), ("x_1", "x"), ("a b", "a"), ("\u{1}", "a")][vf::pick(6, "names")];
    // keys or values are symbolic, the others equal
    let (ka, kb, va, vb) = if vf::pick(2, "symbolic") == 0 { (vf::any_i32("ka"), vf::any_i32("kb"), 5, 5) } else { (1, 1, vf::any_i32("va"), vf::any_i32("vb")) };
    let ex = vf::pick(2, "exists") == 1;
    scenario(a, b, ka, kb, va, vb, vf::pick(2, "indexed") == 1, ex, vf::pick(NOPS, "op"));
}

/// the operation happens inside a transaction
fn txn(_tier: u64) {
    let (a, b) = [("a", "b"), ("a", "aa"), ("aa", "a")][vf::pick(3, "names")];
    let (ka, kb) = (vf::any_i32("ka"), vf::any_i32("kb"));
    let (va, vb) = (vf::any_i32("va"), vf::any_i32("vb"));
    let db = open();
    let cb = coll(&db, b);
    cb.create_index(index("x", false)).unwrap();
    cb.insert_one(doc! {"_id": kb, "x": vb}).unwrap();
    coll(&db, a).create_index(index("x", false)).unwrap();
    coll(&db, a).insert_one(doc! {"_id": ka, "x": va}).unwrap();
    let t = db.start_transaction().unwrap();
    let c = t.collection::<Document>(a);
    match vf::pick(5, "op") {
        0 => { let _ = c.insert_one(doc! {"_id": kb, "x": vb}); }
        1 => { let _ = c.update_many(doc! {}, doc! {"$set": {"x": vb}}); }
        2 => { let _ = c.delete_many(doc! {}); }
        3 => { let _ = c.drop(); }
        _ => { let _ = c.drop_index("x_1"); }
    }
    let inside = t.collection::<Document>(b);
    let got: Vec<Document> = inside.find(doc! {"x": vb}).run().unwrap().map(|d| d.unwrap()).collect();
    vf::check(same_docs(&got, &[doc! {"_id": kb, "x": vb}]), "inside the transaction the other collection answers as before");
    if vf::pick(2, "end") == 0 { t.commit().unwrap(); } else { t.rollback().unwrap(); }
    drop((c, inside, t));
    vf::check(same_docs(&find(&cb, doc! {"x": vb}).unwrap(), &[doc! {"_id": kb, "x": vb}]), "after the transaction the other collection answers as before");
    vf::check(same_docs(&all(&cb), &[doc! {"_id": kb, "x": vb}]), "after the transaction the other collection answers as before");
    vf::cover("transaction");
}

/// long names, and many documents in collections whose names are prefixes
fn large(tier: u64) {
    let v = vf::any_i64("v");
    let db = open();
    let n = if tier == 0 { 300 } else { 1050 };
    let (p, q) = match vf::pick(3, "names") {
        0 => ("n".repeat(255), "n".repeat(256)),
        1 => ("c".to_string(), "cc".to_string()),
        _ => ("n".repeat(70), format!("{}a", "n".repeat(70))),
    };
    let (a, b) = (coll(&db, &p), coll(&db, &q));
    a.insert_many(crowd(n, v)).unwrap();
    vf::check(b.count_documents().unwrap() == 0 && all(&b).is_empty(), "an operation on one collection does not change another");
    b.insert_many(crowd(7, 0)).unwrap();
    vf::check(same_docs(&all(&a), &crowd(n, v)), "an operation on one collection does not change another");
    match vf::pick(3, "op") { 0 => { b.delete_many(doc! {}).unwrap(); } 1 => { b.drop().unwrap(); } _ => { b.update_many(doc! {}, doc! {"$set": {"v": 1}}).unwrap(); } }
    vf::check(same_docs(&all(&a), &crowd(n, v)), "an operation on one collection does not change another");
    a.drop().unwrap();
    vf::check(all(&a).is_empty() && names(&db).len() <= 1, "an operation on one collection does not change another");
    vf::cover("large");
}
