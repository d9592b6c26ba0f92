//! P08: what was stored is what is read back.
use crate::vf;
use crate::gen::*;
use polodb_core::bson::{self, doc, Bson, Document};
use polodb_core::{CollectionT, Collection};

harness! { TABLE; h_p08_values => values; h_p08_shapes => shapes; h_p08_reopen => reopen; h_p08_typed => typed; h_p08_large => large; }

const T: [Ty; 15] = [Ty::Null, Ty::Bool, Ty::I32, Ty::I64, Ty::F64, Ty::Str0, Ty::Str1, Ty::Str2, Ty::Oid, Ty::Date, Ty::Bin1, Ty::Ts, Ty::Sym1, Ty::I32, Ty::I64];

/// value kinds without an order
fn special(i: usize) -> Bson {
    match i {
        0 => Bson::Undefined,
        1 => Bson::MinKey,
        2 => Bson::MaxKey,
        3 => Bson::JavaScriptCode("f()".into()),
        4 => Bson::JavaScriptCodeWithScope(bson::JavaScriptCodeWithScope { code: "f".into(), scope: doc! {"a": 1, "b": {"c": "d"}} }),
        5 => Bson::RegularExpression(bson::Regex { pattern: "^a$".into(), options: "im".into() }),
        6 => Bson::Decimal128(bson::Decimal128::from_bytes([0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0x78])),
        7 => Bson::Binary(bson::Binary { subtype: bson::spec::BinarySubtype::Uuid, bytes: (0..16).collect() }),
        8 => Bson::Binary(bson::Binary { subtype: bson::spec::BinarySubtype::UserDefined(0x81), bytes: vec![] }),
        9 => Bson::Document(Document::new()),
        10 => Bson::Array(vec![]),
        11 => Bson::String("\u{e9}\u{4e2d}\u{1f600}\u{0}x".into()),
        12 => Bson::String("0123456789".repeat(30)),
        _ => Bson::Binary(bson::Binary { subtype: bson::spec::BinarySubtype::Generic, bytes: (0..=255).collect() }),
    }
}
const NSPECIAL: usize = 14;

fn stored(c: &Collection<Document>, d: &Document, how: &str) {
    let r = all(c);
    vf::check(r.iter().any(|x| same_doc(x, d)), how);
    let r = find(c, doc! {"_id": d.get("_id").unwrap().clone()}).unwrap();
    vf::check(r.len() == 1 && same_doc(&r[0], d), how);
    let r = c.find_one(doc! {"_id": d.get("_id").unwrap().clone()}).unwrap();
    vf::check(r.is_some() && same_doc(&r.unwrap(), d), how);
}

/// one value of every kind, at top level, in a document, in an array
fn values(_tier: u64) {
    let k = vf::pick(T.len() + NSPECIAL, "kind");
    let v = if k < T.len() { value(T[k], "v") } else { special(k - T.len()) };
    let at = vf::pick(6, "place");
    if at > 3 { return keyless(if at == 4 { doc! {"v": v, "z": 1} } else { doc! {"a": {"v": v.clone()}, "z": Bson::Null, "v": v} }) }
    let d = match at {
        0 => doc! {"_id": 1, "v": v},
        1 => doc! {"v": v, "_id": 1, "z": "tail"},
        2 => doc! {"_id": 1, "o": {"p": 1, "v": v, "q": 2}, "z": 3},
        _ => doc! {"_id": 1, "l": [1, v, "s"], "z": [[], {}]},
    };
    let db = open();
    let c = coll(&db, "c");
    c.insert_one(d.clone()).unwrap();
    stored(&c, &d, "a document reads back as it was stored");
    vf::cover("value");
}

/// a document given without _id gets one; everything else is kept as given
fn keyless(d: Document) {
    let db = open();
    let c = coll(&db, "c");
    let id = if vf::pick(2, "many") == 0 { c.insert_one(d.clone()).unwrap().inserted_id } else {
        let r = c.insert_many(vec![doc! {"_id": 0}, d.clone()]).unwrap();
        r.inserted_ids.get(&1).unwrap().clone()
    };
    vf::check(id.as_object_id().is_some(), "a document without _id gets an ObjectId");
    let got = find(&c, doc! {"_id": id}).unwrap();
    vf::check(got.len() == 1, "a document without _id is found under the one it got");
    // the order of the remaining fields is the one given
    let g: Document = got[0].iter().filter(|(k, _)| *k != "_id").map(|(k, v)| (k.clone(), v.clone())).collect();
    vf::check(same_doc(&g, &d), "a document given without _id keeps all its fields");
    vf::cover("keyless");
}

/// shapes, sizes and field names; other writes in between
fn shapes(_tier: u64) {
    let (v, w) = (vf::any_i64("v"), vf::any_f64("w"));
    let d = match vf::pick(9, "shape") {
        0 => doc! {"_id": 1, "": v, " ": w, "a.b": 1, "_ID": 3},
        1 => doc! {"b": v, "a": w, "_id": 1, "c": {"b": 1, "a": v}},
        2 => doc! {"_id": 1, "\u{e9}\u{4e2d}": v, "$x": w},
        3 => doc! {"_id": 1, "d": {"d": {"d": {"d": {"d": {"d": [v, [w, [v, {"e": w}]]]}}}}}},
        4 => { let mut d = doc! {"_id": 1}; for i in 0..40 { d.insert(format!("f{}", i), if i == 20 { Bson::Int64(v) } else { Bson::Int32(i) }); } d }
        5 => doc! {"_id": 1, "l": (0..50).map(|i| if i == 49 { Bson::Double(w) } else { Bson::Int32(i) }).collect::<Vec<_>>()},
        6 => doc! {"_id": 1, "s": "x".repeat(3000), "v": v},
        7 => doc! {"_id": 1, "v": {"$numberLong": v, "$oid": "x"}},
        _ => doc! {"_id": 1},
    };
    let db = open();
    let c = coll(&db, "c");
    let many = vf::pick(2, "many") == 1;
    if d.get_document("v").is_ok() && { c.insert_one(d.clone()).unwrap(); c.find_one(doc! {"_id": 1}).is_err() } {
        vf::check(false, "[K:EXTJSON] a document holding a subdocument with a key of extended JSON cannot be read back");
    }
    if d.get_document("v").is_ok() { c.delete_one(doc! {"_id": 1}).unwrap(); }
    if many { c.insert_many(vec![doc! {"_id": 0, "v": v}, d.clone(), doc! {"_id": 2, "w": w}]).unwrap(); } else { c.insert_one(d.clone()).unwrap(); }
    stored(&c, &d, "a document reads back as it was stored");
    // writes to other documents
    c.insert_one(doc! {"_id": 9, "v": v}).unwrap();
    c.update_many(doc! {"_id": 9}, doc! {"$set": {"v": 0, "w": w}}).unwrap();
    c.delete_one(doc! {"_id": 9}).unwrap();
    stored(&c, &d, "writes to other documents leave a document as it was");
    vf::cover("shape");
}

/// closing and reopening the database
fn reopen(_tier: u64) {
    let k = vf::pick(T.len(), "kind");
    let v = value(T[k], "v");
    let i = vf::any_i32("id");
    let d = doc! {"a": v, "_id": i, "z": {"y": 1}};
    let db = open();
    match vf::pick(3, "how") {
        0 => { coll(&db, "c").insert_one(d.clone()).unwrap(); }
        1 => {
            let t = db.start_transaction().unwrap();
            t.collection::<Document>("c").insert_one(d.clone()).unwrap();
            t.commit().unwrap();
        }
        _ => {
            coll(&db, "c").insert_one(doc! {"a": d.get("a").unwrap().clone(), "_id": i}).unwrap();
            coll(&db, "c").update_one(doc! {"_id": i}, doc! {"$set": {"z": {"y": 1}}}).unwrap();
        }
    }
    drop(db);
    let db = open();
    stored(&coll(&db, "c"), &d, "a document is the same after the database is reopened");
    vf::check(db.list_collection_names().unwrap() == vec!["c".to_string()], "collections are the same after the database is reopened");
    vf::check(coll(&db, "c").insert_one(doc! {"_id": i}).is_err(), "keys stay taken after the database is reopened");
    vf::cover("reopened");
}

#[derive(serde::Serialize, serde::Deserialize, PartialEq, Clone)]
struct Rec { _id: i32, a: Option<i64>, b: bool, l: Vec<i32>, n: Inner, s: String }
#[derive(serde::Serialize, serde::Deserialize, PartialEq, Clone)]
struct Inner { x: i32, e: En }
#[derive(serde::Serialize, serde::Deserialize, PartialEq, Clone)]
enum En { A, B(i32), C { y: i64 } }

/// typed collections
fn typed(_tier: u64) {
    let e = match vf::pick(3, "variant") { 0 => En::A, 1 => En::B(vf::any_i32("e")), _ => En::C { y: vf::any_i64("y") } };
    let r = Rec {
        _id: vf::any_i32("id"), a: if vf::pick(2, "some") == 1 { Some(vf::any_i64("a")) } else { None }, b: vf::any_bool("b"),
        l: (0..vf::pick(3, "len")).map(|_| vf::any_i32("l")).collect(), n: Inner { x: vf::any_i32("x"), e }, s: vf::ascii(2, 0, 0x7f, "s"),
    };
    let db = open();
    let c = db.collection::<Rec>("c");
    c.insert_one(&r).unwrap();
    let got: Vec<Rec> = c.find(doc! {}).run().unwrap().map(|d| d.unwrap()).collect();
    vf::check(got.len() == 1 && got[0] == r, "a typed record reads back as it was stored");
    vf::check(c.find_one(doc! {"b": r.b}).unwrap() == Some(r), "a typed record reads back as it was stored");
    vf::cover("typed");
}

/// sizes around the limits of one- and two-byte lengths, and many documents
fn large(tier: u64) {
    let v = vf::any_i64("v");
    let db = open();
    let c = coll(&db, "c");
    let d = match vf::pick(8, "shape") {
        0 => doc! {"_id": 1, "s": "x".repeat(127), "v": v},
        1 => doc! {"_id": 1, "s": "x".repeat(128), "v": v},
        2 => doc! {"_id": 1, "s": "x".repeat(255), "t": "y".repeat(256), "v": v},
        3 => doc! {"_id": 1, "v": v, "s": "x".repeat(65_535), "t": "y".repeat(65_536)},
        4 => doc! {"_id": "k".repeat(300), "v": v},
        5 => doc! {"_id": 1, "l": (0..if tier == 0 { 300 } else { 1100 }).map(|i| if i == 299 { Bson::Int64(v) } else { Bson::Int32(i) }).collect::<Vec<_>>()},
        6 => { let mut d = doc! {"v": v}; for _ in 0..40 { d = doc! {"d": d}; } d.insert("_id", 1); d }
        _ => {
            c.insert_many(crowd(1050, v)).unwrap();
            vf::check(same_docs(&all(&c), &crowd(1050, v)), "a document reads back as it was stored");
            vf::cover("large");
            return
        }
    };
    c.insert_one(d.clone()).unwrap();
    stored(&c, &d, "a document reads back as it was stored");
}
