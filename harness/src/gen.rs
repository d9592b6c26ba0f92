//! Symbolic values and documents, and independent reference semantics.
#![allow(dead_code)]
use crate::vf;
use polodb_core::bson::{Bson, Document, doc, oid::ObjectId, DateTime, Binary, spec::BinarySubtype, Timestamp};
use polodb_core::{Database, Collection, CollectionT};
use std::cmp::Ordering;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ty { Null, Bool, I32, I64, F64, F64S, Str0, Str1, Str2, Oid, Date, Bin1, Ts, Sym1 }

pub const DATES: [i64; 5] = [i64::MIN, -1, 0, 1_700_000_000_123, i64::MAX];

pub fn value(t: Ty, n: &str) -> Bson {
    match t {
        Ty::Null => Bson::Null,
        Ty::Bool => Bson::Boolean(vf::any_bool(n)),
        Ty::I32 => Bson::Int32(vf::any_i32(n)),
        Ty::I64 => Bson::Int64(vf::any_i64(n)),
        Ty::F64 => Bson::Double(vf::any_f64(n)),
        Ty::F64S => Bson::Double(f64_short(n)),
        Ty::Str0 => Bson::String(String::new()),
        Ty::Str1 => Bson::String(vf::ascii(1, 1, 0x7f, n)),
        Ty::Str2 => Bson::String(vf::ascii(2, 1, 0x7f, n)),
        Ty::Sym1 => Bson::Symbol(vf::ascii(1, 1, 0x7f, n)),
        Ty::Oid => Bson::ObjectId(oid(n)),
        // the serde path renders a date as decimal text and parses it back:
        // fixed instants keep that text concrete
        Ty::Date => Bson::DateTime(DateTime::from_millis(DATES[vf::pick(DATES.len(), n)])),
        Ty::Bin1 => Bson::Binary(Binary { subtype: BinarySubtype::Generic, bytes: vec![vf::any_u8(n)] }),
        Ty::Ts => Bson::Timestamp(Timestamp { time: vf::any_u32(n), increment: vf::any_u32(n) }),
    }
}
/// object id whose first and last bytes take two values each (the serde path
/// renders object ids as hex text; wider bytes make that text expensive)
pub fn oid(n: &str) -> ObjectId {
    let mut b = [7u8; 12];
    b[0] = if vf::any_bool(n) { 0x92 } else { 0x15 };
    b[11] = if vf::any_bool(n) { 0xf0 } else { 0x03 };
    ObjectId::from_bytes(b)
}
/// double with symbolic sign, exponent, the top 4 and the last mantissa bits
pub fn f64_short(n: &str) -> f64 {
    let v = vf::any_u64(n);
    vf::assume(v & 0x0000_ffff_ffff_fffe == 0);
    f64::from_bits(v)
}

/// exact comparison of an integer with a double (None: NaN)
pub fn cmp_int_f64(i: i64, d: f64) -> Option<Ordering> {
    if d != d { return None }
    if d >= 9223372036854775808.0 { return Some(Ordering::Less) }
    if d < -9223372036854775808.0 { return Some(Ordering::Greater) }
    // |d| < 2^63: truncation is exact as an integer
    let t = d as i64;
    if i < t { return Some(Ordering::Less) }
    if i > t { return Some(Ordering::Greater) }
    let f = t as f64; // exact: t came from a double
    if d > f { Some(Ordering::Less) } else if d < f { Some(Ordering::Greater) } else { Some(Ordering::Equal) }
}

/// Reference comparison inside one comparable class; None: not comparable
/// (different classes, or a NaN is involved).
pub fn ref_cmp(a: &Bson, b: &Bson) -> Option<Ordering> {
    match (a, b) {
        (Bson::Null, Bson::Null) => Some(Ordering::Equal),
        (Bson::Boolean(x), Bson::Boolean(y)) => Some(ord(*x < *y, *x == *y)),
        (Bson::Int32(x), Bson::Int32(y)) => Some(ord(*x < *y, *x == *y)),
        (Bson::Int32(x), Bson::Int64(y)) => Some(ord((*x as i64) < *y, *x as i64 == *y)),
        (Bson::Int64(x), Bson::Int32(y)) => Some(ord(*x < *y as i64, *x == *y as i64)),
        (Bson::Int64(x), Bson::Int64(y)) => Some(ord(*x < *y, *x == *y)),
        (Bson::Int32(x), Bson::Double(y)) => cmp_int_f64(*x as i64, *y),
        (Bson::Int64(x), Bson::Double(y)) => cmp_int_f64(*x, *y),
        (Bson::Double(x), Bson::Int32(y)) => cmp_int_f64(*y as i64, *x).map(|o| o.reverse()),
        (Bson::Double(x), Bson::Int64(y)) => cmp_int_f64(*y, *x).map(|o| o.reverse()),
        (Bson::Double(x), Bson::Double(y)) => if x != x || y != y { None } else { Some(ord(x < y, x == y)) },
        (Bson::String(x), Bson::String(y)) => Some(bytes_cmp(x.as_bytes(), y.as_bytes())),
        (Bson::ObjectId(x), Bson::ObjectId(y)) => Some(bytes_cmp(&x.bytes(), &y.bytes())),
        (Bson::DateTime(x), Bson::DateTime(y)) => Some(ord(x.timestamp_millis() < y.timestamp_millis(), x.timestamp_millis() == y.timestamp_millis())),
        (Bson::Binary(x), Bson::Binary(y)) => Some(bytes_cmp(&x.bytes, &y.bytes)),
        _ => None,
    }
}
fn ord(lt: bool, eq: bool) -> Ordering {
    if lt { Ordering::Less } else if eq { Ordering::Equal } else { Ordering::Greater }
}
pub fn bytes_cmp(a: &[u8], b: &[u8]) -> Ordering {
    let n = if a.len() < b.len() { a.len() } else { b.len() };
    let mut i = 0;
    while i < n {
        if a[i] < b[i] { return Ordering::Less }
        if a[i] > b[i] { return Ordering::Greater }
        i += 1;
    }
    ord(a.len() < b.len(), a.len() == b.len())
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Op { Plain, Eq, Ne, Gt, Gte, Lt, Lte }
pub const OPS: [Op; 7] = [Op::Plain, Op::Eq, Op::Ne, Op::Gt, Op::Gte, Op::Lt, Op::Lte];

pub fn cond(op: Op, v: Bson) -> Bson {
    match op {
        Op::Plain => v,
        Op::Eq => Bson::Document(doc! {"$eq": v}),
        Op::Ne => Bson::Document(doc! {"$ne": v}),
        Op::Gt => Bson::Document(doc! {"$gt": v}),
        Op::Gte => Bson::Document(doc! {"$gte": v}),
        Op::Lt => Bson::Document(doc! {"$lt": v}),
        Op::Lte => Bson::Document(doc! {"$lte": v}),
    }
}
pub fn holds(op: Op, o: Ordering) -> bool {
    match op {
        Op::Plain | Op::Eq => o == Ordering::Equal,
        Op::Ne => o != Ordering::Equal,
        Op::Gt => o == Ordering::Greater,
        Op::Gte => o != Ordering::Less,
        Op::Lt => o == Ordering::Less,
        Op::Lte => o != Ordering::Greater,
    }
}

/// Structural equality that compares doubles by bits.
pub fn same(a: &Bson, b: &Bson) -> bool {
    match (a, b) {
        (Bson::Double(x), Bson::Double(y)) => x.to_bits() == y.to_bits(),
        (Bson::Document(x), Bson::Document(y)) => same_doc(x, y),
        (Bson::Array(x), Bson::Array(y)) => x.len() == y.len() && x.iter().zip(y.iter()).all(|(p, q)| same(p, q)),
        _ => a == b,
    }
}
pub fn same_doc(a: &Document, b: &Document) -> bool {
    a.len() == b.len() && a.iter().zip(b.iter()).all(|((k, v), (l, w))| k == l && same(v, w))
}
pub fn same_docs(a: &[Document], b: &[Document]) -> bool {
    a.len() == b.len() && a.iter().zip(b.iter()).all(|(x, y)| same_doc(x, y))
}

pub fn open() -> Database { Database::open_path(crate::store::dir(0)).unwrap() }
pub fn coll(db: &Database, n: &str) -> Collection<Document> { db.collection::<Document>(n) }

/// all documents a find returns, or the error text
pub fn find(c: &Collection<Document>, q: Document) -> Result<Vec<Document>, String> {
    let mut out = vec![];
    let cur = match c.find(q).run() { Ok(c) => c, Err(e) => return Err(e.to_string()) };
    for d in cur {
        match d { Ok(d) => out.push(d), Err(e) => return Err(e.to_string()) }
    }
    Ok(out)
}
pub fn all(c: &Collection<Document>) -> Vec<Document> { find(c, doc! {}).unwrap() }
/// the `_id`s (int32) a find returned
pub fn ids(v: &[Document]) -> Vec<i32> { v.iter().map(|d| d.get("_id").and_then(|b| b.as_i32()).unwrap_or(i32::MIN)).collect() }

/// Filter with an independent meaning.
#[derive(Clone)]
pub enum Q {
    C(&'static str, Op, Bson),
    /// several operators on one field
    M(&'static str, Vec<(Op, Bson)>),
    /// { f: { $not: { ops } } }
    N(&'static str, Vec<(Op, Bson)>),
    /// { f: { $not: { $not: { op } } } }
    NN(&'static str, Op, Bson),
    And(Vec<Q>),
    Or(Vec<Q>),
    /// several entries of one document, in order
    D(Vec<Q>),
}
fn opname(o: Op) -> &'static str {
    match o { Op::Plain | Op::Eq => "$eq", Op::Ne => "$ne", Op::Gt => "$gt", Op::Gte => "$gte", Op::Lt => "$lt", Op::Lte => "$lte" }
}
fn ops_doc(v: &[(Op, Bson)]) -> Document {
    let mut d = Document::new();
    for (o, b) in v { d.insert(opname(*o), b.clone()); }
    d
}
impl Q {
    pub fn entry(&self, d: &mut Document) {
        match self {
            Q::C(f, o, v) => { d.insert(*f, cond(*o, v.clone())); }
            Q::M(f, v) => { d.insert(*f, ops_doc(v)); }
            Q::N(f, v) => { d.insert(*f, doc! {"$not": ops_doc(v)}); }
            Q::NN(f, o, v) => { d.insert(*f, doc! {"$not": {"$not": ops_doc(&[(*o, v.clone())])}}); }
            Q::And(v) => { d.insert("$and", v.iter().map(|q| Bson::Document(q.doc())).collect::<Vec<_>>()); }
            Q::Or(v) => { d.insert("$or", v.iter().map(|q| Bson::Document(q.doc())).collect::<Vec<_>>()); }
            Q::D(v) => for q in v { q.entry(d) },
        }
    }
    pub fn doc(&self) -> Document { let mut d = Document::new(); self.entry(&mut d); d }
    /// a document that lacks the field satisfies no condition on it
    pub fn eval(&self, d: &Document) -> bool {
        let one = |f: &str, o: Op, v: &Bson| match d.get(f) {
            None => false,
            Some(x) => match ref_cmp(x, v) { Some(c) => holds(o, c), None => o == Op::Ne },
        };
        match self {
            Q::C(f, o, v) => one(f, *o, v),
            Q::M(f, l) => l.iter().all(|(o, v)| one(f, *o, v)),
            Q::N(f, l) => d.contains_key(*f) && !l.iter().all(|(o, v)| one(f, *o, v)),
            Q::NN(f, o, v) => one(f, *o, v),
            Q::And(l) | Q::D(l) => l.iter().all(|q| q.eval(d)),
            Q::Or(l) => l.iter().any(|q| q.eval(d)),
        }
    }
}
/// the documents of `docs` that satisfy `q`, in order
pub fn select(q: &Q, docs: &[Document]) -> Vec<Document> { docs.iter().filter(|d| q.eval(d)).cloned().collect() }

/// ordinary index on one field
pub fn index(field: &str, unique: bool) -> polodb_core::IndexModel {
    polodb_core::IndexModel {
        keys: doc! {field: 1},
        options: if unique { Some(polodb_core::IndexOptions { name: None, unique: Some(true) }) } else { None },
    }
}
/// same documents in any order
pub fn same_set(a: &[Document], b: &[Document]) -> bool {
    a.len() == b.len() && a.iter().all(|x| b.iter().any(|y| same_doc(x, y))) && b.iter().all(|x| a.iter().any(|y| same_doc(x, y)))
}
pub fn names(db: &Database) -> Vec<String> { let mut v = db.list_collection_names().unwrap(); v.sort(); v }

/// `n` documents with varied concrete fields and one free value in all
pub fn crowd(n: i32, v: i64) -> Vec<Document> {
    (0..n).map(|i| doc! {"_id": i, "x": (i * 37) % 101, "u": n - i, "s": format!("{}s", (i * 7) % 13), "v": v}).collect()
}
