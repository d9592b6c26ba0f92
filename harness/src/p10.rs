//! P10: a regular expression selects the strings it matches.
use crate::vf;
use crate::gen::*;
use polodb_core::bson::{doc, Bson, Document, Regex};
use polodb_core::CollectionT;

harness! { TABLE; h_p10_match => matches; h_p10_forms => forms; h_p10_types => types; h_p10_bad => bad; }

fn rx(p: &str, o: &str) -> Bson { Bson::RegularExpression(Regex { pattern: p.into(), options: o.into() }) }
fn low(b: u8) -> u8 { if b >= b'A' && b <= b'Z' { b + 32 } else { b } }
fn word(b: u8) -> bool { b == b'_' || (b >= b'0' && b <= b'9') || (low(b) >= b'a' && low(b) <= b'z') }

/// pattern, options and their meaning on a byte string
type Case = (&'static str, &'static str, fn(&[u8]) -> bool);
const CASES: [Case; 32] = [
    ("a", "", |s| s.iter().any(|b| *b == b'a')),
    ("^a", "", |s| s.first() == Some(&b'a')),
    ("a$", "", |s| s.last() == Some(&b'a')),
    ("^a$", "", |s| s == b"a"),
    ("^$", "", |s| s.is_empty()),
    ("", "", |_| true),
    ("\"", "", |s| s.iter().any(|b| *b == b'"')),
    ("ab", "", |s| s.windows(2).any(|w| w == b"ab")),
    ("^a?b$", "", |s| s == b"b" || s == b"ab"),
    ("[a-c]+$", "", |s| matches!(s.last(), Some(b'a'..=b'c'))),
    ("^[^x]", "", |s| matches!(s.first(), Some(b) if *b != b'x')),
    ("a|^b", "", |s| s.iter().any(|b| *b == b'a') || s.first() == Some(&b'b')),
    ("^\\d\\w$", "", |s| s.len() == 2 && s[0] >= b'0' && s[0] <= b'9' && word(s[1])),
    ("^.$", "", |s| s.len() == 1 && s[0] != b'\n'),
    ("^.$", "s", |s| s.len() == 1),
    ("a", "i", |s| s.iter().any(|b| low(*b) == b'a')),
    ("^aB$", "i", |s| s.len() == 2 && low(s[0]) == b'a' && low(s[1]) == b'b'),
    ("^a", "m", |s| s.first() == Some(&b'a') || s.windows(2).any(|w| w == b"\na")),
    ("a$", "m", |s| s.last() == Some(&b'a') || s.windows(2).any(|w| w == b"a\n")),
    (" a b", "x", |s| s.windows(2).any(|w| w == b"ab")),
    ("^ a . $", "xis", |s| s.len() == 2 && low(s[0]) == b'a'),
    ("a\\n", "", |s| s.windows(2).any(|w| w == b"a\n")),
    ("^ ", "", |s| s.first() == Some(&b' ')),
    ("\\s$", "", |s| matches!(s.last(), Some(9..=13) | Some(b' '))),
    ("^b$", "ms", |s| s.split(|b| *b == b'\n').any(|l| l == b"b")),
    ("a.", "sm", |s| s.len() > 1 && s[..s.len() - 1].contains(&b'a')),
    ("^.a$", "ms", |s| (0..s.len()).any(|i| (i == 0 || s[i - 1] == b'\n') && i + 1 < s.len() && s[i + 1] == b'a' && (i + 2 == s.len() || s[i + 2] == b'\n'))),
    ("^a$", "im", |s| s.split(|b| *b == b'\n').any(|l| l.len() == 1 && low(l[0]) == b'a')),
    ("a+", "U", |s| s.iter().any(|b| *b == b'a')),
    ("^ a # b", "xm", |s| s.split(|b| *b == b'\n').any(|l| l.first() == Some(&b'a'))),
    ("^A.b$", "si", |s| s.len() == 3 && low(s[0]) == b'a' && low(s[2]) == b'b'),
    ("^a.$", "im", |s| (s.len() == 2 && low(s[0]) == b'a' && s[1] != b'\n')),
];
/// every ASCII string up to the bound against every pattern
fn matches(tier: u64) {
    let (p, o, m) = CASES[vf::pick(CASES.len(), "pattern")];
    let n = vf::pick(if tier == 0 { 3 } else { 4 }, "length");
    let s = vf::ascii(n, 0, 0x7f, "s");
    let w = m(s.as_bytes());
    let db = open();
    let c = coll(&db, "c");
    c.insert_one(doc! {"_id": 1, "x": s}).unwrap();
    let f = match vf::pick(2, "form") { 0 => doc! {"x": {"$regex": rx(p, o)}}, _ => doc! {"x": {"$in": [rx(p, o)]}} };
    let r = find(&c, f).unwrap();
    vf::cover(if w { "matches" } else { "does not match" });
    vf::check(r.len() == w as usize, "a regular expression selects exactly the strings it matches");
}
/// one expression in every place of a filter, over several documents
fn forms(_tier: u64) {
    let (s, t) = (vf::ascii(2, 0x20, 0x7f, "s"), vf::ascii(1, 0x20, 0x7f, "t"));
    let v = vf::any_i32("v");
    let docs = vec![doc! {"_id": 1, "x": s.clone(), "y": 1}, doc! {"_id": 2, "x": t.clone(), "y": 2}, doc! {"_id": 3, "e": {"x": s.clone()}}, doc! {"_id": 4, "x": 5}];
    let (a, b) = (s.as_bytes()[0] == b'q', t.as_bytes()[0] == b'q');
    let r = rx("^q", "");
    let (f, w): (Document, [bool; 4]) = match vf::pick(11, "form") {
        0 => (doc! {"x": {"$regex": r}}, [a, b, false, false]),
        1 => (doc! {"x": {"$not": {"$regex": r}}}, [!a, !b, false, true]),
        2 => (doc! {"x": {"$in": [r, 5]}}, [a, b, false, true]),
        3 => (doc! {"x": {"$nin": [r]}}, [!a, !b, true, true]),
        4 => (doc! {"x": {"$all": [r]}}, [a, b, false, false]),
        5 => (doc! {"e.x": {"$regex": r}}, [false, false, a, false]),
        6 => (doc! {"x": {"$regex": r}, "y": v}, [a && v == 1, b && v == 2, false, false]),
        7 => (doc! {"$or": [{"x": {"$regex": r.clone()}}, {"e.x": {"$regex": r}}]}, [a, b, a, false]),
        8 => (doc! {"$and": [{"x": {"$regex": r}}, {"_id": {"$gt": v}}]}, [a && 1 > v, b && 2 > v, false, false]),
        9 => (doc! {"x": {"$regex": r, "$ne": t.clone()}}, [a, false, false, false]),
        _ => (doc! {"x": {"$ne": t.clone(), "$regex": rx("^.q", "")}}, [s.as_bytes()[1] == b'q', false, false, false]),
    };
    let db = open();
    let c = coll(&db, "c");
    c.insert_many(docs.clone()).unwrap();
    vf::cover(["none", "some", "some", "some", "some"][w.iter().filter(|w| **w).count()]);
    let want: Vec<Document> = docs.iter().zip(w).filter(|x| x.1).map(|x| x.0.clone()).collect();
    match vf::pick(3, "how") {
        0 => vf::check(same_docs(&find(&c, f).unwrap(), &want), "a filter with a regular expression selects exactly the matching documents"),
        1 => {
            let r = c.update_many(f, doc! {"$set": {"y": 9}}).unwrap();
            let m: Vec<Document> = find(&c, doc! {"y": 9}).unwrap();
            vf::check(r.matched_count == want.len() as u64 && ids(&m) == ids(&want), "an update with a regular expression reaches exactly the matching documents");
        }
        _ => {
            let r = c.delete_many(f).unwrap();
            vf::check(r.deleted_count == want.len() as u64 && all(&c).len() == 4 - want.len(), "a delete with a regular expression removes exactly the matching documents");
        }
    }
}
/// only strings, symbols and arrays holding them are matched
fn types(_tier: u64) {
    let s = vf::ascii(1, 0, 0x7f, "s");
    let q = s.as_bytes()[0] == b'1';
    let (v, w) = match vf::pick(12, "value") {
        0 => (Bson::Symbol(s), q),
        1 => (Bson::Array(vec![Bson::Int32(1), Bson::String(s)]), q),
        2 => (Bson::Array(vec![Bson::Symbol(s), Bson::Null]), q),
        3 => (Bson::Array(vec![Bson::Array(vec![Bson::String("1".into())])]), false),
        4 => (Bson::Int32(1), false),
        5 => (Bson::Double(1.5), false),
        6 => (Bson::Null, false),
        7 => (Bson::Document(doc! {"x": "1"}), false),
        8 => (Bson::JavaScriptCode("1".into()), false),
        9 => (Bson::ObjectId(oid("o")), false),
        10 => (Bson::Array(vec![]), false),
        _ => (Bson::Boolean(true), false),
    };
    let db = open();
    let c = coll(&db, "c");
    c.insert_one(doc! {"_id": 1, "x": v}).unwrap();
    let f = match vf::pick(3, "form") { 0 => doc! {"x": {"$regex": rx("1", "")}}, 1 => doc! {"x": {"$in": [rx("1", "")]}}, _ => doc! {"x": {"$all": [rx("1", "")]}} };
    vf::cover("types");
    vf::check(find(&c, f).unwrap().len() == w as usize, "a regular expression matches only strings");
}
/// an invalid expression, an unknown option or another type is an error
fn bad(_tier: u64) {
    let db = open();
    let c = coll(&db, "c");
    c.insert_one(doc! {"_id": 1, "x": "a"}).unwrap();
    let o = vf::ascii(1, 0x20, 0x7f, "option");
    let k = vf::pick(6, "expression");
    if k == 5 {
        // unknown options
        let b = o.as_bytes()[0];
        let known = matches!(b, b'i' | b'm' | b's' | b'u' | b'U' | b'x');
        let r = find(&c, doc! {"x": {"$regex": rx("a", &o)}});
        vf::check(r.is_ok() == known, "an unknown option is refused, a known one is not");
        vf::cover(if known { "known option" } else { "refused" });
        return
    }
    let v = [rx("(", ""), rx("[b-a]", ""), rx("*", ""), Bson::String("a".into()), Bson::Int32(1)][k].clone();
    let f = match vf::pick(3, "form") { 0 => doc! {"x": {"$regex": v}}, 1 => doc! {"x": {"$not": {"$regex": v}}}, _ => doc! {"$or": [{"x": {"$regex": v}}, {"x": "a"}]} };
    vf::check(find(&c, f.clone()).is_err(), "an invalid expression is refused");
    vf::check(c.delete_many(f).is_err() && all(&c).len() == 1, "an invalid expression is refused");
    vf::cover("refused");
}
