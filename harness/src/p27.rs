//! P27: line differences.
use crate::vf;
use polodb_line_diff::{diff, format_differences, line_diff};

harness! { TABLE;
    h_p27_texts => texts;
    h_p27_words => words;
    h_p27_split => split;
    h_p27_long => long;
    h_p27_spaces => spaces;
}

fn eq(a: &str, b: &str) -> bool { a.as_bytes() == b.as_bytes() }

struct Hunk { at: usize, plus: Vec<String>, minus: Vec<String> }

/// the printed form, colours removed
fn parse(out: &str) -> Vec<Hunk> {
    let b = out.as_bytes();
    let mut clean = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == 0x1b {
            while i < b.len() && b[i] != b'm' { i += 1 }
        } else {
            clean.push(b[i])
        }
        i += 1;
    }
    let clean = String::from_utf8(clean).unwrap();
    let mut v: Vec<Hunk> = vec![];
    for l in clean.lines() {
        if let Some(n) = l.strip_prefix("@@ ") {
            v.push(Hunk { at: n.parse().unwrap(), plus: vec![], minus: vec![] });
        } else if let Some(x) = l.strip_prefix("+ ") {
            match v.last_mut() { Some(h) => h.plus.push(x.to_string()), None => vf::check(false, "lines belong to a place") }
        } else if let Some(x) = l.strip_prefix("- ") {
            match v.last_mut() { Some(h) => h.minus.push(x.to_string()), None => vf::check(false, "lines belong to a place") }
        } else {
            vf::check(false, "every printed line is a place, an added or a removed line");
        }
    }
    v
}

fn judge(a: &[&str], b: &[&str], hunks: &[Hunk]) {
    let (mut i, mut j) = (0, 0);
    for h in hunks {
        vf::check(!(h.plus.is_empty() && h.minus.is_empty()), "every reported place has a difference");
        // added lines are numbered in the second text, removed ones alone in the first
        let done = if h.plus.is_empty() { i } else { j };
        vf::check(h.at >= 1 && h.at - 1 >= done, "places are reported in order");
        for _ in done..h.at - 1 {
            vf::check(i < a.len() && j < b.len() && eq(a[i], b[j]), "lines between reported places are equal");
            i += 1;
            j += 1;
        }
        for x in &h.minus {
            vf::check(i < a.len() && eq(a[i], x), "removed lines are the first text's at their place");
            i += 1;
        }
        for x in &h.plus {
            vf::check(j < b.len() && eq(b[j], x), "added lines are the second text's at their place");
            j += 1;
        }
    }
    vf::check(a.len() - i == b.len() - j, "every difference is reported");
    while i < a.len() && j < b.len() {
        vf::check(eq(a[i], b[j]), "every difference is reported");
        i += 1;
        j += 1;
    }
}

fn compare(a: &[&str], b: &[&str]) {
    let (s, t) = (a.join("\n"), b.join("\n"));
    let d = line_diff(&s, &t);
    let equal = vf::decide(eq(&s, &t));
    vf::check(d.is_empty() == equal, "nothing is reported exactly for equal texts");
    let hunks = parse(&format_differences(&d));
    vf::check(hunks.len() == d.len(), "every difference is printed");
    judge(a, b, &hunks);
    vf::cover(if equal { "equal" } else { "different" });
}

fn line(empty: bool) -> String {
    if empty && vf::pick(2, "empty line") == 1 { return String::new() }
    vf::ascii(1, b'a', b'c', "line")
}

/// all texts of few lines of one letter out of three
fn texts(t: u64) {
    let n = if t > 0 { 5 } else { 4 };
    let a: Vec<String> = (0..1 + vf::pick(n, "lines a")).map(|_| line(false)).collect();
    let b: Vec<String> = (0..1 + vf::pick(n, "lines b")).map(|_| line(false)).collect();
    let (a, b): (Vec<&str>, Vec<&str>) = (a.iter().map(|x| x.as_str()).collect(), b.iter().map(|x| x.as_str()).collect());
    compare(&a, &b);
}

/// lines of different lengths, empty ones, texts that end with a line break
fn words(_: u64) {
    let n = 3;
    let one = || -> String { let k = vf::pick(3, "length"); vf::ascii(k, b'a', b'b', "char") };
    let a: Vec<String> = (0..1 + vf::pick(n, "lines a")).map(|_| one()).collect();
    let b: Vec<String> = (0..1 + vf::pick(n, "lines b")).map(|_| one()).collect();
    let (a, b): (Vec<&str>, Vec<&str>) = (a.iter().map(|x| x.as_str()).collect(), b.iter().map(|x| x.as_str()).collect());
    compare(&a, &b);
}

/// lines of any printable characters, blanks and tabs
fn spaces(_: u64) {
    let one = |k: usize| -> String {
        let s = vf::ascii(k, 0x09, 0x7e, "char");
        for b in s.bytes() { vf::assume(b == 9 || b >= 0x20) }
        s
    };
    let (n, m) = (1 + vf::pick(2, "lines a"), 1 + vf::pick(2, "lines b"));
    let a: Vec<String> = (0..n).map(|_| { let k = 1 + vf::pick(2, "length"); one(k) }).collect();
    let b: Vec<String> = (0..m).map(|i| { let k = if i == 0 { 3 } else { 1 + vf::pick(2, "length") }; one(k) }).collect();
    let (a, b): (Vec<&str>, Vec<&str>) = (a.iter().map(|x| x.as_str()).collect(), b.iter().map(|x| x.as_str()).collect());
    compare(&a, &b);
}

/// another separator
fn split(_: u64) {
    let sep = [", ", "|"][vf::pick(2, "separator")];
    let a: Vec<String> = (0..1 + vf::pick(2, "parts a")).map(|_| line(true)).collect();
    let b: Vec<String> = (0..1 + vf::pick(3, "parts b")).map(|_| line(true)).collect();
    let (a, b): (Vec<&str>, Vec<&str>) = (a.iter().map(|x| x.as_str()).collect(), b.iter().map(|x| x.as_str()).collect());
    let (s, t) = (a.join(sep), b.join(sep));
    let d = diff(&s, &t, sep);
    vf::check(d.is_empty() == vf::decide(eq(&s, &t)), "nothing is reported exactly for equal texts");
    judge(&a, &b, &parse(&format_differences(&d)));
    vf::cover("separator");
}

/// a long text with lines changed, added and removed at free places
fn long(t: u64) {
    let n = if t > 0 { 30 } else { 20 };
    let a: Vec<String> = (0..n).map(|i| format!("line {}", i)).collect();
    let mut b = a.clone();
    for k in 0..2 {
        let at = vf::pick(b.len(), "place");
        match vf::pick(3, "edit") {
            0 => b[at] = vf::ascii(1, b'x', b'z', "new"),
            1 => b.insert(at, if k == 0 { "line 3".to_string() } else { "new".to_string() }),
            _ => { b.remove(at); }
        }
    }
    let (a, b): (Vec<&str>, Vec<&str>) = (a.iter().map(|x| x.as_str()).collect(), b.iter().map(|x| x.as_str()).collect());
    compare(&a, &b);
    vf::cover("long");
}
