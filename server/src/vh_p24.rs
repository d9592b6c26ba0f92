//! P24: the bytes of a connection and the messages read from and written to it.
use crate::vf;
use crate::wire::Message;
use bson::RawDocumentBuf;
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll, Waker};
use tokio::io::{AsyncRead, ReadBuf};

harness! { TABLE;
    h_p24_bytes => bytes;
    h_p24_sections => sections;
    h_p24_lengths => lengths;
    h_p24_query => query;
    h_p24_compressed => compressed;
    h_p24_split => split;
    h_p24_names => names;
    h_p24_big => big;
    h_p24_reply => reply;
    h_p24_write => write;
    h_p24_commands => commands;
    h_p24_values => values;
}

const MAX: i32 = 16 * 1024 * 1024;

/// No single allocation may exceed twice the largest legal message.
pub struct Limited;
unsafe impl std::alloc::GlobalAlloc for Limited {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        if l.size() > 2 * MAX as usize { return std::ptr::null_mut() }
        std::alloc::System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) { std::alloc::System.dealloc(p, l) }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        if l.size() > 2 * MAX as usize { return std::ptr::null_mut() }
        std::alloc::System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        if n > 2 * MAX as usize { return std::ptr::null_mut() }
        std::alloc::System.realloc(p, l, n)
    }
}
#[global_allocator]
static ALLOC: Limited = Limited;

/// the connection: bytes arrive in two pieces, then it ends
pub struct Wire<'a> { pub data: &'a [u8], pub at: usize, pub cut: usize }
impl<'a> AsyncRead for Wire<'a> {
    fn poll_read(mut self: Pin<&mut Self>, _: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<std::io::Result<()>> {
        let end = if self.at < self.cut { self.cut } else { self.data.len() };
        let n = std::cmp::min(end - self.at, buf.remaining());
        buf.put_slice(&self.data[self.at..self.at + n]);
        self.at += n;
        Poll::Ready(Ok(()))
    }
}

pub fn block<F: Future>(f: F) -> F::Output {
    let mut f = Box::pin(f);
    let mut c = Context::from_waker(Waker::noop());
    match f.as_mut().poll(&mut c) {
        Poll::Ready(v) => v,
        Poll::Pending => {
            vf::check(false, "a message whose bytes are all there is processed without waiting");
            loop {}
        }
    }
}

// ---- what the bytes mean, from the MongoDB wire protocol ------------------
struct Seq<'a> { name: &'a [u8], docs: Vec<&'a [u8]> }
struct Msg<'a> { request: i32, to: i32, flags: u32, doc: &'a [u8], seqs: Vec<Seq<'a>>, sum: Option<u32>, used: usize }

fn i32_at(b: &[u8], i: usize) -> Option<i32> {
    if b.len() < i + 4 { return None }
    Some((b[i] as u32 | (b[i + 1] as u32) << 8 | (b[i + 2] as u32) << 16 | (b[i + 3] as u32) << 24) as i32)
}
/// length of the document at the start of `b`
fn doc_len(b: &[u8]) -> Option<usize> {
    let n = i32_at(b, 0)?;
    if n < 5 || n as i64 > b.len() as i64 { return None }
    let n = vf::concretize(n as u64) as usize;
    if b[n - 1] != 0 { return None }
    Some(n)
}
fn body(b: &[u8]) -> Option<(u32, &[u8], Vec<Seq<'_>>, Option<u32>)> {
    let flags = i32_at(b, 0)? as u32;
    let (mut end, mut sum) = (b.len(), None);
    if flags & 1 != 0 {
        if end < 8 { return None }
        end -= 4;
        sum = Some(i32_at(b, end)? as u32);
    }
    let (mut at, mut doc, mut seqs) = (4, None, vec![]);
    while at < end {
        let kind = b[at];
        at += 1;
        if kind == 0 {
            let n = doc_len(&b[at..end])?;
            if doc.is_some() { return None }
            doc = Some(&b[at..at + n]);
            at += n;
        } else if kind == 1 {
            let n = i32_at(&b[..end], at)?;
            if n < 5 || n as i64 > (end - at) as i64 { return None }
            let n = vf::concretize(n as u64) as usize;
            let s = &b[at + 4..at + n];
            let mut i = 0;
            while i < s.len() && s[i] != 0 { i += 1 }
            if i == s.len() || std::str::from_utf8(&s[..i]).is_err() { return None }
            let name = &s[..i];
            let mut docs = vec![];
            i += 1;
            while i < s.len() {
                let k = doc_len(&s[i..])?;
                docs.push(&s[i..i + k]);
                i += k;
            }
            seqs.push(Seq { name, docs });
            at += n;
        } else {
            return None;
        }
    }
    Some((flags, doc?, seqs, sum))
}
fn spec(b: &[u8]) -> Option<Msg<'_>> {
    let len = i32_at(b, 0)?;
    let (request, to, op) = (i32_at(b, 4)?, i32_at(b, 8)?, i32_at(b, 12)?);
    if len < 16 || len > MAX || len as i64 > b.len() as i64 { return None }
    let used = vf::concretize(len as u64) as usize;
    let m = &b[16..used];
    if op == 2013 {
        let (flags, doc, seqs, sum) = body(m)?;
        return Some(Msg { request, to, flags, doc, seqs, sum, used });
    }
    if op == 2012 {
        if i32_at(m, 0)? != 2013 || m.len() < 9 || m[8] != 0 || i32_at(m, 4)? as i64 != m.len() as i64 - 9 { return None }
        let (flags, doc, seqs, sum) = body(&m[9..])?;
        return Some(Msg { request, to, flags, doc, seqs, sum, used });
    }
    if op == 2004 {
        let mut i = 4;
        while i < m.len() && m[i] != 0 { i += 1 }
        if i >= m.len() || i32_at(m, i + 1)? != 0 || i32_at(m, i + 5)? != -1 { return None }
        let n = doc_len(&m[i + 9..])?;
        return Some(Msg { request, to, flags: 0, doc: &m[i + 9..i + 9 + n], seqs: vec![], sum: None, used });
    }
    None
}

fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() { return false }
    let mut r = true;
    for i in 0..a.len() { r &= a[i] == b[i] }
    r
}

fn judge(b: &[u8], cut: usize) {
    let mut w = Wire { data: b, at: 0, cut };
    let got = block(Message::read_from(&mut w, Some(MAX)));
    let want = spec(b);
    match (got, want) {
        (Err(_), None) => vf::cover("refused"),
        (Ok(_), None) => vf::check(false, "bytes that do not encode a message are refused"),
        (Err(_), Some(_)) => vf::check(false, "a legal message is read"),
        (Ok(g), Some(m)) => {
            vf::cover("read");
            vf::check(g.request_id == Some(m.request) && g.response_to == m.to, "the ids of the header are those of the message");
            vf::check(g.flags.bits() & 0x10003 == m.flags & 0x10003, "the flags are those sent");
            vf::check(g.checksum == m.sum, "the checksum is the one sent");
            vf::check(same(g.document_payload.as_bytes(), m.doc), "the command document is the one sent");
            let mut ok = g.document_sequences.len() == m.seqs.len();
            if ok {
                for (x, y) in g.document_sequences.iter().zip(&m.seqs) {
                    ok &= same(x.identifier.as_bytes(), y.name) && x.documents.len() == y.docs.len();
                    if x.documents.len() == y.docs.len() {
                        for (p, q) in x.documents.iter().zip(&y.docs) { ok &= same(p.as_bytes(), q) }
                    }
                    vf::cover("sequence");
                }
            }
            vf::check(ok, "the document sequences are those sent");
            vf::check(w.at == m.used, "exactly the announced bytes are taken from the connection");
        }
    }
}

fn header(b: &mut Vec<u8>, len: i32, op: i32) {
    b.extend_from_slice(&len.to_le_bytes());
    b.extend_from_slice(&vf::any_i32("request").to_le_bytes());
    b.extend_from_slice(&vf::any_i32("response_to").to_le_bytes());
    b.extend_from_slice(&op.to_le_bytes());
}
fn fill(b: &mut Vec<u8>, n: usize) {
    for _ in 0..n { b.push(vf::any_u8("byte")) }
}

/// every body of up to N bytes under every operation code
fn bytes(t: u64) {
    let n = vf::pick(if t > 0 { 15 } else { 12 }, "size");
    let mut b = vec![];
    header(&mut b, 16 + n as i32, vf::any_i32("opcode"));
    fill(&mut b, n);
    judge(&b, 0);
}

fn int_doc(b: &mut Vec<u8>) {
    // {"a": int32}
    b.extend_from_slice(&[12, 0, 0, 0, 0x10, b'a', 0]);
    fill(b, 4);
    b.push(0);
}

/// sections of every kind in every order, sizes right or off
fn sections(t: u64) {
    let mut b = vec![];
    header(&mut b, 0, 2013);
    let flags = vf::any_u32("flags");
    b.extend_from_slice(&flags.to_le_bytes());
    let max = if t > 0 { 3 } else { 2 };
    let n = vf::pick(max + 1, "sections");
    let mut odd = vf::pick(1 + n, "wrong one");
    for _ in 0..n {
        let wrong = odd == 1;
        odd = odd.wrapping_sub(1);
        // how far a wrong size is off
        let off = if wrong { vf::concretize(vf::int_in(-3, 3, "off") as u64) as i64 } else { 0 };
        match vf::pick(4, "section") {
            0 => {
                b.push(0);
                let at = b.len();
                int_doc(&mut b);
                b[at] = (12 + off) as u8;
            }
            1 => {
                b.push(0);
                let at = b.len();
                b.extend_from_slice(&[5, 0, 0, 0, 0]);
                b[at] = (5 + off) as u8;
            }
            2 => {
                b.push(if wrong { vf::any_u8("kind") } else { 1 });
                let at = b.len();
                b.extend_from_slice(&[0, 0, 0, 0]);
                let k = vf::pick(if t > 0 { 3 } else { 2 }, "name");
                fill(&mut b, k);
                b.push(0);
                let d = vf::pick(if t > 0 { 3 } else { 2 }, "documents");
                for _ in 0..d { b.extend_from_slice(&[5, 0, 0, 0, 0]) }
                b[at] = ((b.len() - at) as i64 + off) as u8;
            }
            _ => {
                b.push(1);
                let at = b.len();
                b.extend_from_slice(&[0, 0, 0, 0, b'd', 0]);
                int_doc(&mut b);
                let d = b.len() - 12;
                if wrong { b[d] = (12 + off) as u8 }
                b[at] = (b.len() - at) as u8;
            }
        }
    }
    let k = [0, 4, 1, 5, 2, 3][vf::pick(if t > 0 { 6 } else { 3 }, "trailing")];
    fill(&mut b, k);
    let l = b.len() as i32;
    b[..4].copy_from_slice(&l.to_le_bytes());
    judge(&b, 0);
    vf::cover("sections");
}

/// every length in the header and in front of documents and sections
fn lengths(_: u64) {
    let mut b = vec![];
    header(&mut b, 0, 2013);
    b.extend_from_slice(&[0, 0, 0, 0, 0]);
    int_doc(&mut b);
    b.push(1);
    b.extend_from_slice(&[10, 0, 0, 0, b'd', 0]);
    b.extend_from_slice(&[5, 0, 0, 0, 0]);
    let total = b.len() as i32;
    b[34] = 11;
    b[..4].copy_from_slice(&total.to_le_bytes());
    // the next message
    fill(&mut b, 3);
    let at = [0usize, 21, 34, 40][vf::pick(4, "which")];
    let v = match vf::pick(5, "class") {
        0 => { let v = vf::any_i32("negative"); vf::assume(v < 0); v }
        1 => { let v = vf::any_i32("large"); vf::assume(v > MAX); v }
        2 => vf::concretize(vf::int_in(0, 60, "small") as u64) as i32,
        3 => MAX,
        _ => vf::concretize(vf::int_in(61, 70, "beyond") as u64) as i32 * [1, 1000, 200000][vf::pick(3, "scale")],
    };
    b[at..at + 4].copy_from_slice(&v.to_le_bytes());
    judge(&b, 0);
    vf::cover("lengths");
}

fn query(t: u64) {
    let mut b = vec![];
    header(&mut b, 0, 2004);
    fill(&mut b, 4);
    let k = vf::pick(if t > 0 { 4 } else { 3 }, "name");
    fill(&mut b, k);
    b.push(0);
    b.extend_from_slice(&vf::any_i32("skip").to_le_bytes());
    b.extend_from_slice(&vf::any_i32("return").to_le_bytes());
    let at = b.len();
    int_doc(&mut b);
    b[at] = vf::concretize(vf::int_in(0, 20, "doc size") as u64) as u8;
    let k = vf::pick(4, "trailing");
    fill(&mut b, k);
    let cut = vf::pick(10, "missing");
    for _ in 0..cut { b.pop(); }
    let l = b.len() as i32;
    b[..4].copy_from_slice(&l.to_le_bytes());
    judge(&b, 0);
}

fn compressed(_: u64) {
    let mut b = vec![];
    header(&mut b, 0, 2012);
    b.extend_from_slice(&vf::any_i32("original").to_le_bytes());
    b.extend_from_slice(&vf::any_i32("uncompressed size").to_le_bytes());
    b.push(vf::any_u8("compressor"));
    b.extend_from_slice(&vf::any_u32("flags").to_le_bytes());
    b.push(0);
    int_doc(&mut b);
    let k = vf::pick(6, "trailing");
    fill(&mut b, k);
    let cut = vf::pick(20, "missing");
    if k > 0 { vf::assume(cut == 0) }
    for _ in 0..cut { b.pop(); }
    let l = b.len() as i32;
    b[..4].copy_from_slice(&l.to_le_bytes());
    judge(&b, 0);
}

/// the connection delivers a message in pieces, or ends within it
fn split(_: u64) {
    let mut b = vec![];
    match vf::pick(3, "operation") {
        0 => {
            header(&mut b, 0, 2013);
            b.extend_from_slice(&[0, 0, 0, 0, 0]);
            int_doc(&mut b);
            b.push(1);
            b.extend_from_slice(&[11, 0, 0, 0, b'd', 0]);
            b.extend_from_slice(&[5, 0, 0, 0, 0]);
        }
        1 => {
            header(&mut b, 0, 2012);
            b.extend_from_slice(&2013i32.to_le_bytes());
            b.extend_from_slice(&[17, 0, 0, 0, 0, 0, 0, 0, 0, 0]);
            int_doc(&mut b);
        }
        _ => {
            header(&mut b, 0, 2004);
            b.extend_from_slice(&[0, 0, 0, 0, b'd', b'.', b'c', 0, 0, 0, 0, 0, 255, 255, 255, 255]);
            int_doc(&mut b);
        }
    }
    let l = b.len();
    b[..4].copy_from_slice(&(l as i32).to_le_bytes());
    if vf::pick(2, "how") == 0 {
        judge(&b, vf::pick(l, "cut"));
        vf::cover("in pieces");
    } else {
        b.truncate(vf::pick(l, "ends"));
        judge(&b, 0);
        vf::cover("ends within");
    }
}

/// names of collections and sequences of every length up to a few hundred bytes
fn names(t: u64) {
    let n = [0, 1, 16, 64, 128, 255, 300, 15, 31, 32, 63, 65, 100, 127, 129, 200, 256, 1000, 4096, 5000][vf::pick(if t > 0 { 20 } else { 7 }, "length")];
    let mut name = vec![b'n'; n];
    // two free bytes anywhere
    if n > 0 {
        let at = [0, n / 2, n - 1][vf::pick(3, "where")];
        name[at] = vf::any_u8("char");
    }
    let mut b = vec![];
    if vf::pick(2, "operation") == 0 {
        header(&mut b, 0, 2004);
        b.extend_from_slice(&[0, 0, 0, 0]);
        b.extend_from_slice(&name);
        b.push(0);
        b.extend_from_slice(&[0, 0, 0, 0, 255, 255, 255, 255]);
        int_doc(&mut b);
    } else {
        header(&mut b, 0, 2013);
        b.extend_from_slice(&[0, 0, 0, 0, 1]);
        b.extend_from_slice(&(n as i32 + 10).to_le_bytes());
        b.extend_from_slice(&name);
        b.extend_from_slice(&[0, 5, 0, 0, 0, 0, 0]);
        int_doc(&mut b);
    }
    let l = b.len();
    b[..4].copy_from_slice(&(l as i32).to_le_bytes());
    judge(&b, 0);
    vf::cover("names");
}

/// documents with strings of every length class, of kilobytes, in both kinds of section
fn big(t: u64) {
    let n = [10usize, 100, 127, 128, 255, 256, 1000, 4095, 4096, 8192, 20000, 70000][vf::pick(if t > 0 { 12 } else { 10 }, "length")];
    let mut d = vec![];
    d.extend_from_slice(&((n + 13) as i32).to_le_bytes());
    d.extend_from_slice(&[2, b's', 0]);
    d.extend_from_slice(&((n + 1) as i32).to_le_bytes());
    for i in 0..n { d.push(if i == n / 2 { let c = vf::any_u8("char"); vf::assume(c < 0x80); c } else { b'x' }) }
    d.extend_from_slice(&[0, 0]);
    let mut b = vec![];
    header(&mut b, 0, 2013);
    b.extend_from_slice(&[0, 0, 0, 0]);
    if vf::pick(2, "section") == 0 {
        b.push(0);
        b.extend_from_slice(&d);
    } else {
        b.push(0);
        int_doc(&mut b);
        b.push(1);
        let k = 1 + vf::pick(3, "documents");
        b.extend_from_slice(&((k * d.len() + 6) as i32).to_le_bytes());
        b.extend_from_slice(&[b'd', 0]);
        for _ in 0..k { b.extend_from_slice(&d) }
    }
    let l = b.len();
    b[..4].copy_from_slice(&(l as i32).to_le_bytes());
    judge(&b, [0, 4, 16, l / 2, l - 1][vf::pick(5, "cut")]);
    vf::cover("big");
}

/// what the server writes is the reply it was given, and can be read
fn reply(t: u64) {
    let mut d = vec![];
    let k = vf::pick(if t > 0 { 6 } else { 4 }, "fields");
    d.extend_from_slice(&[0, 0, 0, 0]);
    for i in 0..k {
        d.extend_from_slice(&[0x10, b'a' + i as u8, 0]);
        fill(&mut d, 4);
    }
    d.push(0);
    let l = d.len() as i32;
    d[..4].copy_from_slice(&l.to_le_bytes());
    let to = vf::any_i32("request");
    let doc = match RawDocumentBuf::from_bytes(d.clone()) { Ok(x) => x, Err(_) => { vf::check(false, "legal document"); return } };
    let r = crate::reply::Reply::new(to, doc);
    let mut out: Vec<u8> = vec![];
    vf::check(block(r.write_to(&mut out)).is_ok(), "the reply is written");
    let mut want = vec![];
    want.extend_from_slice(&(16 + 5 + l).to_le_bytes());
    vf::check(out.len() == 21 + d.len(), "the reply has the length of its document");
    vf::check(same(&out[..4], &want), "the reply announces its length");
    vf::check(same(&out[8..12], &to.to_le_bytes()), "the reply names the request it answers");
    vf::check(same(&out[12..21], &[0xdd, 7, 0, 0, 0, 0, 0, 0, 0]), "the reply is a plain message");
    vf::check(same(&out[21..], &d), "the reply carries its document");
    judge(&out, 0);
    vf::cover("reply");
}

/// a message read, written and read again is the same message
fn write(t: u64) {
    let mut b = vec![];
    header(&mut b, 0, 2013);
    let sum = vf::pick(2, "checksum") == 1;
    b.extend_from_slice(&[sum as u8, 0, 0, 0, 0]);
    int_doc(&mut b);
    let n = vf::pick(if t > 0 { 3 } else { 2 }, "sequences");
    for _ in 0..n {
        b.push(1);
        let at = b.len();
        b.extend_from_slice(&[0, 0, 0, 0]);
        for _ in 0..vf::pick(3, "name") { let c = vf::any_u8("char"); vf::assume(c >= 1 && c < 0x80); b.push(c) }
        b.push(0);
        for _ in 0..vf::pick(3, "documents") { int_doc(&mut b) }
        b[at] = (b.len() - at) as u8;
    }
    if sum { fill(&mut b, 4) }
    let l = b.len() as i32;
    b[..4].copy_from_slice(&l.to_le_bytes());
    let mut r: &[u8] = &b;
    let m = match block(Message::read_from(&mut r, Some(MAX))) { Ok(m) => m, Err(_) => { vf::check(false, "a legal message is read"); return } };
    let mut out: Vec<u8> = vec![];
    vf::check(block(m.write_op_msg_to(&mut out)).is_ok(), "a message is written");
    vf::check(same(&out, &b), "a message is written as it was read");
    vf::cover("written");
}

const NAMES: &[&str] = &["find", "getMore", "killCursors", "aggregate", "insert", "update", "delete", "helloOk", "commitTransaction", "abortTransaction", "ping", "isMaster", "x"];
const OTHERS: &[&str] = &["$db", "cursors", "updates", "deletes", "pipeline", "lsid", "startTransaction", "filter", "collection", "autocommit"];

fn element(d: &mut Vec<u8>, kind: u8, name: &str, v: &[u8]) {
    d.push(kind);
    d.extend_from_slice(name.as_bytes());
    d.push(0);
    d.extend_from_slice(v);
}
/// a value of some type under the name; the numbers are free
fn value(d: &mut Vec<u8>, name: &str, wide: bool) {
    match vf::pick(if wide { 10 } else { 7 }, "value") {
        0 => element(d, 2, name, &[2, 0, 0, 0, b'c', 0]),
        1 => element(d, 16, name, &vf::any_i32("int").to_le_bytes()),
        2 => element(d, 18, name, &[1, 0, 0, 0, 0, 0, 0, 0]),
        3 => element(d, 8, name, &[1]),
        4 => element(d, 3, name, &[5, 0, 0, 0, 0]),
        // [{}]
        5 => element(d, 4, name, &[13, 0, 0, 0, 3, b'0', 0, 5, 0, 0, 0, 0, 0]),
        // [{"q": {}}]
        6 => element(d, 4, name, &[21, 0, 0, 0, 3, b'0', 0, 13, 0, 0, 0, 3, b'q', 0, 5, 0, 0, 0, 0, 0, 0]),
        // [1.0]
        7 => element(d, 4, name, &[16, 0, 0, 0, 1, b'0', 0, 0, 0, 0, 0, 0, 0, 0xf0, 0x3f, 0]),
        8 => element(d, 10, name, &[]),
        // {"id": 1}
        _ => element(d, 3, name, &[13, 0, 0, 0, 16, b'i', b'd', 0, 1, 0, 0, 0, 0]),
    }
}

/// documents of up to three fields reach the handlers: an answer or an end of the connection, no panic
fn commands(t: u64) {
    let mut d = vec![0, 0, 0, 0];
    value(&mut d, NAMES[vf::pick(NAMES.len(), "command")], true);
    for i in 0..vf::pick(3, "fields") {
        if i == 0 || t > 0 { value(&mut d, OTHERS[vf::pick(OTHERS.len(), "other")], t > 0) }
        else { element(&mut d, 2, "$db", &[2, 0, 0, 0, b'd', 0]) }
    }
    d.push(0);
    serve(d);
}

/// a command with a value of any type byte, complete or not
fn values(t: u64) {
    let mut d = vec![0, 0, 0, 0];
    let k = vf::any_u8("type");
    let mut v = vec![];
    let n = vf::pick(if t > 0 { 7 } else { 3 }, "bytes");
    fill(&mut v, n);
    element(&mut d, k, NAMES[vf::pick(NAMES.len(), "command")], &v);
    d.push(0);
    serve(d);
    vf::cover("any value");
}

fn serve(mut d: Vec<u8>) {
    use crate::app_context::AppContext;
    let db = match polodb_core::Database::open_path(&crate::store::dir(0)) { Ok(d) => d, Err(_) => return };
    let ctx = AppContext::new(db);
    ctx.register_handlers(crate::handlers::make_handlers());
    let l = d.len() as i32;
    d[..4].copy_from_slice(&l.to_le_bytes());
    let mut b = vec![];
    header(&mut b, 21 + l, 2013);
    b.extend_from_slice(&[0, 0, 0, 0, 0]);
    b.extend_from_slice(&d);
    let mut r: &[u8] = &b;
    if let Ok(m) = block(Message::read_from(&mut r, Some(MAX))) {
        let mut out: Vec<u8> = vec![];
        match block(crate::handle_message(ctx, 7, &mut out, m)) {
            Ok(()) => {
                vf::cover("answered");
                vf::check(out.len() > 21, "every command is answered");
                vf::check(same(&out[8..12], &b[4..8]), "the answer names the request");
            }
            Err(_) => {
                vf::cover("connection ended");
                vf::check(out.is_empty(), "no answer is half written");
            }
        }
    }
}
