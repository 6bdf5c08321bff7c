//! An independent implementation of the documented frame format.
use serde_json::{json, Value};

#[derive(Clone, Debug, PartialEq)]
pub struct Frame {
    pub version: [u8; 3],
    pub id: u64,
    pub ty: u8,
    pub reference: Option<u64>,
    pub ns: Vec<u8>,
    pub name: Vec<u8>,
    pub extra: Vec<u8>,
    pub data: Vec<u8>,
}

pub fn ty_code(t: &str) -> u8 {
    match t {
        "I" => 0,
        "R" => 1,
        "E" => 2,
        "X" => 3,
        o => o.parse().unwrap(),
    }
}

pub fn ty_name(t: u8) -> &'static str {
    match t {
        0 => "I",
        1 => "R",
        2 => "E",
        3 => "X",
        _ => "?",
    }
}

impl Frame {
    pub fn header(&self) -> Vec<u8> {
        let mut h = self.version.to_vec();
        h.extend(self.id.to_be_bytes());
        h.push(self.ty);
        match self.reference {
            Some(r) => {
                h.push(0xFF);
                h.extend(r.to_be_bytes());
            }
            None => h.push(0),
        }
        h.extend((self.ns.len() as u16).to_be_bytes());
        h.extend(&self.ns);
        h.extend((self.name.len() as u16).to_be_bytes());
        h.extend(&self.name);
        h.extend(&self.extra);
        h
    }

    pub fn encode(&self) -> Vec<u8> {
        let h = self.header();
        let mut b = ((h.len() + self.data.len()) as u64).to_be_bytes().to_vec();
        b.extend((h.len() as u16).to_be_bytes());
        b.extend(h);
        b.extend(&self.data);
        b
    }
}

pub enum Parsed {
    Incomplete,
    Frame(Frame, usize),
    Bad(&'static str),
}

/// Parses the first frame of the given bytes
pub fn parse(b: &[u8]) -> Parsed {
    if b.len() < 8 {
        return Parsed::Incomplete;
    }
    let total = u64::from_be_bytes(b[0..8].try_into().unwrap());
    if b.len() < 10 {
        return Parsed::Incomplete;
    }
    let hl = u16::from_be_bytes(b[8..10].try_into().unwrap()) as usize;
    if total < hl as u64 {
        return Parsed::Bad("length");
    }
    if b.len() < 10 + hl {
        return Parsed::Incomplete;
    }
    let h = &b[10..10 + hl];
    let mut p = 0usize;
    let mut take = |n: usize| -> Option<&[u8]> {
        let r = h.get(p..p + n)?;
        p += n;
        Some(r)
    };
    let mut go = || -> Result<Frame, &'static str> {
        let v = take(3).ok_or("short")?;
        let version = [v[0], v[1], v[2]];
        if version[0] != 0 {
            return Err("version");
        }
        let id = u64::from_be_bytes(take(8).ok_or("short")?.try_into().unwrap());
        let ty = take(1).ok_or("short")?[0];
        if ty > 3 {
            return Err("type");
        }
        let reference = match take(1).ok_or("short")?[0] {
            0 => None,
            0xFF => Some(u64::from_be_bytes(take(8).ok_or("short")?.try_into().unwrap())),
            _ => return Err("flag"),
        };
        let n = u16::from_be_bytes(take(2).ok_or("short")?.try_into().unwrap()) as usize;
        let ns = take(n).ok_or("short")?.to_vec();
        let n = u16::from_be_bytes(take(2).ok_or("short")?.try_into().unwrap()) as usize;
        let name = take(n).ok_or("short")?.to_vec();
        if std::str::from_utf8(&ns).is_err() || std::str::from_utf8(&name).is_err() {
            return Err("utf8");
        }
        let extra = take(h.len() - (3 + 8 + 1 + 1 + if reference.is_some() { 8 } else { 0 } + 4 + ns.len() + name.len()))
            .unwrap()
            .to_vec();
        Ok(Frame { version, id, ty, reference, ns, name, extra, data: vec![] })
    };
    let mut f = match go() {
        Ok(f) => f,
        Err(e) => return Parsed::Bad(e),
    };
    let dl = (total - hl as u64) as usize;
    if b.len() - 10 - hl < dl {
        return Parsed::Incomplete;
    }
    f.data = b[10 + hl..10 + hl + dl].to_vec();
    let used = 10 + hl + dl;
    Parsed::Frame(f, used)
}

/// A payload of the given size that carries a tag; the rest is determined by the tag and
/// the size, so that a shorter or longer one is recognised.
pub fn payload(tag: &str, size: usize) -> Vec<u8> {
    if tag.is_empty() {
        return vec![];
    }
    let mut v = tag.as_bytes().to_vec();
    v.push(if size > v.len() + 1 { b'~' } else { b'|' });
    let mut x: u32 = tag.bytes().fold(17 + size as u32, |a, b| a.wrapping_mul(31).wrapping_add(b as u32));
    while v.len() < size {
        x = x.wrapping_mul(1664525).wrapping_add(1013904223);
        v.push((x >> 24) as u8);
    }
    v
}

pub fn error_payload(code: u16, msg: &str) -> Vec<u8> {
    let mut v = code.to_be_bytes().to_vec();
    v.extend((msg.len() as u32).to_be_bytes());
    v.extend(msg.as_bytes());
    v
}

pub fn parse_error(data: &[u8]) -> Option<(u16, String)> {
    if data.len() < 6 {
        return None;
    }
    let code = u16::from_be_bytes(data[0..2].try_into().unwrap());
    let n = u32::from_be_bytes(data[2..6].try_into().unwrap()) as usize;
    let m = data.get(6..6usize.checked_add(n)?)?;
    Some((code, String::from_utf8(m.to_vec()).ok()?))
}

/// The tag of an error: failures of scenario handlers are marked with FAILn; and how
/// the library renders the rest of the description is its business.
pub fn error_tag(code: u16, msg: &str) -> String {
    let msg = match msg.find("FAIL") {
        Some(i) => match msg[i..].find(';') {
            Some(j) => &msg[i..i + j + 1],
            None => msg,
        },
        None => msg,
    };
    format!("err:{}:{}", code, msg)
}

/// The tag of a payload, or a digest if it isn't one of ours.
pub fn tag(data: &[u8]) -> String {
    if data.is_empty() {
        return String::new();
    }
    if let Some(i) = data.iter().position(|b| *b == b'|' || *b == b'~') {
        if let Ok(t) = std::str::from_utf8(&data[..i]) {
            if payload(t, data.len()) == data {
                return t.to_string();
            }
        }
    }
    if let Some((c, m)) = parse_error(data) {
        return error_tag(c, &m);
    }
    let h = data.iter().fold(0xcbf29ce484222325u64, |h, b| (h ^ *b as u64).wrapping_mul(0x100000001b3));
    format!("#{}:{:016x}", data.len(), h)
}

fn text(b: &[u8]) -> String {
    String::from_utf8(b.to_vec()).unwrap_or_else(|_| "?".into())
}

pub fn to_json(id: u64, ty: u8, reference: Option<u64>, ns: &[u8], name: &[u8], data: &[u8]) -> Value {
    let er = parse_error(data);
    json!({
        "id": crate::log::id(id),
        "ty": ty_name(ty),
        "ref": reference.map(crate::log::id).unwrap_or(0),
        "ns": text(ns),
        "nm": text(name),
        "pl": tag(data),
        "er": er.is_some(),
        "code": er.map(|e| e.0).unwrap_or(0),
    })
}

pub fn frame_json(f: &Frame) -> Value {
    to_json(f.id, f.ty, f.reference, &f.ns, &f.name, &f.data)
}

pub fn no_frame() -> Value {
    json!({"id": 0, "ty": "-", "ref": 0, "ns": "", "nm": "", "pl": "", "er": false, "code": 0})
}
